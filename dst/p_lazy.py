"""C05: lazily produced results equal eagerly produced ones, however their steps are interleaved."""
import gc

from . import calls, canon as C, faults as F, harness, seams, world as W
from .harness import Crash
from .ops import OPS
from .p_isolation import WRITES, containers, write

ID = "C05"
RUNS = {"quick": 5000, "thorough": 80000}
RULE = (
    "One case: 2-5 lazy results opened on 1-2 graphs with drawn batch sizes, and a seeded schedule of 8-40 actions: step "
    "one of them, close or drop it, fail a step at a drawn point (engine failure, interrupt), open another, write to an "
    "item already received, make an ordinary call. Every result that is run to its end must have yielded each item of "
    "the eager answer (one batch, fresh graph, own process) exactly once; the others a part of it. Non-trivial: at "
    "least two results were live at once and one was stepped again after another action; distinct by hash of schedule and items."
)
STATES = "hash of (operation, batch size, steps already taken, previous action, its operation)"
ASSUMPTIONS = ["the order in which items appear is compared for breadth-first layers only"]

LAZY = ["all_pairs_shortest_path_length", "all_pairs_bellman_ford_path_length", "bfs_layers", "edge_boundary"]
WEIGHTS = [4, 4, 2, 1]
BATCH = [1, 2, 2, 3, 3, 4, 5, 7, "2 chunks", "3 chunks", "4 chunks", "7chunks", "100 B", "10 MiB", None, "all"]
BATCHED = [n for n in W.NAMES if "chunksize" in OPS[n].extra]


def gen_lazy(rng, graphs):
    for _ in range(50):
        name = rng.choices(LAZY, WEIGHTS)[0]
        inst = W.gen_op(rng, graphs, names=[name], routes=("ga", "ga", "ga", "nxga", "nxback"))
        if inst["f"] == name:
            break
    if "chunksize" in OPS[inst["f"]].extra:
        inst["p"]["chunksize"] = rng.choice(BATCH)
        if inst["r"] != "ga" and rng.random() < 0.3:
            del inst["p"]["chunksize"]
    return inst


def gen(rng, seed):
    k = rng.choice([1, 1, 2])
    big = rng.random() < 0.15
    graphs = W.gen_specs(rng, k, nmax=rng.choice([16, 24]) if big else 9, nmin=rng.choice([0, 2, 4]))
    acts = []
    live = 0
    for _ in range(rng.randint(2, 3)):
        acts.append({"open": gen_lazy(rng, graphs)})
        live += 1
    if rng.random() < 0.3:  # the same question twice at once
        acts.append({"open": dict(acts[0]["open"], p=dict(acts[0]["open"]["p"]))})
        if "chunksize" in acts[0]["open"]["p"]:
            acts[-1]["open"]["p"]["chunksize"] = rng.choice(BATCH)
        live += 1
    pf = rng.choice([0.0, 0.0, 0.1, 0.3])
    pc = rng.choice([0.1, 0.3, 0.5])
    for _ in range(rng.randint(8, 40)):
        r = rng.random()
        i = rng.randrange(live)
        if r < pc:
            q = rng.random()
            if q < 0.3:
                acts.append(W.gen_prop_read(rng, graphs))
            elif q < 0.5:
                acts.append(W.gen_op(rng, graphs, names=BATCHED if rng.random() < 0.5 else None))
            elif q < 0.6:
                acts.append({"close": i, "how": rng.choice(["close", "drop", "throw"])})
            elif q < 0.75:
                acts.append({"mut": i, "item": rng.randrange(8), "how": rng.choice(WRITES), "c": rng.randrange(6),
                             "x": rng.randrange(9), "y": rng.randrange(9)})
            elif q < 0.85 and live < 6:
                acts.append({"open": gen_lazy(rng, graphs)})
                live += 1
            else:
                acts.append(W.gen_op(rng, graphs))
        else:
            a = {"next": i, "times": rng.choice([1, 1, 1, 2, 3, 6])}
            if rng.random() < pf:
                a["fault"] = F.draw(rng)
            acts.append(a)
    return {"keys": W.gen_keys(rng), "graphs": graphs, "hist": acts}


class Live:
    def __init__(self, w, inst):
        self.op = OPS[inst["f"]]
        self.inst = inst
        self.items = []      # snapshots
        self.raw = []        # (item, snapshot or None once the client wrote to it)
        self.state = "open"  # open | done | raised | cut
        self.exc = None
        self.extra = [0, 0]
        r = inst.get("r", "ga")
        kw = calls.decode_params(inst["p"], w.keys)
        Gs = [w.nxg(i) if r == "nxback" else w.gag(i) for i in inst["g"]]
        fn = calls.ga_func(self.op) if r == "ga" else calls.nx_func(self.op)
        if r == "nxback":
            kw["backend"] = "graphblas"
        try:
            self.it = iter(fn(*Gs, **kw))
        except (Exception, seams.BudgetExceeded) as e:
            self.it, self.state, self.exc = None, "raised", C.canon(C.Exc(e), w.keys)

    def snap(self, x, keys):
        if self.op.canon == "layers":
            return [len(x), sorted(C.key(k, keys) for k in x)]
        if self.op.canon == "edgeset":
            return [C.key(x[0], keys), C.key(x[1], keys)]
        return [C.key(x[0], keys), C.canon(x[1], keys)]

    def step(self, keys):
        """One item. Returns False at the end."""
        if self.state != "open":
            if self.it is not None and self.state in ("done", "raised", "cut"):
                try:
                    x = next(self.it)
                except StopIteration:
                    return False
                except (ValueError, RuntimeError):
                    if self.state == "cut":
                        return False  # a broken-off iterator says so
                    raise
                self.items.append(["after-end", C.canon(x, keys)])
                return False
            return False
        try:
            x = next(self.it)
        except StopIteration:
            self.state = "done"
            return False
        except F.INJECTED:
            self.state = "cut"
            raise
        except (Exception, seams.BudgetExceeded) as e:
            self.state, self.exc = "raised", C.canon(C.Exc(e), keys)
            return False
        hooks = seams.S.on_call, seams.S.after_call, seams.S.on_line
        lines, ncalls = seams.S.lines, seams.S.calls
        seams.S.on_call = seams.S.after_call = seams.S.on_line = None
        s = self.snap(x, keys)  # looking at the item is not part of the step
        seams.S.on_call, seams.S.after_call, seams.S.on_line = hooks
        self.extra[0] += seams.S.lines - lines
        self.extra[1] += seams.S.calls - ncalls
        self.items.append(s)
        self.raw.append([x, s])
        return True

    def answer(self):
        if self.exc is not None:
            return self.exc
        if self.op.canon == "layers":
            return ["list", [["set", s[1]] for s in self.items]]
        if self.op.canon == "edgeset":
            return ["set", sorted(f"{a}>{b}" for a, b in self.items)]
        out = {}
        for k, m in self.items:
            while k in out:
                k += "!again"
            out[k] = m
        return ["map", out]

    def partial(self, eager, single):
        """How what was yielded so far contradicts the eager answer."""
        if any(x[0] == "after-end" for x in self.items):
            return f"yields {C.short(self.items[-1][1])} after its end"
        if self.op.canon == "layers":
            if eager[0] == "exc":
                return f"yielded {len(self.items)} layers, eager raises" if self.items else None
            for i, s in enumerate(self.items):
                if s[0] != len(s[1]) or len(set(s[1])) != s[0]:
                    return f"layer {i} repeats nodes: {s}"
                if i >= len(eager[1]) or s[1] != eager[1][i][1]:
                    return f"layer {i}: {s[1]} vs {eager[1][i][1] if i < len(eager[1]) else 'nothing'}"
            return None
        if self.op.canon == "edgeset":
            if eager[0] == "exc":
                return "yielded edges, eager raises" if self.items else None
            got = [tuple(sorted(x)) if self.und else tuple(x) for x in self.items]
            have = {tuple(sorted(e.split(">"))) if self.und else tuple(e.split(">")) for e in eager[1]}
            if len(set(got)) != len(got):
                return f"edge repeated in {got}"
            return f"edges {sorted(set(got) - have)} not in the eager answer" if set(got) - have else None
        seen = set()
        for k, m in self.items:
            if k in seen:
                return f"item {k} repeated"
            seen.add(k)
            want = single.get(k) if eager[0] == "exc" else eager[1].get(k)
            if want is None:
                return f"item {k} is not in the eager answer"
            d = C.diff(m, want, 1e-9, 1e-9)
            if d:
                return f"item {k}: {d}"
        return None


SINGLE = {"all_pairs_shortest_path_length": "single_source_shortest_path_length",
          "all_pairs_bellman_ford_path_length": "single_source_bellman_ford_path_length"}


def _oracle(scn):
    w = W.World(scn)
    out = []
    for x in scn["hist"]:
        inst = x.get("open") or (x if "f" in x or "prop" in x or "props" in x else None)
        if inst is None:
            out.append(None)
            continue
        plain = {k: v for k, v in inst.items() if k != "r"}
        if "f" in inst and "chunksize" in OPS[inst["f"]].extra:
            plain["p"] = {**inst["p"], "chunksize": None}
        with seams.Budget(W.LINE_BUDGET):
            a = w.fresh().run(plain)
        single = None
        if "open" in x and a[0] == "exc" and inst["f"] in SINGLE:
            single = {}
            for i in scn["graphs"][inst["g"][0]]["order"]:
                p = {"source": {"n": i}}
                if inst["p"].get("cutoff") is not None:
                    p["cutoff"] = inst["p"]["cutoff"]
                with seams.Budget(W.LINE_BUDGET):
                    single[f"@{i}"] = w.fresh().run({"f": SINGLE[inst["f"]], "g": inst["g"], "p": p})
        out.append([a, single])
    return out


def _count(live, keys, times):
    live.extra = [0, 0]
    with F.Counter() as c:
        for _ in range(times):
            if not live.step(keys):
                break
    return c.lines - live.extra[0], c.calls - live.extra[1]


def execute(scn, record=None):
    hist = scn["hist"]
    st = {"ops": len(hist), "checks": 0, "opnames": {}, "probes": {}, "states": [], "faults": {}}

    def probe(k, n=1):
        st["probes"][k] = st["probes"].get(k, 0) + n

    try:
        oracle = harness.sub(_oracle, scn)
    except Crash as e:
        return {"v": {"cls": "fresh-crash", "msg": str(e)}, "digest": "crash", "st": st}
    w = W.World(scn)
    for i in range(len(w.specs)):
        w.gag(i)
        w.nxg(i)
    lives, want = [], []
    log = []
    v = None
    prev = None
    interleaved = 0

    def one(i, x):
        nonlocal v, interleaved, prev
        name = None
        if "open" in x:
            L = Live(w, x["open"])
            L.und = not scn["graphs"][x["open"]["g"][0]]["directed"]
            lives.append(L)
            want.append(oracle[i])
            name = "open:" + x["open"]["f"]
        elif "next" in x:
            if x["next"] >= len(lives):
                return
            L = lives[x["next"]]
            fault = x.get("fault")
            taken = len(L.items)
            if fault and L.state == "open":
                try:
                    lines, ncalls = harness.sub(_count, L, w.keys, x["times"]) if "k" not in fault else (0, 0)
                except Crash as e:
                    v = {"cls": "crash", "msg": f"action {i}: {e}"}
                    return
                k = F.resolve(fault, lines, ncalls)
                if record is not None:
                    record[i] = k
                with F.Armed(fault, k) as armed:
                    try:
                        for _ in range(x["times"]):
                            if not L.step(w.keys):
                                break
                    except F.INJECTED:
                        probe("step_cut_short")
                if armed.fired:
                    kind = f"{fault['exc']}@{fault['at']}"
                    st["faults"][kind] = st["faults"].get(kind, 0) + 1
                    if L.state == "raised" and L.exc[1][0] != "Unbounded":
                        # the engine's failure may be wrapped by python-graphblas or the repository
                        L.state = "cut"
                        L.exc = None
            else:
                for _ in range(x["times"]):
                    if not L.step(w.keys):
                        break
            name = "next:" + L.op.name
            if prev is not None and prev[1] != x["next"] and taken and len(L.items) > taken:
                interleaved += 1
                st["states"].append(harness.digest_of([L.op.name, str(L.inst["p"].get("chunksize")), taken, prev[0]]))
            prev = (name, x["next"])
        elif "close" in x:
            if x["close"] >= len(lives):
                return
            L = lives[x["close"]]
            name = x["how"] + ":" + L.op.name
            if L.it is not None and L.state == "open":
                probe("abandoned")
                L.state = "cut"
                if x["how"] == "drop" or not hasattr(L.it, "close"):
                    L.it = None
                elif x["how"] == "close":
                    L.it.close()
                else:
                    try:
                        L.it.throw(F.ClientError("thrown in"))
                    except (F.ClientError, StopIteration):
                        pass
            prev = (name, None)
        elif "mut" in x:
            if x["mut"] >= len(lives) or not lives[x["mut"]].raw:
                return
            L = lives[x["mut"]]
            r = L.raw[x["item"] % len(L.raw)]
            name = "write:" + L.op.name
            cs = containers(r[0])
            if cs:
                try:
                    write(cs[x["c"] % len(cs)], x, w.keys)
                except Exception:
                    pass
                r[1] = None
                probe("writes_to_items")
            prev = (name, None)
        else:
            a = w.run(x)
            name = x.get("f") or "prop"
            d = w.same(x, a, oracle[i][0])
            st["checks"] += 1
            if d and v is None:
                v = {"cls": "call-affected", "msg": f"action {i} {name}: {d}"}
            log.append(a)
            prev = (name, None)
        st["opnames"][name] = st["opnames"].get(name, 0) + 1

    for i, x in enumerate(hist):
        with seams.Budget(W.LINE_BUDGET):
            one(i, x)
        if v:
            break
    # after the last action the client exhausts what is still open, in turns
    if v is None:
        with seams.Budget(W.LINE_BUDGET):
            busy = True
            while busy:
                busy = False
                for L in lives:
                    if L.it is not None:
                        busy |= L.step(w.keys)
                    if len(L.items) > 5000:
                        v = {"cls": "endless", "msg": f"{L.op.name} yields more than 5000 items"}
                        busy = False
                        break
    probe("iterators", len(lives))
    for j, L in enumerate(lives):
        log.append([L.items, L.exc, L.state])
        if v is not None:
            break
        eager, single = want[j]
        st["checks"] += 1
        d = L.partial(eager, single)
        if d:
            v = {"cls": "wrong-item", "msg": f"lazy result {j} {L.inst}: {d}"[:500]}
        elif L.state in ("done", "raised"):
            probe("run_to_the_end")
            d = w.same(L.inst, L.answer(), eager)
            if d:
                v = {"cls": "not-equal-eager", "msg": f"lazy result {j} {L.inst}: {d}"[:500]}
            if v is None and L.state == "done":
                x = w.want(L.inst)
                if x is not None:
                    probe("compared_with_networkx")
                    d = w.judge_ref(L.inst, L.answer(), x)
                    if d:
                        v = {"cls": "not-networkx", "msg": f"lazy result {j} {L.inst}: {d}"[:500]}
        for x, s in L.raw:
            if v is None and s is not None and L.snap(x, w.keys) != s and "nan" not in str(s):
                v = {"cls": "item-changed", "msg": f"lazy result {j} {L.inst}: item {s} became {L.snap(x, w.keys)}"[:500]}
    if v is None:
        for i in range(len(w.specs)):
            d = C.diff(w.content(i), w.content_want(i), order=True) or C.diff(C.canon(w.nxg(i), w.keys), w.content_want(i), order=True)
            if d:
                v = {"cls": "graph-changed", "msg": f"graph {i}: {d}"}
    gc.collect(0)
    st["nontrivial"] = len(lives) > 1 and interleaved > 0
    st["switches"] = interleaved
    st["sample"] = [next(iter(x)) + ":" + str(x.get("open", {}).get("f", x.get("f", x.get("next", "")))) for x in hist][:20]
    st["lines"], st["calls"] = seams.S.lines, seams.S.calls
    return {"v": v, "digest": harness.digest_of([hist, log, v]), "st": st}


def explicit(scn):
    rec = {}
    seams.reset()
    execute(scn, rec)
    h = []
    for i, x in enumerate(scn["hist"]):
        if i in rec:
            f = {k: q for k, q in x["fault"].items() if k != "u"}
            x = {**x, "fault": {**f, "k": rec[i]}}
        h.append(x)
    return {**scn, "hist": h}


def shrink(scn):
    h = scn["hist"]
    n = len(h)
    k = max(1, n // 2)
    while k >= 1:
        for i in range(0, n, k):
            cut, rest = h[i : i + k], h[:i] + h[i + k :]
            gone = sum("open" in x for x in cut)
            at = sum("open" in x for x in h[:i])

            def fix(x):
                for q in ("next", "close", "mut"):
                    if q in x and x[q] >= at:
                        return None if x[q] < at + gone else {**x, q: x[q] - gone}
                return x

            yield {**scn, "hist": [y for y in (fix(x) for x in rest) if y is not None]}
        k //= 2
    for i, x in enumerate(h):
        if "fault" in x:
            yield {**scn, "hist": h[:i] + [{k: v for k, v in x.items() if k != "fault"}] + h[i + 1 :]}
        if x.get("times", 1) > 1:
            yield {**scn, "hist": h[:i] + [{**x, "times": 1}] + h[i + 1 :]}
        if "open" in x and x["open"].get("r", "ga") != "ga":
            yield {**scn, "hist": h[:i] + [{"open": {**x["open"], "r": "ga"}}] + h[i + 1 :]}
    yield from W.shrink_graphs(scn)
