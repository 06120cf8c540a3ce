"""C02: caller threads sharing graphs and results get the answers of a serial run.

The threads are real, but only the one that holds the baton runs. At every repository source line and
around every engine call the scheduler decides who goes on; the decisions are recorded as explicit
switches [thread, its local step, next thread], which is what replay files and shrinking work on.
"""
import random
import threading

from . import calls, canon as C, harness, seams, world as W
from .harness import Crash
from .ops import OPS

ID = "C02"
RUNS = {"quick": 5000, "thorough": 50000}
RULE = (
    "One case: 2-4 caller threads with 1-4 calls or property reads each on 1-2 shared graphs and on shared results, "
    "under one seeded schedule; every answer is compared with the answer of the same call made alone on a fresh equal "
    "graph; afterwards further questions are asked of the graphs. Non-trivial: at least 2 switches happened inside "
    "calls; distinct by the hash of switches and answers."
)
STATES = "hash of (line left, line entered) pairs at thread switches"
STUBS = ["thread scheduler (baton)", "locks of repository code", "engine calls are atomic steps"]
ASSUMPTIONS = [
    "an engine call is one atomic step; data races inside the C library are out of reach",
    "switches happen at source lines of the repository and around engine calls, not between bytecodes of a line",
]
HOT = ("_caching.py", "graph.py", "digraph.py", "_utils.py", "nodemap.py", "nodeset.py", "interface.py")


class Sched:
    def __init__(self, n, scn):
        self.n = n
        self.alive = set(range(n))
        self.steps = [0] * n
        self.batons = [seams.REAL_LOCK() for _ in range(n)]
        for b in self.batons:
            b.acquire()
        self.done = seams.REAL_LOCK()
        self.done.acquire()
        self.ids = {}
        self.trace = []
        self.sw = scn.get("sw")
        self.sw = None if self.sw is None else list(self.sw)
        pol = scn.get("pol") or {}
        self.mode = pol.get("mode", "rand")
        self.p = pol.get("p", 0.1)
        self.rng = random.Random(f"sched:{pol.get('seed', 0)}")
        self.prio = list(range(n))
        self.rng.shuffle(self.prio)
        self.changes = sorted(self.rng.randrange(1, pol.get("span", 600)) for _ in range(pol.get("d", 3)))
        self.total = 0
        self.where = [None] * n
        self.pairs = set()
        self.hot = False

    # -- decisions, in the thread that holds the baton
    def tick(self, where, hot):
        t = self.ids.get(threading.get_ident())
        if t is None:
            return
        self.steps[t] += 1
        self.total += 1
        self.where[t] = where
        if len(self.alive) == 1:
            return
        u = self.decide(t, hot)
        if u is not None and u != t:
            self.trace.append([t, self.steps[t], u])
            self.switch(t, u)

    def decide(self, t, hot):
        if self.sw is not None:
            while self.sw and self.sw[0][0] not in self.alive:
                self.sw.pop(0)
            if self.sw and self.sw[0][0] == t and self.steps[t] >= self.sw[0][1]:
                u = self.sw.pop(0)[2]
                return u if u in self.alive else None
            return None
        if self.mode == "pct":
            if self.changes and self.total >= self.changes[0]:
                self.changes.pop(0)
                self.prio[t] = min(self.prio) - 1
            return max(self.alive, key=lambda i: self.prio[i])
        p = self.p
        if self.mode == "hot":
            p = self.p if hot else 0.004
        if self.rng.random() < p:
            return self.rng.choice(sorted(self.alive - {t}))
        return None

    def switch(self, t, u):
        self.pairs.add((self.where[t], self.where[u]))
        self.batons[u].release()
        self.batons[t].acquire()

    def block(self):
        t = self.ids[threading.get_ident()]
        others = sorted(self.alive - {t})
        if not others:
            raise seams.BudgetExceeded("deadlock: every other thread has finished")
        # round robin, so that the holder runs
        u = next((x for x in others if x > t), others[0])
        self.switch(t, u)

    # -- thread bodies
    def body(self, t, fn):
        self.batons[t].acquire()
        self.ids[threading.get_ident()] = t
        try:
            fn()
        finally:
            del self.ids[threading.get_ident()]
            self.alive.discard(t)
            if self.alive:
                self.batons[self.pick()].release()
            else:
                self.done.release()

    def pick(self):
        if self.sw is None and self.mode == "pct":
            return max(self.alive, key=lambda i: self.prio[i])
        return min(self.alive)

    def run(self, fns):
        ths = [threading.Thread(target=self.body, args=(t, f), daemon=True) for t, f in enumerate(fns)]
        for th in ths:
            th.start()
        self.batons[self.pick()].release()
        self.done.acquire()
        for th in ths:
            th.join()


def gen_storm(rng, seed):
    """Several rounds on freshly built copies of one graph: a small pool of questions, other schedules."""
    kw = {"wkinds": ("negint", "negfloat", "negiso")} if rng.random() < 0.2 else {}
    graphs = W.gen_specs(rng, 1, nmin=2, nmax=rng.choice([3, 5, 7]), loops=rng.choice([0.0, 0.0, 0.3, 0.6]), **kw)
    routes = ("ga",) if rng.random() < 0.8 else ("ga", "nxga", "nxback")
    names = W.PROPS_BOTH + (W.PROPS_D if graphs[0]["directed"] else [])
    names = rng.sample(names, rng.randint(3, 10))
    fns = rng.choice([None, W.CACHED, rng.sample(W.NAMES, 3), rng.sample(W.CACHED, 2), rng.sample(W.CACHED, 1)])
    reads = [W.gen_prop_read(rng, graphs, 0, names) for _ in range(rng.randint(2, 6))]
    ops = [W.gen_op(rng, graphs, names=fns, slot=0, routes=routes) for _ in range(rng.randint(1, 5))]
    pool = rng.choice([reads, ops, ops, reads + ops])
    many = [W.gen_prop_read(rng, graphs, 0) for _ in range(rng.choice([0, 0, 3, 14]))]
    rounds = []
    for r in range(rng.randint(4, 10)):
        n = rng.choice([2, 2, 3])
        threads = [[rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)]
        if rng.random() < 0.3:
            threads = [list(threads[0]) for _ in range(n)]
        warm = [x for x in reads + many if rng.random() < 0.5] if rng.random() < 0.5 else []
        pol = {"mode": rng.choice(["rand", "hot", "hot", "pct"]), "seed": seed * 16 + r, "p": rng.choice([0.5, 0.2, 0.05]),
               "d": rng.randint(1, 5), "span": rng.choice([60, 200, 600])}
        rounds.append({"warm": warm, "threads": threads, "pol": pol, "post": [rng.choice(reads + ops) for _ in range(rng.randint(1, 3))]})
    return {"keys": W.gen_keys(rng), "graphs": graphs, "shared": [], "rounds": rounds}


def gen(rng, seed):
    if rng.random() < 0.35:
        return gen_storm(rng, seed)
    k = rng.choice([1, 1, 1, 2])
    graphs = W.gen_specs(rng, k)
    nthreads = rng.choice([2, 2, 2, 3, 4])
    names = None
    if rng.random() < 0.7:
        names = rng.sample(W.NAMES, rng.randint(1, 6))
    shared = []
    if rng.random() < 0.25:
        for _ in range(rng.randint(1, 2)):
            shared.append(W.gen_op(rng, graphs, names=SHAREABLE))
    routes = ("ga",) if rng.random() < 0.6 else ("ga", "nxga", "nxback")
    pp = rng.choice([0.0, 0.4, 0.8, 1.0])

    def one():
        if shared and rng.random() < 0.6:
            return {"res": rng.randrange(len(shared)), "do": rng.choice(["list", "len", "items", "has", "get", "copy"]),
                    "x": rng.randrange(max(1, graphs[0]["n"]))}
        if rng.random() < pp:
            return W.gen_prop_read(rng, graphs)
        return W.gen_op(rng, graphs, names=names, routes=routes)

    threads = [[one() for _ in range(rng.randint(1, 4))] for _ in range(nthreads)]
    if rng.random() < 0.4:  # the same calls from every thread
        threads = [list(threads[0]) for _ in range(nthreads)]
    warm = [W.gen_prop_read(rng, graphs) for _ in range(rng.choice([0, 0, 1, 3]))]
    post = [W.gen_prop_read(rng, graphs) if rng.random() < 0.7 else W.gen_op(rng, graphs) for _ in range(rng.randint(2, 6))]
    mode = rng.choice(["rand", "hot", "hot", "pct"])
    pol = {"mode": mode, "seed": seed, "p": rng.choice([0.5, 0.2, 0.05]), "d": rng.randint(1, 5)}
    return {"keys": W.gen_keys(rng), "graphs": graphs, "shared": shared, "warm": warm, "threads": threads, "post": post, "pol": pol}


SHAREABLE = [
    "degree_centrality", "clustering", "triangles", "pagerank", "eigenvector_centrality", "square_clustering",
    "floyd_warshall", "floyd_warshall_predecessor_and_distance", "single_source_shortest_path_length",
    "descendants", "ancestors", "node_connected_component", "node_boundary", "descendants_at_distance",
    "generalized_degree", "single_source_bellman_ford_path_length", "k_truss", "complement", "ego_graph", "reverse",
]


def make_shared(w, inst):
    """The raw result, or None when it is nothing that can be shared."""
    op = OPS[inst["f"]]
    try:
        r = calls.ga_func(op)(*[w.gag(i) for i in inst["g"]], **calls.decode_params(inst["p"], w.keys))
    except Exception:
        return None
    if isinstance(r, (int, float, bool, str)):
        return None
    return r


def read_shared(w, r, inst):
    k = w.keys[inst["x"]]
    if isinstance(r, tuple):
        r = r[-1]
    try:
        if r is None:
            return ["none"]
        do = inst["do"]
        if do == "len":
            return ["num", len(r)]
        if do == "has":
            return ["num", k in r]
        if do == "list":
            return ["set", sorted(C.key(x, w.keys) for x in r)]
        if do == "get" and hasattr(r, "get"):
            return C.canon(r.get(k), w.keys)
        if do == "items" and hasattr(r, "items"):
            return ["map", {C.key(a, w.keys): C.canon(b, w.keys) for a, b in r.items()}]
        if do == "copy" and hasattr(r, "to_networkx"):
            return C.canon(r.to_networkx(), w.keys)
        return C.canon(r, w.keys)
    except Exception as e:
        return C.canon(C.Exc(e), w.keys)


def ask(w, shared, inst):
    if "res" in inst:
        return read_shared(w, shared[inst["res"]], inst)
    return w.run(inst)


def rounds_of(scn):
    """A scenario is one round, or several on freshly built graphs."""
    if "rounds" not in scn:
        return [scn]
    return [{**{k: v for k, v in scn.items() if k != "rounds"}, **r} for r in scn["rounds"]]


def _serial(scn):
    """The answer of every call when it is made alone."""
    out = {}
    base = W.World(scn)
    for rnd in rounds_of(scn):
        for inst in [x for th in rnd["threads"] for x in th] + rnd["post"]:
            q = harness.digest_of(inst)
            if q in out:
                continue
            w = base.fresh()
            sh = [make_shared(w, s) if "res" in inst and j == inst["res"] else None for j, s in enumerate(scn["shared"])]
            with seams.Budget(W.LINE_BUDGET):
                out[q] = ask(w, sh, inst)
    return out


def _threaded(scn):
    w = W.World(scn)
    for i in range(len(w.specs)):
        w.gag(i)
        w.nxg(i)
    shared = [make_shared(w, s) for s in scn["shared"]]
    for inst in scn["warm"]:
        w.run(inst)
    n = len(scn["threads"])
    got = [[] for _ in range(n)]
    sched = Sched(n, scn)
    fatal = []

    def fn(t):
        def go():
            try:
                for inst in scn["threads"][t]:
                    got[t].append(ask(w, shared, inst))
            except BaseException as e:  # noqa: BLE001
                fatal.append(f"thread {t}: {e!r}"[:300])
                got[t].append(["fatal", repr(e)[:200]])

        return go

    base = len(__import__("os").path.dirname(__file__))
    del base
    S = seams.S
    S.budget = S.lines + 4 * W.LINE_BUDGET
    S.on_line = lambda code, line: sched.tick(f"{code.co_name}:{line}", code.co_filename.endswith(HOT))
    S.on_call = lambda name, args: sched.tick("call", True)
    S.after_call = lambda name, args: sched.tick("ret", False)
    S.block = sched.block
    sched.run([fn(t) for t in range(n)])
    S.on_line = S.on_call = S.after_call = S.block = S.budget = None
    return w, got, sched, fatal


def execute(scn):
    st = {"ops": 0, "checks": 0, "opnames": {}, "probes": {}, "states": [], "switches": 0, "steps": 0}
    try:
        alone = harness.sub(_serial, scn)
    except Crash as e:
        return {"v": {"cls": "serial-crash", "msg": str(e)}, "digest": "crash", "st": st}
    log, v = [], None
    for r, rnd in enumerate(rounds_of(scn)):
        v, trace, got = _round(rnd, alone, st)
        log.append([trace, got])
        if v:
            st["round"] = r
            break
    st["nontrivial"] = st["switches"] >= 2
    st["lines"], st["calls"] = seams.S.lines, seams.S.calls
    return {"v": v, "digest": harness.digest_of([log, v]), "st": st}


def _round(scn, alone, st):
    w, got, sched, fatal = _threaded(scn)
    v = None
    if fatal:
        v = {"cls": "thread-stuck", "msg": fatal[0]}
    for t, th in enumerate(scn["threads"]):
        for j, inst in enumerate(th):
            label = inst.get("f") or ("shared" if "res" in inst else "prop")
            st["opnames"][label] = st["opnames"].get(label, 0) + 1
            st["ops"] += 1
            if v or j >= len(got[t]):
                continue
            st["checks"] += 1
            d = w.same(inst, got[t][j], alone[harness.digest_of(inst)])
            if d:
                v = {"cls": "thread-answer", "msg": f"thread {t} call {j} {what(inst)}: interleaved vs alone: {d}"}
    if v is None:
        for inst in scn["post"]:
            with seams.Budget(W.LINE_BUDGET):
                a = w.run(inst)
            st["checks"] += 1
            d = w.same(inst, a, alone[harness.digest_of(inst)])
            if d:
                v = {"cls": "later-answer", "msg": f"asked after the threads: {what(inst)}: {d}"}
                break
    if v is None:
        for i in range(len(w.specs)):
            d = C.diff(w.content(i), w.content_want(i), order=True)
            if d:
                v = {"cls": "graph-changed", "msg": f"graph {i}: {d}"}
    st["switches"] += len(sched.trace)
    st["steps"] += sched.total
    for k, n in ((f"policy_{sched.mode}" if scn.get("sw") is None else "explicit", 1), ("shared_results", len(scn["shared"]))):
        st["probes"][k] = st["probes"].get(k, 0) + n
    st["states"] += [harness.digest_of(p) for p in sched.pairs]
    st["sample"] = {"threads": [[what(i) for i in th] for th in scn["threads"]], "switches": sched.trace[:12]}
    return v, sched.trace, got


def what(inst):
    if "res" in inst:
        return f"{inst['do']} of shared result {inst['res']}"
    return inst.get("f") or inst.get("prop") or "+".join(inst["props"])


def explicit(scn):
    """The same execution with its switches written out."""
    if scn.get("sw") is not None:
        return scn
    if "rounds" in scn:
        # the round that failed is a case of its own
        r = harness.sub(execute, scn)["st"].get("round", 0)
        scn = rounds_of(scn)[r]
    seams.reset()
    _, _, sched, _ = _threaded(scn)
    return {**{k: v for k, v in scn.items() if k != "pol"}, "sw": sched.trace}


def shrink(scn):
    if "rounds" in scn:
        yield from rounds_of(scn)
        rs = scn["rounds"]
        for i in range(len(rs)):
            yield {**scn, "rounds": rs[:i] + rs[i + 1 :]}
        return
    sw = scn.get("sw") or []
    # fewer switches
    k = len(sw) // 2
    while k >= 1:
        for i in range(0, len(sw), k):
            yield {**scn, "sw": sw[:i] + sw[i + k :]}
        k //= 2
    for key in ("warm", "post"):
        yield from W.shrink_steps(scn, key)
    if scn["shared"] and not any("res" in i for th in scn["threads"] for i in th):
        yield {**scn, "shared": []}
    # fewer calls; the schedule may need to be found again
    for t, th in enumerate(scn["threads"]):
        for j in range(len(th)):
            cand = {**scn, "threads": scn["threads"][:t] + [th[:j] + th[j + 1 :]] + scn["threads"][t + 1 :]}
            yield cand
            if len(sw) > 4:
                continue
            for s in range(6):
                c2 = {k: x for k, x in cand.items() if k != "sw"}
                c2["pol"] = {"mode": "hot", "p": 0.3, "seed": s}
                try:
                    yield harness.sub(explicit, c2)
                except Crash:
                    pass
    yield from W.shrink_graphs(scn)
