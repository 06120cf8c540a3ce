"""C03: a call that fails or is interrupted leaves no trace."""
from . import calls, canon as C, faults as F, harness, seams, spec, world as W
from .harness import Crash
from .ops import OPS, decode

ID = "C03"
RUNS = {"quick": 5000, "thorough": 80000}
RULE = (
    "One case: a history of calls and property reads on 1-2 graphs in which 1-6 steps are cut short by a fault (engine "
    "out of memory or panic instead of the k-th engine call, interrupt or MemoryError at the k-th repository line or just "
    "after the k-th engine call, a client iterator that raises); every step must end with the injected failure or the "
    "right answer, every later step must be answered as on a fresh graph. Non-trivial: at least one fault was delivered; "
    "distinct by the hash of history, fault points and answers."
)
STATES = "hash of (operation, kind and place of the fault, line reached)"
ASSUMPTIONS = ["an engine call that is failed has no effect; 'ret' faults strike right after a call took full effect"]


# parameters for which any iterable will do
ITER_PARAMS = ("nbunch", "nbunch1", "nbunch2", "nodes", "S", "T")
NO_ITER = ("is_simple_path", "edge_expansion", "node_expansion")


def bad_iter(xs, at):
    for i, x in enumerate(xs):
        if i == at:
            raise F.ClientError("client iterator")
        yield x
    if at >= len(xs):
        raise F.ClientError("client iterator")


def gen_storm(rng):
    """The same call cut short at many different places, each time on a freshly built graph."""
    kw = {"wkinds": ("negint", "negfloat", "negiso")} if rng.random() < 0.2 else {}
    graphs = W.gen_specs(rng, 1, nmin=2, nmax=rng.choice([3, 5, 7]), loops=rng.choice([0.0, 0.0, 0.3, 0.6]), **kw)
    scn = {"keys": W.gen_keys(rng), "graphs": graphs, "hist": []}
    h = scn["hist"]
    names = W.PROPS_BOTH + (W.PROPS_D if graphs[0]["directed"] else [])
    names = rng.sample(names, rng.randint(4, 10))
    if rng.random() < 0.6:
        x = W.gen_op(rng, graphs, names=rng.choice([None, W.CACHED]), slot=0)
        pool = [x, x, W.gen_op(rng, graphs, names=[x["f"]], slot=0), W.gen_op(rng, graphs, names=rng.choice([None, W.CACHED]), slot=0)]
    else:
        x = W.gen_prop_read(rng, graphs, 0, names)
        pool = [x, x]
    pool += [W.gen_prop_read(rng, graphs, 0, names) for _ in range(rng.randint(2, 6))]
    warm = [rng.choice(pool[2:]) for _ in range(rng.choice([0, 0, 1, 2]))]
    for _ in range(rng.randint(5, 12)):
        h += warm
        h.append({**x, "fault": F.draw(rng)})
        h += [rng.choice(pool) for _ in range(rng.randint(1, 3))]
        h.append({"reset": 1, "g": [0]})
    h.pop()
    return scn


def gen(rng, seed):
    if rng.random() < 0.4:
        return gen_storm(rng)
    k = rng.choice([1, 1, 2])
    graphs = W.gen_specs(rng, k)
    scn = {"keys": W.gen_keys(rng), "graphs": graphs, "hist": []}
    names = rng.sample(W.NAMES, rng.randint(2, 8)) if rng.random() < 0.6 else None
    routes = ("ga",) if rng.random() < 0.7 else ("ga", "nxga", "nxback")
    pp = rng.choice([0.2, 0.5, 0.8])

    def one():
        if rng.random() < pp:
            return W.gen_prop_read(rng, graphs)
        return W.gen_op(rng, graphs, names=names, routes=routes)

    h = scn["hist"]
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        h.append(one())
    for _ in range(rng.randint(1, 3)):
        inst = one()
        its = [] if inst.get("f") in NO_ITER else [q for q in inst.get("p", {}) if q in ITER_PARAMS and "ns" in str(inst["p"][q])]
        if its and rng.random() < 0.3:
            q = rng.choice(its)
            h.append({**inst, "fault": {"at": "iter", "exc": "client", "param": q, "k": rng.randint(0, len(inst["p"][q]["ns"]))}})
        for _ in range(rng.choice([1, 1, 2, 4])):  # the same call is cut short again and again
            h.append({**inst, "fault": F.draw(rng)})
        if rng.random() < 0.4:
            h.append(inst)
        for _ in range(rng.randint(1, 3)):
            h.append(one())
    return scn


def run_step(w, inst, excs=F.EXCS):
    """World.run, with injected exceptions among the outcomes and client iterators that fail."""
    fault = inst.get("fault")
    if "f" in inst:
        op = OPS[inst["f"]]
        route = inst.get("r", "ga")
        Gs = [w.nxg(i) if route == "nxback" else w.gag(i) for i in inst["g"]]
        kw = calls.decode_params(inst["p"], w.keys)
        if fault and fault["at"] == "iter":
            q = fault["param"]
            kw[q] = bad_iter([w.keys[i] for i in inst["p"][q]["ns"]], fault["k"])
        fn = calls.ga_func(op) if route == "ga" else calls.nx_func(op)
        if route == "nxback":
            kw["backend"] = "graphblas"
        return calls.outcome(op, fn, Gs, kw, w.keys, inst["p"], excs)
    try:
        return w.read(inst)
    except excs as e:
        return C.canon(C.Exc(e), w.keys)


def _fresh(scn):
    w = W.World(scn)
    out = []
    memo = {}
    for inst in scn["hist"]:
        x = {k: v for k, v in inst.items() if k != "fault"}
        q = harness.digest_of(x)
        if q not in memo:
            with seams.Budget(W.LINE_BUDGET):
                memo[q] = None if "reset" in x else run_step(w.fresh(), x)
        out.append(memo[q])
    return out


def _count(w, inst):
    x = {k: v for k, v in inst.items() if k != "fault"}
    with F.Tracer() as c:
        run_step(w, x)
    return c.lines, c.calls


def execute(scn, record=None):
    hist = scn["hist"]
    st = {"ops": len(hist), "checks": 0, "opnames": {}, "probes": {}, "states": [], "faults": {}}
    try:
        oracle = harness.sub(_fresh, scn)
    except Crash as e:
        return {"v": {"cls": "fresh-crash", "msg": str(e)}, "digest": "crash", "st": st}
    w = W.World(scn)
    for i in range(len(w.specs)):
        w.gag(i)
        w.nxg(i)
    got, v = [], None
    fired = 0
    since, counts = [], {}
    for i, inst in enumerate(hist):
        if "reset" in inst:
            w.ga, w.nx = {}, {}
            for j in range(len(w.specs)):
                w.gag(j)
                w.nxg(j)
            got.append(None)
            since = []
            continue
        name = inst.get("f") or inst.get("prop") or "+".join(inst["props"])
        label = inst.get("f") or "prop"
        st["opnames"][label] = st["opnames"].get(label, 0) + 1
        fault = inst.get("fault")
        hit = False
        with seams.Budget(W.LINE_BUDGET):
            if fault and fault["at"] != "iter":
                try:
                    q = harness.digest_of([since, {**inst, "fault": 0}])
                    if "k" not in fault and q not in counts:
                        counts[q] = harness.sub(_count, w, inst)
                    lines, ncalls = counts.get(q, ((), ()))
                except Crash as e:
                    v = {"cls": "crash", "msg": f"step {i} {name}: {e}"}
                    break
                k = F.resolve(fault, lines, ncalls)
                if record is not None:
                    record[i] = k
                with F.Armed(fault, k) as armed:
                    a = run_step(w, inst)
                hit = armed.fired
            else:
                a = run_step(w, inst)
                hit = bool(fault)
        got.append(a)
        since.append(inst)
        if hit:
            fired += 1
            kind = f"{fault['exc']}@{fault['at']}"
            st["faults"][kind] = st["faults"].get(kind, 0) + 1
            st["states"].append(harness.digest_of([name, kind, a[0], scn["graphs"][inst["g"][0]]["directed"]]))
        st["checks"] += 1
        if hit and a[0] == "exc" and a[1][0] == F.EXC[fault["exc"]].__name__:
            st["probes"]["failure_reached_caller"] = st["probes"].get("failure_reached_caller", 0) + 1
            continue
        if hit:
            st["probes"]["survived_fault"] = st["probes"].get("survived_fault", 0) + 1
            if fault["at"] == "iter" and a[0] != "exc":
                continue  # the call had no need to draw that item
        d = w.same(inst, a, oracle[i])
        if d:
            cls = "fault-hidden" if hit else "trace-left"
            v = {"cls": cls, "msg": f"step {i} {name}{' with fault ' + str(fault) if hit else ''}: {d}"}
            break
    if v is None:
        for i in range(len(w.specs)):
            d = C.diff(w.content(i), w.content_want(i), order=True)
            d = d or C.diff(C.canon(w.nxg(i), w.keys), w.content_want(i), order=True)
            if d:
                v = {"cls": "graph-changed", "msg": f"graph {i}: {d}"}
    st["nontrivial"] = fired > 0
    st["sample"] = [[x.get("f") or x.get("prop") or x.get("props") or "reset", x.get("fault")] for x in hist]
    st["lines"], st["calls"] = seams.S.lines, seams.S.calls
    return {"v": v, "digest": harness.digest_of([hist, got, v]), "st": st}


def explicit(scn):
    rec = {}
    seams.reset()
    execute(scn, rec)
    h = []
    for i, inst in enumerate(scn["hist"]):
        if i in rec:
            f = {k: v for k, v in inst["fault"].items() if k != "u"}
            inst = {**inst, "fault": {**f, "k": rec[i]}}
        h.append(inst)
    return {**scn, "hist": h}


def shrink(scn):
    yield from W.shrink_steps(scn)
    for i, inst in enumerate(scn["hist"]):
        if "fault" in inst:
            yield {**scn, "hist": scn["hist"][:i] + [{k: v for k, v in inst.items() if k != "fault"}] + scn["hist"][i + 1 :]}
    yield from W.shrink_params(scn)
    for cand in W.shrink_graphs(scn):
        yield cand
        # a smaller graph moves the fault point
        for i, inst in enumerate(cand["hist"]):
            if "fault" in inst and inst["fault"].get("k", 0) > 1:
                for k in {inst["fault"]["k"] - 1, inst["fault"]["k"] - 2, inst["fault"]["k"] // 2} - {0, -1}:
                    yield {**cand, "hist": cand["hist"][:i] + [{**inst, "fault": {**inst["fault"], "k": k}}] + cand["hist"][i + 1 :]}
    for i, inst in enumerate(scn["hist"]):
        f = inst.get("fault")
        if f and f["at"] == "ret" and f["exc"] != "intr":
            yield {**scn, "hist": scn["hist"][:i] + [{**inst, "fault": {**f, "exc": "intr"}}] + scn["hist"][i + 1 :]}
