"""C01: answers do not depend on what was asked before."""
from . import canon as C, harness, seams, world as W
from .harness import Crash

ID = "C01"
RUNS = {"quick": 6000, "thorough": 100000}
RULE = (
    "One case: 1-3 small graphs of one process and a seeded history of 4-14 operations and property reads on "
    "them and on graphs that operations returned, failing calls included; every answer is compared with the answer of a "
    "fresh equal graph in an isolated process and, in the stated domain, with NetworkX. Non-trivial: at least 3 answers "
    "checked that are not exceptions; distinct by the hash of history and answers."
)
STATES = "hash of (question, previous two questions) triples"
ASSUMPTIONS = ["graphs of at most 9 nodes, 16 in one run of 16", "interpreter is CPython 3.12 with sys.monitoring"]


def gen_storm(rng):
    """Many short histories on freshly built copies of one graph, over one small pool of questions."""
    kw = {"wkinds": ("negint", "negfloat", "negiso")} if rng.random() < 0.3 else {}
    spec = W.gen_specs(rng, 1, nmin=2, nmax=rng.choice([3, 4, 6]), loops=rng.choice([0.0, 0.2, 0.4, 0.7]), **kw)[0]
    specs = [spec]
    scn = {"keys": W.gen_keys(rng), "graphs": specs, "hist": []}
    pool = []
    kind = rng.choice(["props", "props", "mixed", "mixed", "calls", "family", "family", "family"])
    if kind == "family":
        asks, reads = W.gen_family(rng, specs)
        for _ in range(rng.randint(4, 12)):
            for _ in range(rng.randint(1, 4)):
                scn["hist"].append(rng.choice(reads if reads and rng.random() < 0.6 or not asks else asks))
            if asks:
                scn["hist"].append(rng.choice(asks))
            scn["hist"].append({"reset": 1, "g": []})
        scn["hist"].pop()
        return scn
    if kind != "calls":
        # property names that share a base (degrees, element, U/L ...) are derived from each other
        names = W.PROPS_BOTH + (W.PROPS_D if spec["directed"] else [])
        names = rng.sample(names, rng.randint(4, 12))
        for x in list(names):
            if x[-1] in "+-" and x[:-1] + ("-" if x[-1] == "+" else "+") in W.PROPS_BOTH + W.PROPS_D and rng.random() < 0.6:
                names.append(x[:-1] + ("-" if x[-1] == "+" else "+"))
        for _ in range(rng.randint(4, 14)):
            pool.append(W.gen_prop_read(rng, specs, 0, names))
    if kind != "props":
        for _ in range(rng.choice([1, 2, 3, 5])):
            x = W.gen_op(rng, specs, slot=0, names=rng.choice([None, W.CACHED, W.CACHED]))
            pool.append(x)
            for _ in range(rng.randint(0, 3)):
                # the same function with other arguments
                pool.append(W.gen_op(rng, specs, slot=0, names=[x["f"]]))
    if kind == "mixed" and rng.random() < 0.5:
        rng.shuffle(pool)
        pool = pool[:6]
    for _ in range(rng.randint(4, 12)):
        for _ in range(rng.randint(2, 6)):
            scn["hist"].append(rng.choice(pool))
        scn["hist"].append({"reset": 1, "g": []})
    scn["hist"].pop()
    return scn


def gen(rng, seed):
    if rng.random() < 0.45:
        return gen_storm(rng)
    k = rng.choice([1, 1, 2, 2, 3])
    big = rng.random() < 0.06
    graphs = W.gen_specs(rng, k, **({"nmax": 16, "nmin": 10} if big else {}))
    scn = {"keys": W.gen_keys(rng), "graphs": graphs, "hist": []}
    n = rng.randint(4, 14)
    # swarm: a run concentrates on a random subset of the catalogue
    names = None
    if rng.random() < 0.5:
        names = rng.sample(W.NAMES, rng.randint(4, 14))
    pp = rng.choice([0.0, 0.3, 0.5, 0.8])
    pk = rng.choice([0.0, 0.0, 0.1, 0.25])
    specs = list(graphs)
    while len(scn["hist"]) < n:
        r = rng.random()
        h = scn["hist"]
        if h and rng.random() < 0.15:
            x = rng.choice(h)
            if x.get("keep"):
                continue
            h.append(x)  # ask again
        elif r < pk:
            x = W.gen_op(rng, specs, names=W.NEWGRAPH)
            h.append({**x, "keep": True})
            s = specs[x["g"][0]]
            specs.append({**s, "directed": s["directed"] and x["f"] != "Graph.to_undirected"})
        elif big and rng.random() < 0.2:
            h.append(W.gen_op(rng, specs, names=["ego_graph", "k_truss"], slot=W.late_slot(rng, specs, graphs)))
        elif rng.random() < pp:
            h.append(W.gen_prop_read(rng, specs, W.late_slot(rng, specs, graphs)))
        else:
            h.append(W.gen_op(rng, specs, names=names, slot=W.late_slot(rng, specs, graphs)))
    return scn


def _history(scn):
    w = W.World(scn)
    got = []
    for inst in scn["hist"]:
        if "reset" in inst:
            # the same graphs, built again
            w.specs, w.ga, w.nx = list(scn["graphs"]), {}, {}
            got.append(["skipped"])
            continue
        if not w.usable(inst):
            got.append(["skipped"])
            if inst.get("keep"):
                w.specs.append(None)
            continue
        with seams.Budget(W.LINE_BUDGET):
            got.append(w.run(inst))
    content = [w.content(i) if s is not None else None for i, s in enumerate(w.specs)]
    return got, w.specs, content, seams.S.lines, seams.S.calls


def _fresh(scn, specs, order):
    w = W.World({**scn, "graphs": specs})
    out = {}
    memo = {}
    for i in order:
        inst = {k: v for k, v in scn["hist"][i].items() if k != "keep"}
        if "reset" not in inst and w.usable(inst):
            q = harness.digest_of(inst)
            if q not in memo:
                with seams.Budget(W.LINE_BUDGET):
                    memo[q] = w.fresh().run(inst)
            out[i] = memo[q]
    return out


def execute(scn):
    hist = scn["hist"]
    st = {"ops": len(hist), "checks": 0, "opnames": {}, "probes": {}, "states": []}
    n = len(hist)
    v = None
    if not n:
        return {"v": None, "digest": "empty", "st": st}
    try:
        got, specs, content, st["lines"], st["calls"] = harness.sub(_history, scn)
    except Crash as e:
        return {"v": {"cls": "crash", "msg": str(e)}, "digest": "crash", "st": st}
    # oracle: every question on a fresh equal graph, in another process and in reverse order; the
    # last question alone in a process of its own
    try:
        oracle = harness.sub(_fresh, scn, specs, list(range(n - 2, -1, -1)))
        oracle.update(harness.sub(_fresh, scn, specs, [n - 1]))
    except Crash as e:
        return {"v": {"cls": "fresh-crash", "msg": str(e)}, "digest": "crash", "st": st}
    w = W.World({**scn, "graphs": specs})
    prev = ["-", "-"]
    judged = set()
    for i, inst in enumerate(hist):
        a = got[i]
        if a[0] == "skipped":
            continue
        label = inst.get("f") or "prop"
        st["opnames"][label] = st["opnames"].get(label, 0) + 1
        what = inst.get("f") or inst.get("prop") or "+".join(inst["props"])
        st["states"].append(harness.digest_of([what, prev]))
        prev = [prev[1], what]
        st["checks"] += 1
        if any("derived" in specs[j] for j in inst["g"]):
            st["probes"]["on_returned_graph"] = st["probes"].get("on_returned_graph", 0) + 1
        q = harness.digest_of([inst, a])
        if q in judged and inst.get("f") not in W.SEMANTIC:
            continue
        judged.add(q)
        d = w.same(inst, a, oracle[i])
        if d:
            v = {"cls": "history-changes-answer", "msg": f"step {i} {what}: after the history vs fresh: {d}"}
            break
        want = w.want(inst)
        if want is not None:
            st["checks"] += 1
            st["probes"]["in_domain"] = st["probes"].get("in_domain", 0) + 1
            d = w.judge_ref(inst, a, want)
            if d:
                v = {"cls": "wrong-answer", "msg": f"step {i} {what}: {d}"}
                break
        if a[0] == "exc":
            st["probes"]["failed_calls"] = st["probes"].get("failed_calls", 0) + 1
    if v is None:
        for i, s in enumerate(specs):
            if s is None:
                continue
            d = C.diff(content[i], w.content_want(i), order=True)
            if d:
                v = {"cls": "graph-changed", "msg": f"graph {i}: {d}"}
    good = sum(1 for a in got if a[0] not in ("exc", "skipped"))
    st["nontrivial"] = good >= 3
    st["sample"] = [x.get("f") or x.get("prop") or x.get("props") for x in hist]
    return {"v": v, "digest": harness.digest_of([hist, got, v]), "st": st}


def shrink(scn):
    yield from W.shrink_steps(scn)
    yield from W.shrink_params(scn)
    yield from W.shrink_graphs(scn)
