"""C04: arguments stay as they are, results stay what they were."""
import collections.abc as abc
import types

from . import calls, canon as C, harness, seams, world as W
from .harness import Crash
from .ops import MISSING, OPS

ID = "C04"
RUNS = {"quick": 5000, "thorough": 80000}
RULE = (
    "One case: a history of 5-14 steps on 1-2 graphs: calls whose results are kept, property reads, and client writes "
    "to kept results (set, delete, clear, pop, update, set algebra, also on nested results); earlier results are passed "
    "back as arguments. After every step all kept results, all arguments and the graphs are compared with what they "
    "were, and answers with those of fresh graphs. Non-trivial: at least one write that changed its target was followed "
    "by a checked answer; distinct by the hash of history and answers."
)
STATES = "hash of (operation written to, kind of write, operation asked next)"
ASSUMPTIONS = ["results that are bare engine matrices are checked for stability but not written to by the client"]

SETP = ("nbunch", "nbunch1", "nbunch2", "nodes", "S", "T")
DICTP = ("nstart", "personalization", "dangling")
WRITES = ("set", "set", "del", "del", "clear", "popitem", "pop", "update", "setdefault", "add", "discard", "remove",
          "ior", "iand", "isub", "ixor", "newkey")

# operations whose results are containers of their own
HANDED = [n for n in (
    "all_pairs_bellman_ford_path_length", "all_pairs_shortest_path_length", "ancestors", "bellman_ford_path", "bfs_layers",
    "clustering", "degree_centrality", "descendants", "descendants_at_distance", "eigenvector_centrality", "floyd_warshall",
    "floyd_warshall_predecessor_and_distance", "generalized_degree", "hits", "in_degree_centrality", "isolates",
    "katz_centrality", "node_boundary", "node_connected_component", "out_degree_centrality", "pagerank", "reciprocity",
    "score_sequence", "single_source_bellman_ford_path_length", "single_source_shortest_path_length",
    "single_target_shortest_path_length", "square_clustering", "triangles", "edge_boundary") if n in OPS]


def gen(rng, seed):
    k = rng.choice([1, 1, 2])
    graphs = W.gen_specs(rng, k)
    if rng.random() < 0.75:
        names = rng.sample(W.NAMES, rng.randint(1, 6)) + rng.sample(HANDED, rng.randint(2, 6))
    else:
        names = None
    h = []
    ncalls = 0
    for _ in range(rng.randint(5, 14)):
        r = rng.random()
        if ncalls and r < 0.35:
            h.append({"mut": rng.randrange(ncalls) if rng.random() < 0.5 else ncalls - 1, "how": rng.choice(WRITES),
                      "c": rng.randrange(12), "x": rng.randrange(9), "y": rng.randrange(9), "g": [0],
                      **({"via": rng.randrange(4)} if rng.random() < 0.15 else {})})
        elif r < 0.5:
            h.append(W.gen_prop_read(rng, graphs))
        elif ncalls and r < 0.6:
            prev = [x for x in h if "f" in x and "arg" not in x]
            if prev:
                h.append({**rng.choice(prev)})  # the same question again
                ncalls += 1
        else:
            x = W.gen_op(rng, graphs, names=names)
            if ncalls and rng.random() < 0.3:
                q = [p for p in x["p"] if p in SETP + DICTP]
                if q and x["f"] != "is_simple_path":
                    x = {**x, "arg": [rng.choice(q), rng.randrange(ncalls)]}
            if rng.random() < 0.2:
                foreign(rng, x["p"])
            h.append(x)
            ncalls += 1
    return {"keys": W.gen_keys(rng), "graphs": graphs, "hist": h}


def foreign(rng, p):
    """Give a collection of nodes one that is not in the graph."""
    for k in p:
        v = p[k]
        if isinstance(v, dict) and "ns" in v and rng.random() < 0.7:
            p[k] = {**v, "ns": [*v["ns"], MISSING], "as": rng.choice([v.get("as", "list"), "set"])}
        elif isinstance(v, dict) and "blocks" in v and v["blocks"]:
            p[k] = {"blocks": [[*v["blocks"][0], MISSING], *v["blocks"][1:]]}


def derived(c, how):
    """A container of the client's own, made from a result: writes to it must not reach the result."""
    if isinstance(c, abc.MutableSet):
        return (lambda: c.copy(), lambda: c | set(), lambda: c & set(c), lambda: c - set())[how % 4]()
    if isinstance(c, list):
        return c.copy()
    return None


def containers(raw, depth=0):
    """Everything in a result that a client can write to."""
    out = []
    if isinstance(raw, (abc.MutableMapping, abc.MutableSet, list)):
        out.append(raw)
    if depth < 2:
        if isinstance(raw, (list, tuple)):
            for x in raw:
                out += containers(x, depth + 1)
        elif isinstance(raw, abc.Mapping):
            for x in raw.values():
                out += containers(x, depth + 1)
    return out


def write(c, step, keys):
    how, x, y = step["how"], step["x"], step["y"]
    node, other = keys[x], keys[y]
    if isinstance(c, list):
        if how in ("clear", "del", "pop", "remove"):
            c.clear() if how == "clear" or not c else c.pop()
        elif how in ("set", "update") and c:
            c[x % len(c)] = c[y % len(c)]
        else:
            c.append(c[0] if c else 0)
        return
    if isinstance(c, abc.MutableSet):
        some = {node, other}
        if how in ("set", "add", "newkey", "setdefault", "update"):
            c.add(node)
        elif how in ("del", "remove"):
            c.remove(node)
        elif how == "discard":
            c.discard(node)
        elif how == "clear":
            c.clear()
        elif how in ("pop", "popitem"):
            c.pop()
        elif how == "ior":
            c |= some
        elif how == "iand":
            c &= some
        elif how == "isub":
            c -= some
        else:
            c ^= some
        return
    ks = list(c)
    key = ks[x % len(ks)] if ks else node
    val = c[key] if ks else 1
    num = isinstance(val, (int, float)) or hasattr(val, "dtype")
    new = (val + 1 if not isinstance(val, bool) else not val) if num else c[ks[y % len(ks)]]
    if how in ("del", "remove", "discard"):
        del c[key]
    elif how == "clear":
        c.clear()
    elif how in ("popitem", "isub"):
        c.popitem()
    elif how in ("pop", "iand"):
        c.pop(key)
    elif how in ("update", "ior"):
        c.update({k: new for k in ks[:2]})
    elif how == "setdefault":
        c.setdefault(other, new)
    elif how in ("newkey", "add"):
        c[other] = new
    else:
        c[key] = new


def snap(op, raw, keys, p):
    try:
        return calls.finish(op, raw, keys, p)
    except Exception as e:
        return ["exc", [type(e).__name__, str(e)[:80]], None]


def moved(new, old):
    """How a snapshot differs (None: it does not)."""
    if new[0] == old[0] == "exc":
        return None if new[1] == old[1] else f"{new[1]} vs {old[1]}"
    return C.diff(new, old, 0.0, 0.0, order=True)


def _plain_arg(raw, want_dict, keys):
    """The content of a result as an encoded argument, or None when it cannot be one."""
    if isinstance(raw, (str, bytes)) or not isinstance(raw, (abc.Set, abc.Mapping)):
        return None
    ids = [keys.unkey(k) for k in raw]
    if any(i is None for i in ids):
        return None
    if want_dict:
        if not isinstance(raw, abc.Mapping) or not ids:
            return None
        vals = list(raw.values())
        if not all(isinstance(v, (int, float)) for v in (C._num(v) if hasattr(v, "dtype") else v for v in vals)):
            return None
        return {"nd": [[i, C._num(v)] for i, v in zip(ids, vals)]}
    return {"ns": ids, "as": "list"}


def _history(scn):
    w = W.World(scn)
    for i in range(len(w.specs)):
        w.gag(i)
    kept = []  # (op, inst, raw, snapshot)
    log = []
    v = None
    changed = writes = 0
    for si, step in enumerate(scn["hist"]):
        if "mut" in step:
            if step["mut"] < len(kept) and kept[step["mut"]] is not None:
                op, inst, raw, old = kept[step["mut"]]
                with seams.Budget(W.LINE_BUDGET):
                    try:
                        cs = containers(raw)
                        if cs:
                            writes += 1
                            c = cs[step["c"] % len(cs)]
                            if "via" in step:
                                c = derived(c, step["via"])
                            if c is not None:
                                write(c, step, w.keys)
                    except Exception:
                        pass
                    new = snap(op, raw, w.keys, inst["p"])
                    d = moved(new, old)
                    if "via" in step and d:
                        v = v or {"cls": "result-changed", "msg": f"step {si}: writing to a copy changed the result of {inst['f']}: {d}"}
                if moved(new, old):
                    changed += 1
                kept[step["mut"]] = (op, inst, raw, new)
            log.append(["write"])
        elif "f" in step:
            op = OPS[step["f"]]
            inst = step
            kw = calls.decode_params(step["p"], w.keys)
            if "arg" in step:
                q, j = step["arg"]
                if j < len(kept) and kept[j] is not None:
                    enc = _plain_arg(kept[j][2], q in DICTP, w.keys)
                    if enc is not None:
                        kw[q] = kept[j][2]
                        inst = {**step, "p": {**step["p"], q: enc}}
            before = {k: copy_of(x) for k, x in kw.items()}
            with seams.Budget(W.LINE_BUDGET):
                try:
                    raw = calls.ga_func(op)(*[w.gag(i) for i in step["g"]], **kw)
                    if isinstance(raw, (types.GeneratorType, zip)) or hasattr(raw, "__next__"):
                        raw = list(raw)
                    a = calls.finish(op, raw, w.keys, inst["p"])
                    kept.append((op, inst, raw, a))
                except (Exception, seams.BudgetExceeded) as e:
                    a = C.canon(C.Exc(e), w.keys)
                    kept.append(None)
            for k, x in kw.items():
                if before[k] is not NotImplemented and copy_of(x) != before[k]:
                    v = v or {"cls": "argument-changed", "msg": f"step {si} {step['f']}: argument {k}: {before[k]!r} became {copy_of(x)!r}"[:300]}
            log.append([inst, a])
        else:
            with seams.Budget(W.LINE_BUDGET):
                log.append([step, w.run(step)])
        target = step.get("mut")
        for j, k in enumerate(kept):
            if v is None and k is not None and j != target:
                new = snap(k[0], k[2], w.keys, k[1]["p"])
                d = moved(new, k[3])
                if d:
                    v = {"cls": "result-changed", "msg": f"step {si} ({label(step)}): result of {k[1]['f']} changed: {d}"}
        for i in range(len(w.specs)):
            d = C.diff(w.content(i), w.content_want(i), order=True)
            if d and v is None:
                v = {"cls": "graph-changed", "msg": f"step {si} ({label(step)}): graph {i}: {d}"}
        if v:
            break
    return log, v, writes, changed, seams.S.lines, seams.S.calls


def label(step):
    return step.get("f") or (f"write {step['how']}" if "mut" in step else step.get("prop") or "+".join(step["props"]))


def copy_of(x):
    if isinstance(x, (str, int, float, type(None))):
        return x
    if isinstance(x, (list, tuple)):
        # blocks of a partition are sets of their own
        return [set(y) if isinstance(y, set) else y for y in x]
    if isinstance(x, abc.Mapping):
        return {k: (v if not hasattr(v, "value") else v.value) for k, v in x.items()}
    if isinstance(x, abc.Set):
        return set(x)
    return NotImplemented


def _fresh(scn, insts):
    w = W.World(scn)
    out = []
    for inst in insts:
        with seams.Budget(W.LINE_BUDGET):
            out.append(w.fresh().run({k: v for k, v in inst.items() if k != "arg"}))
    return out


def execute(scn):
    st = {"ops": len(scn["hist"]), "checks": 0, "opnames": {}, "probes": {}, "states": []}
    try:
        log, v, writes, changed, st["lines"], st["calls"] = harness.sub(_history, scn)
        asked = [(i, x) for i, x in enumerate(log) if len(x) == 2]
        oracle = harness.sub(_fresh, scn, [x[0] for _, x in asked])
    except Crash as e:
        return {"v": {"cls": "crash", "msg": str(e)}, "digest": "crash", "st": st}
    w = W.World(scn)
    after = 0
    last = None
    muts = {}
    for i, step in enumerate(scn["hist"]):
        if "mut" in step:
            st["opnames"]["write:" + step["how"]] = st["opnames"].get("write:" + step["how"], 0) + 1
            last = step
    for (i, (inst, a)), b in zip(asked, oracle):
        name = label(inst)
        key = inst.get("f") or "prop"
        st["opnames"][key] = st["opnames"].get(key, 0) + 1
        st["checks"] += 1 + i
        if any("mut" in s for s in scn["hist"][:i]):
            after += 1
            m = [s for s in scn["hist"][:i] if "mut" in s][-1]
            st["states"].append(harness.digest_of([m["how"], m["c"], name]))
        d = w.same(inst, a, b)
        if d and v is None:
            v = {"cls": "answer-changed", "msg": f"step {i} {name}: {d}"}
    del last, muts
    st["probes"] = {"writes": writes, "writes_that_changed": changed, "results_as_arguments": sum("arg" in s for s in scn["hist"])}
    st["nontrivial"] = changed > 0 and after > 0
    st["sample"] = [label(s) for s in scn["hist"]]
    return {"v": v, "digest": harness.digest_of([scn["hist"], log, v]), "st": st}


def shrink(scn):
    h = scn["hist"]
    n = len(h)
    k = max(1, n // 2)
    while k >= 1:
        for i in range(0, n, k):
            cut = h[i : i + k]
            rest = h[:i] + h[i + k :]
            # indexes of kept results shift
            nf = sum("f" in x for x in cut)
            at = sum("f" in x for x in h[:i])

            def fix(x):
                if "mut" in x and x["mut"] >= at:
                    return None if x["mut"] < at + nf else {**x, "mut": x["mut"] - nf}
                if "arg" in x and x["arg"][1] >= at:
                    return {q: y for q, y in x.items() if q != "arg"} if x["arg"][1] < at + nf else {**x, "arg": [x["arg"][0], x["arg"][1] - nf]}
                return x

            yield {**scn, "hist": [y for y in map(fix, rest) if y is not None]}
        k //= 2
    yield from W.shrink_params(scn)
    yield from W.shrink_graphs(scn)
