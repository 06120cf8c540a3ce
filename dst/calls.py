"""Calling operations of the catalogue on the code under test and on the NetworkX reference."""
from . import canon as C, seams
from .ops import OPS, decode

ROUTES = ("ga", "nxga", "nxback")


def nx_func(op):
    import networkx as nx

    if "method" in op.tags:
        name = op.name.split(".")[1]
        return lambda G, **kw: G.copy() if name == "to_networkx" else getattr(G, name)(**kw)
    path = op.refname or op.name
    obj = nx
    for part in path.split("."):
        obj = getattr(obj, part)
    return obj


def ga_func(op):
    if "method" in op.tags:
        name = op.name.split(".")[1]
        return lambda G, **kw: getattr(G, name)(**kw)
    from graphblas_algorithms.interface import Dispatcher

    return getattr(Dispatcher, op.name.split("+")[0])


def decode_params(p, keys):
    return {k: decode(v, keys) for k, v in p.items()}


KEEP_ORDER = [False]  # the order of nodes within a layer is part of the answer


def _drop(m, pred):
    return ["map", {k: v for k, v in m[1].items() if not pred(v)}]


def finish(op, res, keys, p=None):
    """Consume and canonicalise a raw result.

    The backend is sparse where NetworkX is dense: infinite distances, empty counters and (for
    reciprocity) None are left out.  Both sides are brought to the sparse form.
    """
    p = p or {}
    if op.canon == "edgeset":
        out = []
        for u, v in res:
            a, b = C.key(u, keys), C.key(v, keys)
            out.append(f"{a}>{b}")
        return ["set", sorted(out)]
    if op.canon == "edgedata":
        out = {}
        for u, v, d in res:
            e = ",".join(sorted((C.key(u, keys), C.key(v, keys))))
            x = ["map", {a: C.canon(b, keys) for a, b in d.items()}] if isinstance(d, dict) else C.canon(d, keys)
            out.setdefault(e, []).append(x)
        return ["map", {e: ["list", sorted(xs, key=str)] for e, xs in out.items()}]
    if op.canon == "set":
        return ["set", sorted(C.key(k, keys) for k in res)]
    if op.canon == "map" and not hasattr(res, "items"):
        res = dict(res)
    if op.canon == "layers" and KEEP_ORDER[0]:
        return ["list", [["list", [["str", C.key(k, keys)] for k in layer]] for layer in res]]
    if op.canon == "layers":
        return ["list", [["set", sorted(C.key(k, keys) for k in layer)] for layer in res]]
    if op.canon == "nums":
        return ["list", [["num", int(x)] for x in res]]
    if op.canon == "dense":
        if hasattr(res, "to_dense"):
            res = res.to_dense(fill_value=float("inf"), dtype=float)
        return C.canon(res, keys)
    if op.name in ("all_pairs_shortest_path_length", "all_pairs_bellman_ford_path_length"):
        out = {}
        for k, m in res:
            k = C.key(k, keys)
            if k in out:
                k += "!again"
            out[k] = C.canon(m, keys)
        return ["map", out]
    if op.name == "floyd_warshall":
        return ["map", {C.key(k, keys): _drop(C.canon(m, keys), lambda v: v[1] == float("inf")) for k, m in res.items()}]
    if op.name == "lowest_common_ancestor":
        return C.canon_elem(res, keys)
    if op.name == "floyd_warshall_predecessor_and_distance":
        pred, dist = res
        pred = {
            C.key(k, keys): ["map", {C.key(a, keys): C.canon_elem(b, keys) for a, b in m.items()}]
            for k, m in pred.items()
        }
        return [
            "tuple",
            [
                ["map", {k: m for k, m in pred.items() if m[1]}],
                ["map", {C.key(k, keys): _drop(C.canon(m, keys), lambda v: v[1] == float("inf")) for k, m in dist.items()}],
            ],
        ]
    if op.canon == "counters" and not ("nodes" in p and "n" in p["nodes"]):
        return ["map", {C.key(k, keys): m for k, m in ((k, C.canon(m, keys)) for k, m in res.items()) if m[1]}]
    if op.canon == "counters":
        return ["map", {f"#{C._num(k)}": C.canon(v, keys) for k, v in res.items()}]
    r = C.canon(res, keys)
    if r[0] == "map" and op.name == "reciprocity":
        return _drop(r, lambda v: v == ["none"])
    return r


def outcome(op, fn, args, kwargs, keys, p=None, excs=(Exception, seams.BudgetExceeded)):
    try:
        return finish(op, fn(*args, **kwargs), keys, p)
    except excs as e:
        return C.canon(C.Exc(e), keys)


def call_ga(op, Gs, p, keys, route="ga"):
    kw = decode_params(p, keys)
    if route == "ga":
        return outcome(op, ga_func(op), Gs, kw, keys, p)
    if route == "nxga":
        return outcome(op, nx_func(op), Gs, kw, keys, p)
    if route == "nxback":
        return outcome(op, nx_func(op), Gs, {**kw, "backend": "graphblas"}, keys, p)
    raise ValueError(route)


def ref_kwargs(op, p, keys, route):
    kw = {k: v for k, v in decode_params(p, keys).items() if k not in op.extra}
    if op.w == "data" and route != "nxback":
        if op.name in ("eigenvector_centrality", "katz_centrality"):
            kw["weight"] = "weight"
    return kw


def call_nx(op, nxGs, p, keys, route="ga"):
    kw = ref_kwargs(op, p, keys, route)
    return outcome(op, nx_func(op), nxGs, kw, keys, p)
