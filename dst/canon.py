"""Canonical, JSON-able form of results, and their comparison.

`canon(x, keys)` maps results of the code under test *and* of the reference to the same plain
form: node keys become "@<index>", numpy/GraphBLAS scalars become Python numbers.
"""
import math

import numpy as np


class Exc:
    """A call that ended with an exception"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


def _num(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    x = float(x)
    return x


def node(k, keys):
    i = keys.unkey(k)
    if i is None or isinstance(k, (bool, np.bool_)):
        return None
    return f"@{i}"


def key(k, keys):
    s = node(k, keys)
    if s is not None:
        return s
    if isinstance(k, (int, float, np.integer, np.floating, bool, np.bool_)):
        return f"#{_num(k)}"
    if isinstance(k, tuple):
        return "(" + ",".join(key(x, keys) for x in k) + ")"
    return f"?{k!r}"


def edges_of_ga(G, keys):
    from graphblas.core.matrix import TransposedMatrix

    A = G.matrix
    if isinstance(A, TransposedMatrix):
        A = A.new()
    ks = list(G)
    names = [key(k, keys) for k in ks]
    ids = [int(i) for i in G.list_to_ids(ks)] if ks else []
    byid = dict(zip(ids, names))
    if sorted(ids) != list(range(A.nrows)):
        return names, {f"!ids {ids} for {A.nrows} rows": 1}
    r, c, v = A.to_coo()
    return names, {f"{byid[i]}>{byid[j]}": _num(x) for i, j, x in zip(r.tolist(), c.tolist(), v.tolist())}


def canon(x, keys):
    import graphblas as gb
    import networkx as nx

    import graphblas_algorithms as ga

    t = type(x)
    if isinstance(x, Exc):
        return ["exc", [c.__name__ for c in type(x.e).__mro__[:-2]], None]
    if x is None:
        return ["none"]
    if t in (bool, int, float) or isinstance(x, (np.generic,)):
        return ["num", _num(x)]
    if isinstance(x, str):
        n = node(x, keys)
        return ["node", n] if n is not None else ["str", x]
    if isinstance(x, gb.Scalar):
        return ["num", None if x.is_empty else _num(x.value)]
    if isinstance(x, ga.Graph):
        names, edges = edges_of_ga(x, keys)
        return ["graph", bool(x.is_directed()), names, edges]
    if isinstance(x, nx.Graph):
        names = [key(k, keys) for k in x]
        edges = {}
        for u, v, d in x.edges(data=True):
            w = _num(d.get("weight", 1))
            a, b = key(u, keys), key(v, keys)
            edges[f"{a}>{b}"] = w
            if not x.is_directed():
                edges[f"{b}>{a}"] = w
        return ["graph", x.is_directed(), names, edges]
    if isinstance(x, gb.Matrix) or type(x).__name__ == "TransposedMatrix":
        return ["mat", [[_num(y) for y in row] for row in x.to_dense(fill_value=0).tolist()]]
    if isinstance(x, np.ndarray):
        return ["mat" if x.ndim == 2 else "vec", x.tolist()]
    if hasattr(x, "todense") and hasattr(x, "tocoo"):
        return ["mat", np.asarray(x.todense()).tolist()]
    if isinstance(x, (set, frozenset)) or (type(x).__name__ == "NodeSet"):
        return ["set", sorted(key(k, keys) for k in x)]
    if t.__name__ in ("Counter", "VectorMap"):
        return ["map", {f"#{_num(k)}": canon(v, keys) for k, v in x.items()}]
    if hasattr(x, "items") and hasattr(x, "keys"):
        return ["map", {key(k, keys): canon(v, keys) for k, v in x.items()}]
    if isinstance(x, list):
        return ["list", [canon_elem(v, keys) for v in x]]
    if isinstance(x, tuple):
        n = node(x, keys)
        if n is not None:
            return ["node", n]
        return ["tuple", [canon_elem(v, keys) for v in x]]
    if hasattr(x, "__next__") or hasattr(x, "__iter__"):
        return ["list", [canon_elem(v, keys) for v in x]]
    n = node(x, keys)
    if n is not None:
        return ["node", n]
    return ["repr", repr(x)]


def canon_elem(x, keys):
    """Element of a list/tuple: a node key wins over a number."""
    n = node(x, keys)
    if n is not None:
        return ["node", n]
    return canon(x, keys)


def close(a, b, rtol, atol):
    if a is None or b is None:
        return a is b
    if isinstance(a, float) or isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    return a == b


# exceptions that mean the same thing to a caller
EXC_EQUIV = [
    {"NodeNotFound", "NetworkXError", "KeyError", "NetworkXException"},
]


def exc_match(a, b):
    """a, b: lists of class names (mro). Same class, or one is a subclass of the other."""
    return a[0] in b or b[0] in a


def diff(a, b, rtol=1e-9, atol=1e-12, path="", *, order=False, exc_loose=False):
    """None when equal, else a short description of the first difference."""
    if a[0] != b[0]:
        # 0 and 0.0 and False are numbers alike; ints and nodes may coincide
        return f"{path}: {short(a)} vs {short(b)}"
    t = a[0]
    if t == "exc":
        if exc_loose or exc_match(a[1], b[1]):
            return None
        return f"{path}: raises {a[1][0]} vs {b[1][0]}"
    if t == "none":
        return None
    if t == "num":
        if close(a[1], b[1], rtol, atol):
            return None
        return f"{path}: {a[1]!r} vs {b[1]!r}"
    if t in ("node", "str", "repr"):
        return None if a[1] == b[1] else f"{path}: {a[1]} vs {b[1]}"
    if t == "set":
        return None if a[1] == b[1] else f"{path}: {a[1]} vs {b[1]}"
    if t == "map":
        if set(a[1]) != set(b[1]):
            only = sorted(set(a[1]) ^ set(b[1]))
            return f"{path}: keys differ {only[:6]}"
        if order and list(a[1]) != list(b[1]):
            return f"{path}: key order {list(a[1])} vs {list(b[1])}"
        for k in a[1]:
            d = diff(a[1][k], b[1][k], rtol, atol, f"{path}[{k}]", order=order)
            if d:
                return d
        return None
    if t in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return f"{path}: length {len(a[1])} vs {len(b[1])}: {short(a)} vs {short(b)}"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = diff(x, y, rtol, atol, f"{path}[{i}]", order=order)
            if d:
                return d
        return None
    if t == "graph":
        if a[1] != b[1]:
            return f"{path}: directedness {a[1]} vs {b[1]}"
        if (a[2] != b[2]) if order else (sorted(a[2]) != sorted(b[2])):
            return f"{path}: nodes {a[2]} vs {b[2]}"
        if set(a[3]) != set(b[3]):
            return f"{path}: edges differ {sorted(set(a[3]) ^ set(b[3]))[:8]}"
        for k in a[3]:
            if not close(a[3][k], b[3][k], rtol, atol):
                return f"{path}: weight of {k}: {a[3][k]!r} vs {b[3][k]!r}"
        return None
    if t in ("mat", "vec"):
        x, y = np.asarray(a[1], dtype=float), np.asarray(b[1], dtype=float)
        if x.size == 0 and y.size == 0:
            return None
        if x.shape != y.shape:
            return f"{path}: shape {x.shape} vs {y.shape}"
        with np.errstate(all="ignore"):
            eq = (x == y) | (np.isnan(x) & np.isnan(y))
            fin = np.isfinite(x) & np.isfinite(y)
            eq |= fin & (np.abs(x - y) <= atol + rtol * np.maximum(np.abs(x), np.abs(y)))
        if eq.all():
            return None
        i = tuple(int(q) for q in np.argwhere(~eq)[0])
        return f"{path}{list(i)}: {x[i]!r} vs {y[i]!r}"
    raise ValueError(t)


def short(a, n=160):
    if a[0] == "exc":
        return f"raises {a[1][0]}"
    s = str(a)
    return s if len(s) <= n else s[:n] + "..."
