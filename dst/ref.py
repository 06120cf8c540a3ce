"""Reference answers: NetworkX (its own pure-Python/numpy code), with a stated domain per operation.

`want(op, specs, p, keys, route)` -> canonical reference answer, or None when the call is outside
the compared domain (see DESIGN.md, "domain of agreement").
`agree(op, specs, p, keys, got, want, route)` -> None, or a description of the disagreement.
"""
import numpy as np

from . import calls, canon as C, spec as S
from .ops import MISSING, MIXED

INF = float("inf")

# n == 0 is outside the domain (NetworkX raises, or the concept is undefined)
NONEMPTY = {
    "is_regular", "tournament_matrix", "lowest_common_ancestor",
}
CUTS = {"edge_boundary", "edge_boundary+data", "cut_size", "conductance", "edge_expansion", "mixing_expansion", "normalized_cut_size"}
CUT_S_ONLY = {"boundary_expansion", "node_expansion"}
NO_LOOPS_U = {"degree_centrality", "volume", "mixing_expansion", "is_k_regular", "is_regular", "fast_could_be_isomorphic", "faster_could_be_isomorphic"}
NO_LOOPS = {
    "s_metric", "square_clustering", "bethe_hessian_matrix", "normalized_cut_size", "conductance",
    "k_truss", "floyd_warshall_predecessor_and_distance",
}
NONNEG = {
    "clustering", "average_clustering", "normalized_laplacian_matrix", "google_matrix", "pagerank", "hits",
    "eigenvector_centrality", "katz_centrality", "bethe_hessian_matrix", "modularity_matrix",
    "directed_modularity_matrix", "conductance", "normalized_cut_size", "mixing_expansion", "edge_expansion",
    "ego_graph", "mutual_weight", "volume",
}
NEEDS_EDGE = {
    "modularity_matrix", "directed_modularity_matrix",
    "hits", "mixing_expansion",
}
# NetworkX's dispatcher does not tell the backend that these read (or return) edge data
DROPS_WEIGHTS = {"ego_graph", "bethe_hessian_matrix", "hits", "reverse", "tournament_matrix"}
FW = {"floyd_warshall", "floyd_warshall_numpy", "floyd_warshall_predecessor_and_distance"}
BF = {"all_pairs_bellman_ford_path_length", "bellman_ford_path", "bellman_ford_path_length",
      "single_source_bellman_ford_path_length", "negative_edge_cycle"}


def loops(s):
    return any(u == v for u, v, _ in s["edges"])


def neg(s):
    return any(w < 0 for _, _, w in s["edges"])


def offdiag(s):
    return any(u != v for u, v, _ in s["edges"])


def nodes_of(v):
    if isinstance(v, dict):
        if "n" in v:
            return [v["n"]]
        if "ns" in v:
            return list(v["ns"])
        if "nd" in v:
            return [i for i, _ in v["nd"]]
        if "blocks" in v:
            return [i for b in v["blocks"] for i in b]
    return []


def weights_on(op, specs, p, route):
    """Does this call read edge weights?"""
    if not S.is_weighted(specs[0]):
        return False
    if op.w == "none":
        return False
    if op.w in ("flag", "cut"):
        if op.name in FW:
            return p.get("weight", "weight") is not None
        return p.get("weight") is not None
    if op.w == "data":
        if op.name in ("eigenvector_centrality", "katz_centrality") and route == "nxback":
            return p.get("weight") is not None
        if op.name == "ego_graph":
            return p.get("distance") is not None
        return True
    return p.get("weight", "weight") is not None


def neg_cycle(spec):
    """A negative cycle anywhere (undirected negative edge, negative self-edge included)."""
    n = spec["n"]
    es = []
    for u, v, w in spec["edges"]:
        if not S.is_weighted(spec):
            w = 1
        es.append((u, v, w))
        if not spec["directed"] and u != v:
            es.append((v, u, w))
    d = [0.0] * n
    for _ in range(n + 1):
        ch = False
        for u, v, w in es:
            if d[u] + w < d[v] - 1e-12:
                d[v] = d[u] + w
                ch = True
        if not ch:
            return False
    return True


def is_dag(spec):
    import networkx as nx

    G = nx.DiGraph()
    G.add_nodes_from(range(spec["n"]))
    G.add_edges_from((u, v) for u, v, _ in spec["edges"])
    return nx.is_directed_acyclic_graph(G)


def in_domain(op, specs, p, route="ga"):
    s = specs[0]
    d = s["directed"]
    if op.d == "u" and d or op.d == "d" and not d:
        return False
    if len(specs) > 1 and specs[1]["directed"] != d and op.name not in MIXED:
        return False
    name = op.name
    if name in NONEMPTY and any(q["n"] == 0 for q in specs):
        return False
    if name in NO_LOOPS and any(map(loops, specs)):
        return False
    if name in NO_LOOPS_U and not d and any(map(loops, specs)):
        return False
    if name in NEEDS_EDGE and not offdiag(s) and (s["n"] or "matrix" not in name):
        return False
    if name == "bethe_hessian_matrix" and p.get("r") is None and not s["edges"]:
        ns = nodes_of(p.get("nodelist"))
        if not s["n"] or "nodelist" in p and (MISSING in ns or len(set(ns)) != len(ns) or not ns):
            return False  # which of two errors comes first
    if name == "edge_boundary+data" and not S.is_weighted(s):
        return False
    won = weights_on(op, specs, p, route)
    if name in NONNEG and won and neg(s):
        return False
    missing = any(MISSING in nodes_of(v) for v in p.values())
    if missing and name == "is_isolate":
        return False  # NetworkX compares a DegreeView with 0
    if name in CUTS or name in CUT_S_ONLY or name == "volume":
        key = "nbunch1" if name.startswith("edge_boundary") else "S"
        a = p[key]
        b = p.get("nbunch2" if name.startswith("edge_boundary") else "T")
        if a.get("as") == "iter" or (b and b.get("as") == "iter"):
            return False
        if d and b and set(nodes_of(a)) & set(nodes_of(b)):
            return False
    if name in ("fast_could_be_isomorphic", "faster_could_be_isomorphic") and d:
        return False
    if name in FW:
        if (won or neg(s)) and (neg_cycle(s) or loops(s)):
            return False
    if name == "compose" and S.is_weighted(specs[0]) != S.is_weighted(specs[1]):
        return False
    if name == "lowest_common_ancestor":
        return is_dag(s) and "node1" in p
    if name in ("bellman_ford_path", "bellman_ford_path_length") and won:
        if p["source"] == p["target"] and neg_cycle(s):
            return False
    if name == "ego_graph" and won and (neg_cycle(s) or (s["directed"] and p.get("undirected"))):
        return False  # to_undirected() picks one of two weights arbitrarily
    if name in ("clustering", "average_clustering") and won and loops(s):
        # NetworkX normalises by the largest weight, self-edges included
        if max(w for u, v, w in s["edges"] if u == v) > max((w for u, v, w in s["edges"] if u != v), default=INF):
            return False
    if route == "nxback" and S.is_weighted(s) and name in DROPS_WEIGHTS:
        return False
    return True


def _hits(specs, p, keys):
    s = specs[0]
    n = s["n"]
    A = np.zeros((n, n))
    for u, v, w in s["edges"]:
        w = w if S.is_weighted(s) else 1.0
        A[u, v] = w
        if not s["directed"]:
            A[v, u] = w
    kw = calls.decode_params(p, keys)
    x = np.full(n, 1.0 / n)
    if kw.get("nstart"):
        x = np.array([kw["nstart"][keys[i]] for i in range(n)], float)
        x /= x.sum()
    for it in range(20000):
        if it == 1500:
            return None  # too slow to converge: whether max_iter suffices is not ours to say
        a = x @ A
        h = A @ a
        h /= abs(h).max()
        if abs(h - x).sum() < 1e-12:
            x = h
            break
        x = h
    a = x @ A
    a /= abs(a).max()
    h = x
    if kw.get("normalized", True):
        h, a = h / h.sum(), a / a.sum()
    return [
        "tuple",
        [["map", {f"@{i}": ["num", float(y[i])] for i in range(n)}] for y in (h, a)],
    ]


def want(op, specs, p, keys, route="ga", nxGs=None):
    if not in_domain(op, specs, p, route):
        return None
    name = op.name
    if name == "hits":
        return _hits(specs, p, keys)
    if nxGs is None:
        nxGs = [S.to_nx(s, keys) for s in specs]
    q = dict(p)
    s = specs[0]
    if s["directed"] and name in CUTS and name not in ("volume",):
        a, b = ("nbunch1", "nbunch2") if name.startswith("edge_boundary") else ("S", "T")
        if b not in q:
            inside = set(nodes_of(q[a]))
            q[b] = {"ns": [i for i in range(s["n"]) if i not in inside], "as": "list"}
    return calls.call_nx(op, nxGs, q, keys, route)


def _path_ok(op, s, p, keys, got, want, won):
    """both raise alike, or a real path with the same length"""
    if got[0] != "list":
        return f"a path expected, got {C.short(got)}"
    names = [x[1] if x[0] == "node" else None for x in got[1]]
    if any(x is None for x in names):
        return f"not node keys: {C.short(got)}"
    w = {}
    for u, v, x in s["edges"]:
        if not S.is_weighted(s):
            x = 1
        w[f"@{u}", f"@{v}"] = x
        if not s["directed"]:
            w[f"@{v}", f"@{u}"] = x

    def length(ns):
        t = 0
        for a, b in zip(ns, ns[1:]):
            if (a, b) not in w:
                raise KeyError(f"{a}>{b}")
            t += w[a, b]
        return t

    wn = [x[1] for x in want[1]]
    try:
        lg = length(names)
    except KeyError as e:
        return f"not an edge: {e}"
    if not names or names[0] != wn[0] or names[-1] != wn[-1]:
        return f"endpoints {names} vs {wn}"
    if not C.close(float(lg), float(length(wn)), 1e-9, 1e-9):
        return f"length {lg} vs {length(wn)}"
    return None


def _fw_pred_ok(s, p, got, want, won):
    d = C.diff(got[1][1], want[1][1], 1e-9, 1e-9, "dist")
    if d:
        return d
    gp, wp = got[1][0][1], want[1][0][1]
    if set(gp) != set(wp):
        return f"pred keys differ {sorted(set(gp) ^ set(wp))[:4]}"
    w = {}
    for u, v, x in s["edges"]:
        if not won:
            x = 1
        w[f"@{u}", f"@{v}"] = x
        if not s["directed"]:
            w[f"@{v}", f"@{u}"] = x
    dist = want[1][1][1]
    for u in gp:
        if set(gp[u][1]) != set(wp[u][1]):
            return f"pred[{u}] keys differ"
        for v, q in gp[u][1].items():
            q = q[1]
            if (q, v) not in w:
                return f"pred[{u}][{v}] = {q}: not an edge"
            dq = dist[u][1].get(q)
            if dq is None or not C.close(float(dq[1]) + w[q, v], float(dist[u][1][v][1]), 1e-9, 1e-9):
                return f"pred[{u}][{v}] = {q}: not on a shortest path"
    return None


def _lca_ok(s, p, got, want):
    import networkx as nx

    G = nx.DiGraph()
    G.add_nodes_from(range(s["n"]))
    G.add_edges_from((u, v) for u, v, _ in s["edges"])
    a, b = p["node1"]["n"], p["node2"]["n"]
    ca = (nx.ancestors(G, a) | {a}) & (nx.ancestors(G, b) | {b})
    low = {x for x in ca if not any(y != x and nx.has_path(G, x, y) for y in ca)}
    if not low:
        return C.diff(got, want)
    if got[0] == "node":
        return None if got[1] in {f"@{x}" for x in low} else f"{got[1]} not in {sorted(low)}"
    return f"expected a node in {sorted(low)}, got {C.short(got)}"


def _undirected_ok(s, got, want):
    """same structure; the weight of an edge is that of one of the two directions"""
    one = lambda g: [*g[:3], {k: 1 for k in g[3]}]  # noqa: E731
    if got[0] != "graph":
        return f"{C.short(got)} vs a graph"
    d = C.diff(one(got), one(want), order=True)
    if d:
        return d
    w = {}
    for u, v, x in s["edges"]:
        for k in (f"@{u}>@{v}", f"@{v}>@{u}"):
            w.setdefault(k, set()).add(float(x) if S.is_weighted(s) else 1.0)
    for k, x in got[3].items():
        a, b = k.split(">")
        if float(x) not in w[k] or x != got[3].get(f"{b}>{a}"):
            return f"weight of {k}: {x}"
    return None


def agree(op, specs, p, keys, got, want, route="ga"):
    name = op.name
    s = specs[0]
    if name == "lowest_common_ancestor" and "exc" not in (got[0], want[0]):
        return _lca_ok(s, p, got, want)
    if got[0] == "exc" or want[0] == "exc":
        if got[0] != want[0]:
            return f"{C.short(got)} vs {C.short(want)}"
        loose = name in ("bellman_ford_path", "bellman_ford_path_length")
        if loose:
            bad = {"TypeError", "AttributeError", "IndexError", "UnboundLocalError", "NameError", "RecursionError"}
            if got[1][0] in bad and want[1][0] not in bad:
                return f"raises {got[1][0]} vs {want[1][0]}"
            return None
        return C.diff(got, want)
    if name == "Graph.to_undirected":
        return _undirected_ok(s, got, want)
    won = weights_on(op, specs, p, route)
    if name == "bellman_ford_path":
        return _path_ok(op, s, p, keys, got, want, won)
    if name == "floyd_warshall_predecessor_and_distance":
        if got[0] != "tuple":
            return f"{C.short(got)} vs {C.short(want)}"
        return _fw_pred_ok(s, p, got, want, won)
    if name == "edge_boundary" and not s["directed"] and got[0] == "set":
        # an undirected edge may be reported in either direction, but once
        def und(x):
            return sorted(">".join(sorted(e.split(">"))) for e in x)

        a, b = und(got[1]), und(want[1])
        return None if a == b else f"edges {a} vs {b}"
    return C.diff(got, want, *op.tol)
