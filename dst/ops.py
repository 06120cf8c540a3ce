"""Catalogue of operations: every function reachable through the dispatcher.

An op instance is JSON: {"f": name, "g": [slot, ...], "p": {param: encoded value}}.
Encoded values: {"n": i} a node, {"ns": [i..], "as": "list|set|tuple|iter|dict"} a collection of
nodes, {"nd": [[i, x]..]} a dict node->number, {"blocks": [[i..]..]}, {"x": node not in any graph};
anything else stands for itself.
"""

MISSING = 39  # index of a key which is never in a graph


class P:
    """One parameter: how it is drawn and how it is passed."""

    def __init__(self, name, gen, *, opt=0.0, kw=None):
        self.name, self.gen, self.opt = name, gen, opt


def _node(rng, n, absent=0.04):
    if n == 0 or rng.random() < absent:
        return {"n": MISSING}
    return {"n": rng.randrange(n)}


def p_node(name, absent=0.04):
    return P(name, lambda rng, spec: _node(rng, spec["n"], absent))


def _nodes(rng, spec, *, extra=0.0, empty=0.05, forms=("list", "set", "tuple", "iter", "dict"), nonempty=False):
    n = spec["n"]
    if n == 0:
        ns = []
    elif rng.random() < empty and not nonempty:
        ns = []
    else:
        k = rng.randint(1, n)
        ns = rng.sample(range(n), k)
    if extra and rng.random() < extra:
        ns = ns + [MISSING]
    return {"ns": ns, "as": rng.choice(forms)}


def p_nodes(name, opt=0.0, **kw):
    return P(name, lambda rng, spec: _nodes(rng, spec, **kw), opt=opt)


def p_node_or_nodes(name, opt=0.3, **kw):
    def gen(rng, spec):
        if spec["n"] and rng.random() < 0.45:
            return _node(rng, spec["n"], 0.0)
        return _nodes(rng, spec, **kw)

    return P(name, gen, opt=opt)


def p_choice(name, vals, opt=0.0):
    return P(name, lambda rng, spec: rng.choice(vals), opt=opt)


def p_dict(name, opt=0.5, full=0.5, extra=0.0, zero=0.0):
    """extra: how often a node which is not in the graph is among the keys; zero: how often the values sum to zero."""
    def gen(rng, spec):
        n = spec["n"]
        if n == 0:
            return None
        ns = list(range(n)) if rng.random() < full else rng.sample(range(n), rng.randint(1, n))
        nd = [[i, rng.randint(1, 8) / 4] for i in ns]
        if zero and rng.random() < zero:
            nd = [] if rng.random() < 0.5 else [[i, 0.0] for i in ns]
        if extra and rng.random() < extra:
            nd.append([MISSING, rng.randint(1, 8) / 4])
        return {"nd": nd}

    return P(name, gen, opt=opt)


def p_perm(name, opt=0.6, subset=0.0, bad=0.08):
    """bad: how often nodes are repeated, missing from the graph, or none."""
    def gen(rng, spec):
        ns = rng.sample(range(spec["n"]), spec["n"])
        if bad and rng.random() < bad:
            how = rng.choice(["repeat", "foreign", "swap", "empty"])
            if how == "repeat" and ns:
                ns.insert(rng.randint(0, len(ns)), rng.choice(ns))
            elif how == "swap" and len(ns) > 1:
                ns[0] = ns[1]
            elif how == "empty":
                ns = []
            else:
                ns.insert(rng.randint(0, len(ns)), MISSING)
                if len(ns) > 1 and rng.random() < 0.5:
                    ns.remove(next(i for i in ns if i != MISSING))
        if subset and ns and rng.random() < subset:
            ns = ns[: rng.randint(1, len(ns))]
        return {"ns": ns, "as": "list"}

    return P(name, gen, opt=opt)


def p_blocks(name):
    def gen(rng, spec):
        n = spec["n"]
        k = rng.randint(1, 3)
        blocks = [[] for _ in range(k)]
        for i in range(n):
            blocks[rng.randrange(k)].append(i)
        return {"blocks": [b for b in blocks if b]}

    return P(name, gen)


def p_path(name):
    def gen(rng, spec):
        n = spec["n"]
        if n and rng.random() < 0.7:
            # a walk along edges
            adj = {}
            for u, v, _ in spec["edges"]:
                adj.setdefault(u, []).append(v)
                if not spec["directed"]:
                    adj.setdefault(v, []).append(u)
            cur = rng.randrange(n)
            path = [cur]
            for _ in range(rng.randint(0, 4)):
                nxt = [v for v in adj.get(cur, []) if v not in path]
                if not nxt:
                    break
                cur = rng.choice(nxt)
                path.append(cur)
            if rng.random() < 0.15:
                path.append(rng.randrange(n))
            return {"ns": path, "as": "list"}
        ns = [rng.randrange(n) for _ in range(rng.randint(0, 4))] if n else []
        return {"ns": ns, "as": "list"}

    return P(name, gen)


W = p_choice("weight", ["weight"], opt=0.5)
WNONE = p_choice("weight", [None], opt=0.75)
WFW = p_choice("weight", ["weight", None], opt=0.5)


class Op:
    def __init__(self, name, params=(), *, d="both", ng=1, ref=None, tags=(), w="none", tol=(1e-9, 1e-12),
                 lazy=False, dom=None, extra=(), canon=None, post=None):
        """
        d: which graphs the op is defined for ('both'|'u'|'d').
        w: how weights enter.
           'none'  - never read
           'flag'  - the `weight` argument decides (None: unweighted)
           'data'  - whatever the backend graph carries is used (weight argument only matters on
                     conversion): compared with weight="weight"
        ref: reference callable (nx function) or None -> looked up by name.
        extra: names of parameters that only the backend has (chunksize).
        dom: predicate(spec list, decoded params) -> bool; False: outside the compared domain.
        """
        self.name, self.params, self.d, self.ng = name, tuple(params), d, ng
        self.refname, self.tags, self.w, self.tol = ref, frozenset(tags), w, tol
        self.lazy, self.dom, self.extra, self.canon, self.post = lazy, dom, frozenset(extra), canon, post

    def gen(self, rng, spec):
        p = {}
        for q in self.params:
            if q.opt and rng.random() < q.opt:
                continue
            v = q.gen(rng, spec)
            if v is not None or q.name in ("weight", "chunksize"):
                p[q.name] = v
        if self.post and "edges" in spec:
            self.post(rng, spec, p)
        return p


def decode(v, keys, fault=None):
    if isinstance(v, dict):
        if "n" in v:
            return keys[v["n"]]
        if "ns" in v:
            xs = [keys[i] for i in v["ns"]]
            how = v.get("as", "list")
            if how == "list":
                return xs
            if how == "set":
                return set(xs)
            if how == "tuple":
                return tuple(xs)
            if how == "iter":
                return iter(xs)
            if how == "dict":
                return dict.fromkeys(xs)
            if how == "frozenset":
                return frozenset(xs)
            if how == "dictkeys":
                return dict.fromkeys(xs).keys()
            raise ValueError(how)
        if "nd" in v:
            return {keys[i]: x for i, x in v["nd"]}
        if "blocks" in v:
            return [{keys[i] for i in b} for b in v["blocks"]]
    return v


def _nxf(path):
    import networkx as nx

    obj = nx
    for part in path.split("."):
        obj = getattr(obj, part)
    return obj


CUTOFF = p_choice("cutoff", [0, 1, 1, 2, 2, 3, 50, 10**7, -1, float("inf"), 1.0, 1.5], opt=0.5)
POWER = (2e-4, 2e-5)
CS = p_choice("chunksize", [1, 2, 3, 4, 5, "10 MiB", "2 chunks", "3 chunks", None, "all", 0], opt=0.3)
CSB = p_choice("chunksize", [2, 3, 4, 5, "10 MiB", "2 chunks", "3 chunks", None, "all"], opt=0.3)


def _beta(rng, spec):
    if rng.random() < 0.4 or not spec["n"]:
        return rng.choice([0.5, 2.0])
    n = spec["n"]
    ns = range(n) if rng.random() < 0.8 else rng.sample(range(n), rng.randint(1, n))
    ns = [*ns, MISSING] if rng.random() < 0.06 else ns
    return {"nd": [[i, rng.randint(1, 8) / 4] for i in ns]}


def lca_pairs(spec):
    """Pairs of nodes of an acyclic graph with several lowest common ancestors."""
    n = spec["n"]
    anc = [1 << i for i in range(n)]
    for r in range(n + 1):
        old = list(anc)
        for u, v, _ in spec["edges"]:
            anc[v] |= anc[u]
        if anc == old:
            break
    if any(u != v and anc[u] >> v & 1 for u, v, _ in spec["edges"]):
        return []
    out = []
    for a in range(n):
        for b in range(a):
            c = anc[a] & anc[b]
            low = [x for x in range(n) if c >> x & 1 and not any(y != x and c >> y & 1 and anc[y] >> x & 1 for y in range(n))]
            if len(low) > 1:
                out.append((a, b))
    return out


def _lca_pair(rng, spec, p):
    if rng.random() < 0.6:
        xs = lca_pairs(spec)
        if xs:
            a, b = rng.choice(xs)
            if rng.random() < 0.5:
                a, b = b, a
            p["node1"], p["node2"] = {"n": a}, {"n": b}


OPS = {}
MIXED = {"compose", "difference", "disjoint_union", "full_join", "intersection", "symmetric_difference", "union"}  # defined for, or refusing, one directed graph


def S_weighted(spec):
    from . import spec as S

    return S.is_weighted(spec)


def add(name, *params, **kw):
    OPS[name] = Op(name, params, **kw)


# boundary
add("edge_boundary", p_nodes("nbunch1", extra=0.1), p_nodes("nbunch2", opt=0.5, extra=0.1), lazy=True, canon="edgeset")
add("edge_boundary+data", p_nodes("nbunch1", extra=0.1), p_nodes("nbunch2", opt=0.5, extra=0.1), p_choice("data", [True, "weight"]),
    ref="edge_boundary", canon="edgedata", w="data", dom=lambda specs, p: S_weighted(specs[0]))
add("node_boundary", p_nodes("nbunch1", extra=0.1), p_nodes("nbunch2", opt=0.5, extra=0.1))
# centrality
add("degree_centrality")
add("in_degree_centrality", d="d")
add("out_degree_centrality", d="d")
add("eigenvector_centrality", p_choice("max_iter", [100, 500, 2000], opt=0.5), p_dict("nstart", 0.7, full=1.0), W, w="data", tol=POWER, tags=["power"])
add("katz_centrality", p_choice("alpha", [0.05, 0.02], opt=0.5), P("beta", _beta, opt=0.5),
    p_choice("normalized", [False], opt=0.6), p_dict("nstart", 0.8, full=1.0), p_choice("tol", [1e-4, 1e-9], opt=0.85), W, w="data", tol=POWER, tags=["power"])
# cluster
add("average_clustering", p_nodes("nodes", opt=0.6, extra=0.1), W, p_choice("count_zeros", [False], opt=0.6), w="flag")
add("clustering", p_node_or_nodes("nodes", extra=0.1), W, w="flag")
add("generalized_degree", p_node_or_nodes("nodes", extra=0.1), d="u", canon="counters")
add("square_clustering", p_node_or_nodes("nodes", extra=0.1), CS, d="u", extra=["chunksize"])
add("transitivity")
add("triangles", p_node_or_nodes("nodes", extra=0.1), d="u")
# community
add("inter_community_edges", p_blocks("partition"), ref="community.quality.inter_community_edges", tags=["nodispatch"])
add("intra_community_edges", p_blocks("partition"), ref="community.quality.intra_community_edges", tags=["nodispatch"])
# components
add("is_connected", d="u")
add("node_connected_component", p_node("n"), d="u")
add("is_weakly_connected", d="d")
add("k_truss", p_choice("k", [0, 1, 2, 3, 3, 4, 4, 5, 6, 10**7]), d="u", tags=["newgraph"])
# cuts
add("boundary_expansion", p_nodes("S"))
add("conductance", p_nodes("S", extra=0.1), p_nodes("T", opt=0.5, extra=0.1), W, w="cut")
add("cut_size", p_nodes("S", extra=0.1), p_nodes("T", opt=0.5, extra=0.1), W, w="flag")
add("edge_expansion", p_nodes("S", forms=("list", "set", "tuple")), p_nodes("T", opt=0.5, forms=("list", "set", "tuple")), W, w="cut")
add("mixing_expansion", p_nodes("S", extra=0.1), p_nodes("T", opt=0.5, extra=0.1), W, w="cut")
add("node_expansion", p_nodes("S", extra=0.1, forms=("list", "set", "tuple")))
add("normalized_cut_size", p_nodes("S", extra=0.1), p_nodes("T", opt=0.5, extra=0.1), W, w="cut")
add("volume", p_nodes("S", extra=0.1), W, w="flag")
# dag
add("ancestors", p_node("source"))
add("descendants", p_node("source"))
add("is_dominating_set", p_nodes("nbunch", extra=0.1))
add("efficiency", p_node("u"), p_node("v"), d="u")
add("ego_graph", p_node("n"), p_choice("radius", [0, 1, 2, 3, 4, 2, 3, 10**7, -1, float("inf"), 0.5, 1.5, 2.5, 2.0], opt=0.4), p_choice("center", [False], opt=0.7),
    p_choice("undirected", [True], opt=0.7), P("distance", lambda r, s: "weight", opt=0.6), w="data", tags=["newgraph"])
add("is_isolate", p_node("n"))
add("isolates", canon="set")
add("number_of_isolates")
add("fast_could_be_isomorphic", ng=2)
add("faster_could_be_isomorphic", ng=2)
# linalg
add("bethe_hessian_matrix", p_choice("r", [1.5, 2.0], opt=0.5), p_perm("nodelist"), d="u", w="data")
add("adjacency_matrix", p_perm("nodelist", subset=0.3), p_choice("dtype", ["float64"], opt=0.7), WNONE, w="flagd")
add("laplacian_matrix", p_perm("nodelist"), WNONE, w="flagd", d="u")
add("normalized_laplacian_matrix", p_perm("nodelist"), WNONE, w="flagd", d="u")
add("directed_modularity_matrix", p_perm("nodelist"), W, d="d", w="flag")
add("modularity_matrix", p_perm("nodelist"), W, d="u", w="flag")
# link analysis
add("hits", p_choice("max_iter", [5000, 8000], opt=0.0), p_choice("normalized", [False], opt=0.6), p_dict("nstart", 0.8, full=1.0), w="data", tol=(5e-3, 5e-4), tags=["power"])
add("google_matrix", p_choice("alpha", [0.5], opt=0.6), p_dict("personalization", 0.7, extra=0.1, zero=0.06), p_perm("nodelist", bad=0), p_dict("dangling", 0.7, extra=0.1), w="data")
add("pagerank", p_choice("alpha", [0.5, 0.95], opt=0.6), p_choice("tol", [1e-3, 1e-5], opt=0.85), p_dict("personalization", 0.7, extra=0.1, zero=0.06), p_dict("nstart", 0.8, extra=0.1), p_dict("dangling", 0.7, extra=0.1), w="data", tol=POWER, tags=["power"])
add("lowest_common_ancestor", p_node("node1"), p_node("node2"), p_choice("default", ["none of them", -0.25], opt=0.6), d="d", post=_lca_pair)
# operators
add("compose", ng=2, tags=["newgraph"])
add("difference", ng=2, tags=["newgraph"])
add("disjoint_union", ng=2, tags=["newgraph", "intkeys"])
add("full_join", P("rename", lambda r, s: ["G", "H"], opt=0.3), ng=2, tags=["newgraph", "rename"])
add("intersection", ng=2, tags=["newgraph"])
add("symmetric_difference", ng=2, tags=["newgraph"])
add("union", P("rename", lambda r, s: ["G", "H"], opt=0.3), ng=2, tags=["newgraph", "rename"])
add("complement", tags=["newgraph"])
add("reverse", p_choice("copy", [False], opt=0.7), tags=["newgraph"])
# reciprocity
add("overall_reciprocity", d="d")
add("reciprocity", p_node_or_nodes("nodes", extra=0.1), d="d")
add("is_k_regular", p_choice("k", [0, 1, 2, 3, 4, 10**7]), d="u")
add("is_regular")
# shortest paths
add("floyd_warshall", WFW, w="flag")
add("floyd_warshall_numpy", p_perm("nodelist"), WFW, w="flag", canon="dense")
add("floyd_warshall_predecessor_and_distance", WFW, w="flag")
add("has_path", p_node("source"), p_node("target"))
add("all_pairs_shortest_path_length", CUTOFF, CS, lazy=True, extra=["chunksize"])
add("single_source_shortest_path_length", p_node("source"), CUTOFF)
add("single_target_shortest_path_length", p_node("target"), CUTOFF, canon="map")
add("all_pairs_bellman_ford_path_length", CS, w="data", lazy=True, extra=["chunksize"])
add("bellman_ford_path", p_node("source"), p_node("target"), w="data")
add("bellman_ford_path_length", p_node("source"), p_node("target"), w="data")
add("negative_edge_cycle", p_choice("heuristic", [False], opt=0.7), w="data")
add("single_source_bellman_ford_path_length", p_node("source"), w="data")
add("is_simple_path", p_path("nodes"))
add("s_metric")
add("mutual_weight", p_node("u", 0.06), p_node("v", 0.06), W, ref="algorithms.structuralholes.mutual_weight", w="flag", tags=["nodispatch"])
add("is_tournament", d="d", ref="tournament.is_tournament")
add("score_sequence", d="d", ref="tournament.score_sequence", canon="nums")
add("tournament_matrix", d="d", ref="tournament.tournament_matrix")
add("bfs_layers", p_node_or_nodes("sources", opt=0.0, forms=("list", "set", "tuple"), nonempty=True), lazy=True, canon="layers")
add("descendants_at_distance", p_node("source"), p_choice("distance", [0, 1, 2, 3, 4, 1, 2, 10**7, -1]))
add("is_triad")
# methods of graphs
add("Graph.to_undirected", p_choice("reciprocal", [True], opt=0.6), d="d", tags=["newgraph", "nodispatch", "method"])
add("Graph.reverse", p_choice("copy", [False], opt=0.7), d="d", tags=["newgraph", "nodispatch", "method"])
add("Graph.to_networkx", tags=["nodispatch", "method"])
add("Graph.number_of_nodes", tags=["nodispatch", "method"])
