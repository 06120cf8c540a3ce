"""C08: sessions through every route agree with NetworkX while the client's graphs keep changing."""
import inspect

from . import calls, canon as C, harness, ref, seams, spec as S, world as W
from .harness import Crash
from .ops import MISSING, MIXED, OPS

ID = "C08"
RUNS = {"quick": 9000, "thorough": 150000}
RULE = (
    "One case: 1-3 NetworkX graphs and views of them that the client keeps changing, snapshots converted at seeded "
    "moments, and 5-16 calls through five routes (converted graph direct, converted graph through NetworkX's functions, "
    "backend= on NetworkX graphs, automatic dispatching, the backend's functions on NetworkX graphs), with either of two "
    "edge attributes; every answer in the stated domain is compared with NetworkX's answer for the graph as it was then. "
    "Non-trivial: at least 3 answers compared and at least one change between calls; distinct by the hash of session "
    "and answers."
)
STATES = "hash of (operation, route, attribute, last change)"
ASSUMPTIONS = [
    "graphs of at most 9 nodes, 14 in one run of 12; multigraphs in about 12% of the cases, and only with the operations in p_session.MULTI",
    "a generator result is consumed at once, before the client changes its graph again",
]
STUBS = ["the client (its changes, calls and their order)"]

ATTRS = ("weight", "cap")
# the backend's own functions accept directed graphs here, and refuse undirected ones with TypeError
NO_DIRECTION_CHECK = {"laplacian_matrix", "normalized_laplacian_matrix", "square_clustering", "reciprocity", "overall_reciprocity"}
ROUTES = ("ga", "ga", "nxga", "nxga", "nxback", "nxback", "nxback", "api", "api", "auto", "auto", "mixed")
LIVE = {"nxback", "api", "auto"}
# operations whose answer on graphs with parallel edges is NetworkX's (elsewhere the repository lists
# multigraphs as not handled); some of them only when they read weights
MULTI = {
    "adjacency_matrix", "all_pairs_shortest_path_length", "ancestors", "bethe_hessian_matrix", "bfs_layers", "boundary_expansion", "complement",
    "cut_size", "descendants", "descendants_at_distance", "directed_modularity_matrix", "edge_boundary", "efficiency", "eigenvector_centrality",
    "google_matrix", "has_path", "is_connected", "is_dominating_set", "is_isolate", "is_simple_path",
    "is_tournament", "is_triad", "is_weakly_connected", "isolates", "k_truss", "katz_centrality", "laplacian_matrix", "lowest_common_ancestor",
    "modularity_matrix", "node_boundary", "node_connected_component", "node_expansion", "normalized_laplacian_matrix", "number_of_isolates",
    "pagerank", "score_sequence", "single_source_shortest_path_length", "single_target_shortest_path_length", "square_clustering",
    "tournament_matrix", "volume",
}
MULTI_W = {"conductance", "edge_expansion", "normalized_cut_size"}
MULTI_N = {"cut_size", "edge_boundary", "volume"}  # count edges: a snapshot that holds weights has no numbers of edges
_sig = {}


# nodes which are not in the graph may be among the nodes given (NetworkX ignores them, or says so)
FOREIGN = {"edge_boundary", "edge_boundary+data", "node_boundary", "conductance", "cut_size", "mixing_expansion", "normalized_cut_size",
           "triangles", "clustering", "average_clustering", "square_clustering", "generalized_degree", "reciprocity", "volume", "node_expansion",
           "is_dominating_set", "pagerank", "google_matrix", "katz_centrality", "adjacency_matrix", "laplacian_matrix", "normalized_laplacian_matrix",
           "bethe_hessian_matrix", "modularity_matrix", "directed_modularity_matrix", "floyd_warshall_numpy"}


def weight_param(op):
    """Name of the argument that selects the edge attribute, if the operation has one."""
    if op.name not in _sig:
        name = None
        if "method" not in op.tags:
            f = calls.nx_func(op)
            ps = inspect.signature(f).parameters
            name = "weight" if "weight" in ps else "distance" if op.name == "ego_graph" else None
        _sig[op.name] = name
    return _sig[op.name]


# ---------------------------------------------------------------- the client's graphs
def draw_value(rng, kind):
    return {
        "int": lambda: rng.randint(1, 6),
        "float": lambda: round(rng.uniform(0.1, 5.0), 4),
        "dyadic": lambda: rng.randint(1, 16) / 4,
        "neg": lambda: rng.choice([-3, -1, 1, 2, 3, 4, 5, 6]),
        "mixed": lambda: rng.choice([1, 2, 3, 0.5, 1.25, 2.0]),
        "one": lambda: 1,
        "big": lambda: rng.choice([1, 2, 2**40, 2**31, 7]),
    }[kind]()


def draw_data(rng, kinds):
    d = {}
    for a, (k, pm) in kinds.items():
        if k != "none" and rng.random() >= pm:
            d[a] = draw_value(rng, k)
    return d


def gen_change(rng, live, slot, kinds, nids):
    G = live[slot]
    nodes = list(G)
    edges = list(G.edges())
    r = rng.random()
    if r < 0.32 or not edges:
        u, v = rng.randrange(nids), rng.randrange(nids)
        if rng.random() < 0.8 and u == v:
            v = (u + 1) % nids
        return {"c": "add_edge", "s": slot, "u": u, "v": v, "d": draw_data(rng, kinds)}
    if r < 0.42:
        return {"c": "add_node", "s": slot, "u": rng.randrange(nids)}
    if r < 0.52 and nodes:
        return {"c": "remove_node", "s": slot, "u": rng.choice(nodes)}
    if r < 0.68:
        u, v = rng.choice(edges)
        return {"c": "remove_edge", "s": slot, "u": u, "v": v}
    if r < 0.9:
        u, v = rng.choice(edges)
        a = rng.choice(ATTRS)
        k = kinds[a][0] if kinds[a][0] != "none" else rng.choice(["int", "float"])
        return {"c": "set", "s": slot, "u": u, "v": v, "a": a, "x": draw_value(rng, k)}
    if r < 0.97:
        u, v = rng.choice(edges)
        return {"c": "del", "s": slot, "u": u, "v": v, "a": rng.choice(ATTRS)}
    return {"c": "clear_edges", "s": slot}


def change(live, c, key):
    """Apply one client step to the graphs; tolerant of what minimisation removed."""
    G = live[c["s"]]
    k = c["c"]
    if k == "view":
        import networkx as nx

        if c["how"] == "sub":
            live.append(G.subgraph([key(i) for i in c["ns"]]))
        elif c["how"] == "rev" and G.is_directed():
            live.append(nx.reverse_view(G))
        elif c["how"] == "dir" and not G.is_directed():
            live.append(G.to_directed(as_view=True))
        else:
            live.append(G.copy(as_view=True))
        return
    if k == "clear_edges":
        G.clear_edges()
        return
    u = key(c["u"])
    if k == "add_node":
        G.add_node(u)
    elif k == "remove_node":
        if u in G:
            G.remove_node(u)
    else:
        v = key(c["v"])
        if k == "add_edge":
            G.add_edge(u, v, **c["d"])
        elif G.has_edge(u, v):
            if k == "remove_edge":
                G.remove_edge(u, v)
            else:
                d = G[u][v]
                if G.is_multigraph():
                    d = d[next(iter(d))]
                if k == "set":
                    d[c["a"]] = c["x"]
                elif k == "del":
                    d.pop(c["a"], None)


def build(g, key):
    import networkx as nx

    multi = g.get("multi")
    G = (nx.MultiDiGraph if multi else nx.DiGraph)() if g["directed"] else (nx.MultiGraph if multi else nx.Graph)()
    G.add_nodes_from(key(i) for i in g["order"])
    for u, v, d in g["edges"]:
        G.add_edge(key(u), key(v), **d)
    return G


def spec_of(G, attr, unkey):
    """What a call that reads `attr` sees: (spec over compact indices, node ids)."""
    ids = [unkey(k) for k in G]
    edges = []
    weighted = False
    for u, v, d in G.edges(data=True):
        x = 1
        if attr is not None and attr in d:
            x, weighted = d[attr], True
        edges.append([unkey(u), unkey(v), x])
    return ids, edges, weighted


def compact(G, attr, unkey, m):
    ids, edges, weighted = spec_of(G, attr, unkey)
    c = {
        "directed": G.is_directed(), "n": len(ids), "order": [m[i] for i in ids],
        "edges": [[m[u], m[v], x] for u, v, x in edges], "wk": "live" if weighted else "none",
    }
    return {**c, "multi": True} if G.is_multigraph() else c


def translate(v, m):
    if isinstance(v, dict):
        if "n" in v:
            return {"n": m[v["n"]]}
        if "ns" in v:
            return {**v, "ns": [m[i] for i in v["ns"]]}
        if "nd" in v:
            return {"nd": [[m[i], x] for i, x in v["nd"]]}
        if "blocks" in v:
            return {"blocks": [[m[i] for i in b] for b in v["blocks"]]}
    return v


def index_map(graphs, unkey, p):
    """id -> compact index; nodes of the graphs first, everything else counts down from MISSING."""
    ids = sorted({unkey(k) for G in graphs for k in G})
    m = {i: j for j, i in enumerate(ids)}
    nxt = MISSING
    for v in p.values():
        for i in ref.nodes_of(v):
            if i not in m:
                m[i] = nxt
                nxt -= 1
    return m


class SubKeys:
    def __init__(self, keys, m):
        self.keys = dict.fromkeys(range(MISSING + 1), None)
        for i, j in m.items():
            self.keys[j] = keys[i]
        self.back = {keys[i]: j for i, j in m.items()}

    def __getitem__(self, j):
        return self.keys[j]

    def unkey(self, k):
        try:
            return self.back.get(k)
        except TypeError:
            return None


# ---------------------------------------------------------------- generation
def gen(rng, seed):
    import networkx as nx  # noqa: F401  (the client's own graphs are NetworkX graphs)

    ident = lambda i: i  # noqa: E731
    k = rng.choice([1, 2, 2, 3])
    nids = rng.choice([4, 6, 7, 8, 9]) if rng.random() < 0.92 else 14
    kinds = {
        "weight": (rng.choice(["none", "int", "int", "float", "dyadic", "neg", "mixed", "one", "big"]), rng.choice([0, 0, 0.3])),
        "cap": (rng.choice(["none", "none", "none", "int", "float", "neg"]), rng.choice([0, 0.3])),
    }
    graphs = []
    first = rng.random() < 0.5
    multi = rng.random() < 0.12
    for i in range(k):
        s = S.gen_graph(rng, nmax=nids, nmin=nids - 3 if nids > 9 else 0, directed=first if i and rng.random() < 0.6 or not i else None, wkinds=["none"])
        es = [[u, v, draw_data(rng, kinds)] for u, v, _ in s["edges"] for _ in range(rng.choice([1, 1, 2, 3]) if multi else 1)]
        graphs.append({"directed": s["directed"], "order": s["order"], "edges": es, **({"multi": True} if multi else {})})
    scn = {"keys": W.gen_keys(rng), "graphs": graphs, "hist": []}
    live = [build(g, ident) for g in graphs]
    snaps = []  # (snapshot graph, attr)
    pool = sorted(MULTI | MULTI_W) if multi else W.NAMES
    names = rng.sample(pool, rng.randint(4, 14)) if rng.random() < 0.5 else pool
    pc = rng.choice([0.1, 0.3, 0.5])
    for _ in range(rng.randint(7, 24)):
        r = rng.random()
        h = scn["hist"]
        base = rng.randrange(k)
        if r < pc:
            c = gen_change(rng, live, base, kinds, nids)
        elif r < pc + 0.04:
            ns = [i for i in range(nids) if rng.random() < 0.7]
            c = {"c": "view", "s": rng.randrange(len(live)), "how": rng.choice(["sub", "sub", "rev", "copy", "dir"]), "ns": ns}
        elif r < pc + 0.2 or not snaps:
            s = rng.randrange(len(live))
            attr = rng.choice([None, "weight", "weight", "cap"])
            how = rng.choice(["disp", "disp", "class", "preserve"])
            snaps.append((live[s].copy(), attr))
            h.append({"snap": s, "attr": attr, "how": how})
            continue
        else:
            c = gen_call(rng, live, snaps, names)
            if c:
                h.append(c)
            continue
        h.append(c)
        change(live, c, ident)
    return scn


def gen_call(rng, live, snaps, names):
    ident = lambda i: i  # noqa: E731
    for _ in range(30):
        name = rng.choice(names)
        op = OPS[name]
        route = rng.choice(ROUTES)
        if "method" in op.tags:
            route = "ga"
        if "nodispatch" in op.tags and route in ("nxga", "nxback", "auto", "mixed"):
            route = "ga" if rng.random() < 0.5 else "api"
            if "method" in op.tags:
                route = "ga"
        if route == "mixed" and op.ng < 2:
            continue
        if route in LIVE:
            slots = [rng.randrange(len(live))]
            pool = live
        else:
            slots = [rng.randrange(len(snaps))]
            pool = [g for g, _ in snaps]
        G = pool[slots[0]]
        if op.d == "u" and G.is_directed() or op.d == "d" and not G.is_directed():
            if rng.random() > 0.1:
                continue
        if op.ng == 2:
            pool2 = live if route == "mixed" else pool
            any_ = name in MIXED and rng.random() < 0.08
            same = [j for j, x in enumerate(pool2) if any_ or x.is_directed() == G.is_directed()]
            if not same:
                continue
            slots.append(rng.choice(same))
        m = index_map([G], ident, {})
        back = {j: i for i, j in m.items()}
        back[MISSING] = next(i for i in range(MISSING, -1, -1) if i not in m)
        attr = rng.choice(["weight", "weight", "cap"])
        p = op.gen(rng, compact(G, attr, ident, m))
        p = {a: translate(v, back) for a, v in p.items()}
        if route in LIVE and weight_param(op) == "weight" and "weight" not in p and reads_by_default(op) and rng.random() < 0.12:
            p["weight"], attr = None, None  # every edge counts as 1
        inst = {"f": name, "s": slots, "p": p, "r": route}
        if route in LIVE or route == "mixed":
            inst["attr"] = attr if weight_param(op) else "weight"
        if route in ("nxback", "auto") and rng.random() < 0.3:
            inst["back"] = True
        return inst
    return None


# ---------------------------------------------------------------- execution
class Session:
    """The real thing: the client's graphs, snapshots in the backend, calls."""

    def __init__(self, scn):
        self.keys = S.Keys(scn["keys"])
        self.live = [build(g, self.keys.__getitem__) for g in scn["graphs"]]
        self.snaps = []

    def snapshot(self, inst):
        from graphblas_algorithms.interface import Dispatcher
        import graphblas_algorithms as ga

        G = self.live[inst["snap"]]
        attr, how = inst["attr"], inst["how"]
        if how == "class":
            cls = getattr(ga, ("Multi" if G.is_multigraph() else "") + ("DiGraph" if G.is_directed() else "Graph"))
            self.snaps.append(cls.from_networkx(G, weight=attr))
        elif how == "preserve" and single_attr(G) == (attr,):
            self.snaps.append(Dispatcher.convert_from_nx(G, preserve_edge_attrs=True))
        elif attr is None:
            self.snaps.append(Dispatcher.convert_from_nx(G))
        else:
            self.snaps.append(Dispatcher.convert_from_nx(G, edge_attrs={attr: 1}))

    def call(self, inst):
        import networkx as nx

        from graphblas_algorithms.interface import Dispatcher

        op = OPS[inst["f"]]
        route = inst["r"]
        Gs = self.graphs(inst)
        if Gs is None or op.name == "edge_boundary" and inst["r"] not in LIVE and Gs[0].is_multigraph():
            return ["skipped"]  # a snapshot that holds weights would repeat an edge as often as its weight says
        m = index_map(Gs, self.keys.unkey, inst["p"])
        sub = SubKeys(self.keys, m)
        p = {a: translate(v, m) for a, v in inst["p"].items()}
        kw = calls.decode_params(with_attr(op, p, inst, route), sub)
        disp = type(nx.pagerank)
        old = disp._automatic_backends

        def go(*Gs, **kw):
            if route in ("ga", "api"):
                res = calls.ga_func(op)(*Gs, **kw)
            else:
                if route in ("auto", "mixed"):
                    disp._automatic_backends = ["graphblas"]
                elif route == "nxback":
                    kw["backend"] = "graphblas"
                res = calls.nx_func(op)(*Gs, **kw)
            if inst.get("back"):
                res = Dispatcher.convert_to_nx(res, name=op.name)
            return res

        try:
            return calls.outcome(op, go, Gs, kw, sub, p)
        finally:
            disp._automatic_backends = old

    def graphs(self, inst):
        out = []
        for n, i in enumerate(inst["s"]):
            pool = self.live if inst["r"] in LIVE or inst["r"] == "mixed" and n else self.snaps
            if i >= len(pool):
                return None
            out.append(pool[i])
        return out


class Mirror(Session):
    """The same session without the backend: what the graphs are at every call."""

    def snapshot(self, inst):
        self.snaps.append((self.live[inst["snap"]].copy(), inst["attr"]))

    def want(self, inst):
        """-> (op, specs, p, subkeys, route, expected)"""
        op = OPS[inst["f"]]
        Gs = self.graphs(inst)
        if Gs is None:
            return None
        attrs = []
        for i, G in enumerate(Gs):
            if isinstance(G, tuple):
                Gs[i], a = G
                attrs.append(a)
            else:
                attrs.append(inst["attr"])
        m = index_map(Gs, self.keys.unkey, inst["p"])
        sub = SubKeys(self.keys, m)
        specs = [compact(G, a, self.keys.unkey, m) for G, a in zip(Gs, attrs)]
        p = {a: translate(v, m) for a, v in inst["p"].items()}
        route = inst["r"]
        if route in LIVE or route == "mixed":
            rr = "nxback"
        else:
            rr = "ga"
        if specs[0].get("multi") and (op.name in MULTI_W and not ref.weights_on(op, specs, p, rr) or op.name == "cut_size" and p["S"].get("as") == "dict"
                                      or op.name in MULTI_N and rr == "ga" and S.is_weighted(specs[0]) and not p.get("weight")
                                      or op.w == "flagd" and rr == "ga" and S.is_weighted(specs[0]) and p.get("weight", 1) is None):
            return None
        if not comparable(op, inst, Gs, lambda G: {self.keys.unkey(k) for k in G}):
            return None
        if op.d == ("u" if specs[0]["directed"] else "d") and op.name not in NO_DIRECTION_CHECK and "method" not in op.tags:
            # an operation which NetworkX refuses for this kind of graph
            want = calls.call_nx(op, [S.to_nx(s, sub) for s in specs], p, sub, rr)
            return op, specs, p, sub, rr, want if want[0] == "exc" and want[1][0] == "NetworkXNotImplemented" else None
        return op, specs, p, sub, rr, ref.want(op, specs, p, sub, rr)


def single_attr(G):
    return tuple(sorted({a for _, _, d in G.edges(data=True) for a in d}))


def comparable(op, inst, Gs, ids_of):
    """Several edge attributes cannot be carried by one matrix: the backend refuses, as documented."""
    if op.name == "edge_boundary+data":
        # the data of an edge is its one number
        if any(G.is_multigraph() for G in Gs) or inst["r"] in LIVE | {"mixed"} and any(set(d) != {"weight"} for G in Gs for _, _, d in G.edges(data=True)):
            return False
    if op.name not in FOREIGN and any(not isinstance(v, dict) or "n" not in v for v in inst["p"].values()):
        ids = set().union(*(ids_of(G) for G in Gs))
        if any(i not in ids for v in inst["p"].values() if isinstance(v, dict) and "n" not in v for i in ref.nodes_of(v)):
            return False  # collections with foreign nodes (minimisation makes them)
    if "newgraph" in op.tags and inst["r"] in LIVE | {"mixed"}:
        if inst["r"] == "api":  # called without NetworkX's dispatching, these convert without edge data
            return all(single_attr(G) == () for G in Gs)
        return all(single_attr(G) in ((), ("weight",)) for G in Gs)
    return True


def with_attr(op, p, inst, route):
    """The arguments as passed: naming the attribute where it is not the default."""
    attr = inst.get("attr")
    wp = weight_param(op)
    if attr is None or wp is None:
        return p
    p = dict(p)
    if p.get(wp) is not None:
        p[wp] = attr
    elif attr != "weight" and wp == "weight" and wp not in p and op.w in ("data", "flagd") and reads_by_default(op):
        p[wp] = attr
    elif attr != "weight" and wp == "weight" and wp not in p and op.name in ref.FW:
        p[wp] = attr
    return p


def reads_by_default(op):
    return inspect.signature(calls.nx_func(op)).parameters["weight"].default is not None


def _session(scn):
    s = Session(scn)
    got = []
    for inst in scn["hist"]:
        if "c" in inst:
            change(s.live, inst, s.keys.__getitem__) if inst["s"] < len(s.live) else None
        elif "snap" in inst:
            if inst["snap"] < len(s.live):
                with seams.Budget(W.LINE_BUDGET):
                    s.snapshot(inst)
        else:
            with seams.Budget(W.LINE_BUDGET):
                got.append(s.call(inst))
    live = [plain(G, s.keys) for G in s.live]
    snaps = [C.canon(G, s.keys) for G in s.snaps]
    return got, live, snaps, seams.S.lines, seams.S.calls


def plain(G, keys):
    return [G.is_directed(), [C.key(k, keys) for k in G], sorted([C.key(u, keys), C.key(v, keys), sorted(map(str, d.items()))] for u, v, d in G.edges(data=True)),
            dict(G.graph), [dict(d) for _, d in G.nodes(data=True)]]


def execute(scn):
    hist = scn["hist"]
    st = {"ops": 0, "checks": 0, "opnames": {}, "probes": {}, "states": [], "faults": {}}
    try:
        got, live, snaps, st["lines"], st["calls"] = harness.sub(_session, scn)
    except Crash as e:
        return {"v": {"cls": "crash", "msg": str(e)}, "digest": "crash", "st": st}
    w = Mirror(scn)
    v = None
    it = iter(got)
    last = "start"
    for i, inst in enumerate(hist):
        if "c" in inst:
            if inst["s"] < len(w.live):
                change(w.live, inst, w.keys.__getitem__)
            last = inst["c"]
            st["faults"][last] = st["faults"].get(last, 0) + 1
            continue
        if "snap" in inst:
            if inst["snap"] < len(w.live):
                w.snapshot(inst)
            last = "snap"
            st["probes"]["snapshots"] = st["probes"].get("snapshots", 0) + 1
            continue
        a = next(it)
        if a[0] == "skipped":
            continue
        st["ops"] += 1
        st["opnames"][inst["f"]] = st["opnames"].get(inst["f"], 0) + 1
        st["probes"]["route_" + inst["r"]] = st["probes"].get("route_" + inst["r"], 0) + 1
        st["states"].append(harness.digest_of([inst["f"], inst["r"], inst.get("attr"), last]))
        x = w.want(inst)
        if x is None or x[5] is None:
            continue
        op, specs, p, sub, rr, want = x
        st["checks"] += 1
        d = ref.agree(op, specs, p, sub, a, want, rr)
        if d:
            v = {"cls": "wrong-answer", "msg": f"step {i} {inst['f']} route {inst['r']}: {d}"}
            break
        if a[0] == "exc":
            st["probes"]["errors_compared"] = st["probes"].get("errors_compared", 0) + 1
    if v is None:
        for i, (G, a) in enumerate(zip(w.live, live)):
            if plain(G, w.keys) != a:
                v = {"cls": "source-changed", "msg": f"live graph {i} was changed by calls"}
        for i, ((G, attr), a) in enumerate(zip(w.snaps, snaps)):
            d = C.diff(a, snap_want(G, attr, w.keys), order=True)
            if d:
                v = {"cls": "snapshot-changed", "msg": f"snapshot {i}: {d}"}
    st["nontrivial"] = st["checks"] >= 3 and any("c" in x for x in hist)
    st["sample"] = [x.get("f") or x.get("c") or "snapshot" for x in hist]
    return {"v": v, "digest": harness.digest_of([hist, got, live, snaps, v]), "st": st}


def snap_want(G, attr, keys):
    edges = {}
    for u, v, d in G.edges(data=True):
        x = d.get(attr, 1) if attr else 1
        if G.is_multigraph():
            x += edges.get(f"{C.key(u, keys)}>{C.key(v, keys)}", 0)  # the backend holds the sum over parallel edges
        edges[f"{C.key(u, keys)}>{C.key(v, keys)}"] = x
        if not G.is_directed():
            edges[f"{C.key(v, keys)}>{C.key(u, keys)}"] = x
    return ["graph", G.is_directed(), [C.key(k, keys) for k in G], edges]


def shrink(scn):
    yield from W.shrink_steps(scn)
    yield from W.shrink_params(scn)
    for gi, g in enumerate(scn["graphs"]):
        put = lambda x: {**scn, "graphs": scn["graphs"][:gi] + [x] + scn["graphs"][gi + 1 :]}  # noqa: B023, E731
        for j, (u, v, d) in enumerate(g["edges"]):
            yield put({**g, "edges": g["edges"][:j] + g["edges"][j + 1 :]})
            for a in d:
                e = [u, v, {b: x for b, x in d.items() if b != a}]
                yield put({**g, "edges": g["edges"][:j] + [e] + g["edges"][j + 1 :]})
        used = {x for u, v, _ in g["edges"] for x in (u, v)}
        for i in g["order"]:
            if i not in used:
                yield put({**g, "order": [x for x in g["order"] if x != i]})
    if scn["keys"] != "str":
        yield {**scn, "keys": "str"}
