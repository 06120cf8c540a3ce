"""C09: conversions are faithful snapshots."""
import copy

import numpy as np

from . import faults as F, harness, p_session as P, seams, spec as S, world as W
from .harness import Crash

ID = "C09"
RUNS = {"quick": 12000, "thorough": 160000}
RULE = (
    "One case: up to 3 NetworkX graphs (views included) that the client changes, and a seeded history of 6-20 steps: "
    "conversions in both directions by every public way, copies, reversals, changes of directedness, graph operators, "
    "round trips of node collections, property reads, client changes of converted graphs, conversions of multigraphs, conversions that must be refused, "
    "and faults inside conversions. After every step every graph of the session is compared with a plain dict model. "
    "Non-trivial: at least 2 conversions; distinct by the hash of history and final graphs."
)
STATES = "hash of (step, source kind, directedness, fault kind)"
ASSUMPTIONS = ["parallel edges of multigraphs carry integers", "weights are int, float or bool numbers that float64/int64 represent"]
STUBS = ["the client", "failure results of engine calls", "interrupt delivery"]

INTO = ("disp", "disp", "class", "preserve", "to_graph", "disp_graphattrs")
WITHIN = ("reverse", "reverse", "to_undirected", "to_undirected", "rebuild", "nx_reverse", "complement", "compose", "union",
          "disjoint_union", "intersection", "difference", "symmetric_difference", "full_join", "from_matrix")
PROBES = ("dict", "list", "set", "ids", "matrix", "nodemap", "nodeset", "nodenodemap", "vectornodemap", "fill")
REFUSE = ("two_attrs", "default", "node_attrs", "bad_type", "nonsquare", "bad_value", "node_data", "wrong_class")
PROPS = tuple(W.PROPS_BOTH + W.PROPS_D)
MULTI = ("disp", "class", "to_graph")


# ---------------------------------------------------------------- plain model
class M:
    """Nodes in order, edge data in both directions of an undirected edge, graph attributes."""

    def __init__(self, directed, nodes=(), edges=None, graph=None):
        self.directed, self.nodes = directed, list(nodes)
        self.edges = dict(edges or {})
        self.graph = copy.deepcopy(graph or {})

    def put(self, u, v, x):
        self.edges[u, v] = x
        if not self.directed:
            self.edges[v, u] = x

    def add_node(self, u):
        if u not in self.nodes:
            self.nodes.append(u)

    def change(self, c, key):
        k = c["c"]
        if k == "clear_edges":
            self.edges.clear()
            return
        u = key(c["u"])
        if k == "add_node":
            self.add_node(u)
        elif k == "remove_node":
            if u in self.nodes:
                self.nodes.remove(u)
                self.edges = {e: d for e, d in self.edges.items() if u not in e}
        else:
            v = key(c["v"])
            if k == "add_edge":
                self.add_node(u)
                self.add_node(v)
                self.put(u, v, {**self.edges.get((u, v), {}), **c["d"]})
            elif (u, v) in self.edges:
                d = dict(self.edges[u, v])
                if k == "remove_edge":
                    del self.edges[u, v]
                    self.edges.pop((v, u), None) if not self.directed else None
                    return
                if k == "set":
                    d[c["a"]] = c["x"]
                else:
                    d.pop(c["a"], None)
                self.put(u, v, d)


def values(m, attr):
    return M(m.directed, m.nodes, {e: d.get(attr, 1) if attr else 1 for e, d in m.edges.items()})


def attrs_of(m):
    return sorted({a for d in m.edges.values() for a in d})


def num(x):
    return x.item() if hasattr(x, "item") else x


def diff_ga(G, m, multi=False):
    nodes = list(G)
    if nodes != m.nodes:
        return f"nodes {nodes} instead of {m.nodes}"
    if len(G) != len(nodes) or G.number_of_nodes() != len(nodes) or G.order() != len(nodes):
        return f"number of nodes {len(G)}"
    if G.is_directed() != m.directed or G.is_multigraph() != multi:
        return "directedness"
    if any(k not in G for k in nodes) or ("no", "such node") in G:
        return "membership"
    A = G.matrix
    if type(A).__name__ == "TransposedMatrix":
        A = A.new()
    if A.nrows != len(nodes) or A.ncols != len(nodes):
        return f"matrix of shape {A.shape}"
    ids = [int(i) for i in G.list_to_ids(nodes)] if nodes else []
    if sorted(ids) != list(range(len(nodes))):
        return f"ids {ids}"
    back = dict(zip(ids, nodes))
    if G.id_to_key != back:
        return f"id_to_key {G.id_to_key}"
    r, c, x = A.to_coo()
    edges = {(back[i], back[j]): y for i, j, y in zip(r.tolist(), c.tolist(), x.tolist())}
    return diff_edges(edges, m.edges)


def diff_edges(a, b):
    if set(a) != set(b):
        return f"edges {sorted(map(str, set(a) ^ set(b)))[:4]} differ"
    for e in a:
        if num(a[e]) != num(b[e]):
            return f"edge {e}: {a[e]!r} instead of {b[e]!r}"
    return None


def diff_nx(G, m):
    if list(G) != m.nodes:
        return f"nodes {list(G)} instead of {m.nodes}"
    if G.is_directed() != m.directed or G.is_multigraph():
        return "directedness"
    edges = {(u, v): d for u, nb in G.adj.items() for v, d in nb.items()}
    if set(edges) != set(m.edges):
        return f"edges {sorted(map(str, set(edges) ^ set(m.edges)))[:4]} differ"
    for e, d in edges.items():
        w = m.edges[e]
        if set(d) != set(w) or any(num(d[a]) != num(w[a]) for a in d):
            return f"edge {e}: {d} instead of {w}"
    return None


# ---------------------------------------------------------------- generation
def gen(rng, seed):
    nids = rng.choice([3, 5, 6, 8, 9]) if rng.random() < 0.9 else 13
    kinds = {
        "weight": (rng.choice(["none", "int", "int", "float", "dyadic", "neg", "mixed", "one", "big", "zero", "bool"]), rng.choice([0, 0, 0.3])),
        "cap": (rng.choice(["none", "none", "int", "float"]), rng.choice([0, 0.3])),
    }
    k = rng.choice([1, 1, 2, 3])
    graphs = []
    first = rng.random() < 0.5
    for i in range(k):
        s = S.gen_graph(rng, nmax=nids, directed=first if not i or rng.random() < 0.6 else None, wkinds=["none"])
        graphs.append({"directed": s["directed"], "order": s["order"], "edges": [[u, v, data(rng, kinds)] for u, v, _ in s["edges"]]})
    scn = {"keys": W.gen_keys(rng), "graphs": graphs, "hist": []}
    pc = rng.choice([0.15, 0.35, 0.55])
    pf = rng.choice([0, 0, 0.1, 0.3])
    for _ in range(rng.randint(6, 20)):
        r = rng.random()
        if r < pc:
            c = change_step(rng, kinds, nids)
        else:
            kind = rng.choice(["into"] * 4 + ["back"] * 3 + ["within"] * 4 + ["probe"] * 2 + ["read", "view", "refuse", "attr", "multi"])
            c = {"k": kind, "s": rng.randrange(60)}
            if kind == "into":
                c.update(how=rng.choice(INTO), attr=rng.choice([None, "weight", "weight", "cap"]))
                if c["how"] in ("class", "to_graph") and rng.random() < 0.2:
                    c["dtype"] = rng.choice(["float64", "float64", "bool"])
            elif kind == "back":
                c.update(how=rng.choice(["method", "disp"]), attr=rng.choice(["weight", "weight", "cap", None]))
            elif kind == "within":
                c.update(how=rng.choice(WITHIN), t=rng.randrange(60), recip=rng.random() < 0.4)
                if rng.random() < 0.5:
                    c["pre"] = [rng.choice(PROPS + ("has_self_edges",) * 6 + ("A", "AT", "offdiag")) for _ in range(rng.randint(1, 3))]
            elif kind == "probe":
                c.update(how=rng.choice(PROBES), pick=[rng.randrange(60) for _ in range(rng.randint(0, 6))])
            elif kind == "read":
                c.update(prop=rng.choice(PROPS))
            elif kind == "view":
                c.update(how=rng.choice(["sub", "rev", "copy", "dir", "frozen"]), ns=[i for i in range(nids) if rng.random() < 0.7])
            elif kind == "refuse":
                c.update(how=rng.choice(REFUSE))
            elif kind == "multi":
                c.update(how=rng.choice(MULTI), attr=rng.choice([None, "weight"]), par=[rng.randint(0, 5) for _ in range(rng.randint(1, 7))])
            elif kind == "attr":
                c.update(a=rng.choice(["name", "tag"]), x=rng.choice(["one", "two"]))
            if kind in ("into", "back", "within", "probe", "read", "multi") and rng.random() < pf:
                c["fault"] = F.draw(rng)
        scn["hist"].append(c)
    return scn


def data(rng, kinds):
    d = {}
    for a, (k, pm) in kinds.items():
        if k != "none" and rng.random() >= pm:
            d[a] = draw(rng, k)
    return d


def draw(rng, k):
    if k == "zero":
        return rng.choice([0, 0, 1, 2])
    if k == "bool":
        return rng.random() < 0.7
    return P.draw_value(rng, k)


def change_step(rng, kinds, nids):
    c = {"k": "change", "s": rng.randrange(60), "u": rng.randrange(nids), "v": rng.randrange(nids)}
    c["c"] = rng.choice(["add_edge"] * 4 + ["add_node", "remove_node", "remove_edge", "remove_edge", "set", "set", "set", "del", "clear_edges"][: 9 if rng.random() < 0.2 else 8])
    a = rng.choice(P.ATTRS)
    kind = kinds[a][0] if kinds[a][0] != "none" else "int"
    if c["c"] == "add_edge":
        c["d"] = data(rng, kinds)
    elif c["c"] in ("set", "del"):
        c["a"] = a
        if c["c"] == "set":
            c["x"] = draw(rng, kind)
    if c["c"] in ("remove_edge", "set", "del") and rng.random() < 0.8:
        c["e"] = rng.randrange(60)  # one of the present edges
    return c


# ---------------------------------------------------------------- execution
class Slot:
    """One graph of the session: kind 'nx' (changeable), 'view' (of base), 'ga'."""

    def __init__(self, kind, obj, model, base=None):
        self.kind, self.obj, self.model, self.base = kind, obj, model, base
        self.attrs = copy.deepcopy(dict(obj.graph))


class Refused(Exception):
    pass


class Sim:
    def __init__(self, scn):
        self.keys = S.Keys(scn["keys"])
        self.slots = []
        for g in scn["graphs"]:
            m = M(g["directed"])
            for i in g["order"]:
                m.add_node(self.keys[i])
            for u, v, d in g["edges"]:
                m.put(self.keys[u], self.keys[v], dict(d))
            self.slots.append(Slot("nx", P.build(g, self.keys.__getitem__), m))

    def pick(self, c, *kinds, key="s", cond=None):
        xs = [s for s in self.slots if s.kind in kinds and (cond is None or cond(s))]
        return xs[c[key] % len(xs)] if xs else None

    # every method returns None or a description of what went wrong; may append a slot
    def step(self, c):
        return getattr(self, "do_" + c["k"])(c)

    def do_change(self, c):
        s = self.pick(c, "nx")
        if "e" in c and s.model.edges:
            u, v = list(s.model.edges)[c["e"] % len(s.model.edges)]
        else:
            u, v = self.keys[c["u"]], self.keys[c["v"]]
        ends = {"u": 0, "v": 1}
        key = (u, v).__getitem__
        P.change([s.obj], {**c, **ends, "s": 0}, key)
        s.model.change({**c, **ends}, key)

    def do_attr(self, c):
        s = self.pick(c, "nx", "ga")
        s.obj.graph[c["a"]] = c["x"]
        s.attrs[c["a"]] = c["x"]

    def do_view(self, c):
        import networkx as nx

        s = self.pick(c, "nx")
        G, how = s.obj, c["how"]
        ns = {self.keys[i] for i in c["ns"]} & set(s.model.nodes)
        if how == "sub":
            view = G.subgraph(ns)
        elif how == "rev" and G.is_directed():
            view = nx.reverse_view(G)
        elif how == "dir" and not G.is_directed():
            view = G.to_directed(as_view=True)
        elif how == "frozen":
            view = nx.freeze(G.copy())
            self.slots.append(Slot("view", view, copy.deepcopy(s.model)))
            return
        else:
            how = "copy"
            view = G.copy(as_view=True)
        x = Slot("view", view, None, s)
        x.how = (how, ns)
        self.slots.append(x)

    def model(self, s):
        """The model of a slot; that of a view follows its base."""
        if s.base is None:
            return s.model
        m = self.model(s.base)
        how, ns = s.how
        if how == "sub":
            # NetworkX may iterate a subgraph view in set order when it is small; only its own order counts
            nodes = [k for k in list(s.obj) if k in m.nodes]
            keep = [k for k in m.nodes if k in ns]
            if sorted(map(repr, nodes)) != sorted(map(repr, keep)):
                nodes = keep
            return M(m.directed, nodes, {e: d for e, d in m.edges.items() if e[0] in ns and e[1] in ns})
        if how == "rev":
            return M(True, m.nodes, {(v, u): d for (u, v), d in m.edges.items()})
        if how == "dir":
            return M(True, m.nodes, m.edges)
        return M(m.directed, m.nodes, m.edges)

    def do_into(self, c):
        import graphblas_algorithms as ga
        from graphblas_algorithms.classes.digraph import to_graph
        from graphblas_algorithms.interface import Dispatcher

        s = self.pick(c, "nx", "view")
        m, G, attr, how = self.model(s), s.obj, c["attr"], c["how"]
        want = values(m, attr)
        if not m.directed and any(u == v for u, v in m.edges) and (c.get("dtype") == "bool" or any(isinstance(x, (bool, np.bool_)) for d in m.edges.values() for x in d.values())):
            return  # NetworkX itself cannot build the array of an undirected graph with self-loops and bool values
        kw = {}
        if "dtype" in c:
            kw["dtype"] = c["dtype"]
            if c["dtype"] == "bool":
                want.edges = {e: bool(x) for e, x in want.edges.items()}
        if how == "class":
            R = (ga.DiGraph if m.directed else ga.Graph).from_networkx(G, weight=attr, **kw)
        elif how == "to_graph":
            R = to_graph(G, weight=attr, **kw)
        elif how == "preserve":
            names = attrs_of(m)
            want = values(m, names[0] if names else None)
            try:
                R = Dispatcher.convert_from_nx(G, preserve_edge_attrs=True)
            except NotImplementedError:
                if len(names) > 1:
                    return None
                raise
            if len(names) > 1:
                return f"several edge attributes {names} were not refused"
        else:
            kw = {"preserve_graph_attrs": True} if how == "disp_graphattrs" else {}
            if attr is not None:
                kw["edge_attrs"] = {attr: 1}
            R = Dispatcher.convert_from_nx(G, name="x", graph_name="G", **kw)
            if how == "disp_graphattrs" and dict(R.graph) != dict(G.graph):
                return f"graph attributes {R.graph} instead of {G.graph}"
        if type(R) is not (ga.DiGraph if m.directed else ga.Graph):
            return f"converted to {type(R).__name__}"
        self.slots.append(Slot("ga", R, want))

    def do_back(self, c):
        from graphblas_algorithms.interface import Dispatcher

        s = self.pick(c, "ga")
        if s is None:
            return
        attr = c["attr"]
        if c["how"] == "disp":
            attr, H = "weight", Dispatcher.convert_to_nx(s.obj, name="x")
        else:
            H = s.obj.to_networkx() if attr == "weight" else s.obj.to_networkx(edge_attribute=attr)
        m = s.model
        self.slots.append(Slot("nx", H, M(m.directed, m.nodes, {e: {attr: x} if attr else {} for e, x in m.edges.items()})))

    def do_within(self, c):
        import graphblas_algorithms as ga
        from graphblas_algorithms.interface import Dispatcher as D

        how = c["how"]
        s = self.pick(c, "ga", cond=(lambda x: x.model.directed) if how in ("reverse", "nx_reverse", "to_undirected") else None)
        if s is None:
            return
        G, m = s.obj, s.model
        for prop in c.get("pre", ()):
            read(G, prop)
        n = len(m.nodes)
        two = how in ("compose", "union", "disjoint_union", "intersection", "difference", "symmetric_difference", "full_join")
        if two:
            t = self.pick(c, "ga", key="t", cond=lambda x: x.model.directed == m.directed)
            H, h = t.obj, t.model
            if not m.nodes or not h.nodes:
                return  # graphs without nodes are outside what NetworkX and the backend agree on
        refused = None
        if how in ("reverse", "nx_reverse"):
            R = G.reverse() if how == "reverse" else D.reverse(G)
            if dict(R.graph) != dict(G.graph):
                return f"graph attributes {R.graph} instead of {G.graph}"
            want = M(True, m.nodes, {(v, u): x for (u, v), x in m.edges.items()})
        elif how == "to_undirected":
            R = G.to_undirected(reciprocal=c["recip"])
            want = M(False, m.nodes)
            for (u, v), x in m.edges.items():
                if not c["recip"] or (v, u) in m.edges:
                    want.edges[u, v] = want.edges[v, u] = x
            d = diff_ga(R, M(False, m.nodes, {e: 1 for e in want.edges})) if not want.edges else None
            if d:
                return d
            # of two values either may be kept, the same one for both directions
            got = matrix_edges(R)
            for e, x in got.items():
                ok = [m.edges[f] for f in (e, e[::-1]) if f in m.edges]
                if e in want.edges and num(x) in [num(y) for y in ok] and num(got.get(e[::-1])) == num(x):
                    want.edges[e] = x
        elif how == "rebuild":
            A = G.matrix.dup()
            keys = dict(zip(m.nodes, [int(i) for i in G.list_to_ids(m.nodes)] if n else []))
            R = type(G)(A, key_to_id=keys, **G.graph)
            want = M(m.directed, m.nodes, m.edges)
        elif how == "from_matrix":
            R = type(G)(G.matrix.dup())
            ids = dict(zip(m.nodes, [int(i) for i in G.list_to_ids(m.nodes)] if n else []))
            want = M(m.directed, range(n), {(ids[u], ids[v]): x for (u, v), x in m.edges.items()})
        elif how == "complement":
            R = D.complement(G)
            want = M(m.directed, m.nodes, {(u, v): 1 for u in m.nodes for v in m.nodes if u != v and (u, v) not in m.edges})
        elif how == "compose":
            R = D.compose(G, H)
            want = M(m.directed, m.nodes + [k for k in h.nodes if k not in m.nodes], {**m.edges, **h.edges})
        elif how in ("union", "full_join"):
            fn = D.union if how == "union" else D.full_join
            if c["recip"]:
                R = fn(G, H, rename=["G", "H"])
                ren = lambda x, p: M(x.directed, [f"{p}{k}" for k in x.nodes], {(f"{p}{u}", f"{p}{v}"): y for (u, v), y in x.edges.items()})  # noqa: E731
                a, b = ren(m, "G"), ren(h, "H")
            else:
                a, b = m, h
                if set(a.nodes) & set(b.nodes):
                    refused = "overlapping nodes"
                try:
                    R = fn(G, H)
                except Exception as e:
                    if refused and type(e).__name__ == "NetworkXError":
                        return None
                    raise
                if refused:
                    return f"{refused} not refused"
            want = M(m.directed, a.nodes + b.nodes, {**a.edges, **b.edges})
            if how == "full_join":
                for u in a.nodes:
                    for v in b.nodes:
                        want.edges[u, v] = want.edges[v, u] = 1
        elif how == "disjoint_union":
            R = D.disjoint_union(G, H)
            pa = {k: i for i, k in enumerate(m.nodes)}
            pb = {k: i + n for i, k in enumerate(h.nodes)}
            want = M(m.directed, range(n + len(h.nodes)), {**{(pa[u], pa[v]): x for (u, v), x in m.edges.items()}, **{(pb[u], pb[v]): x for (u, v), x in h.edges.items()}})
        else:
            if how != "intersection" and set(m.nodes) != set(h.nodes):
                try:
                    getattr(D, how)(G, H)
                except Exception as e:
                    if type(e).__name__ == "NetworkXError":
                        return None
                    raise
                return f"different node sets not refused by {how}"
            R = getattr(D, how)(G, H)
            nodes = [k for k in m.nodes if k in h.nodes]
            if how == "intersection":
                es = set(m.edges) & set(h.edges)
            elif how == "difference":
                es = set(m.edges) - set(h.edges)
            else:
                es = set(m.edges) ^ set(h.edges)
            want = M(m.directed, nodes, {e: 1 for e in es})
        if type(R) is not (ga.DiGraph if want.directed else ga.Graph):
            return f"{how} gives {type(R).__name__}"
        self.slots.append(Slot("ga", R, want))

    def do_read(self, c):
        s = self.pick(c, "ga")
        if s is None:
            return
        read(s.obj, c["prop"])

    def do_multi(self, c):
        """A multigraph: the edges of one of the client's graphs, some of them several times."""
        import networkx as nx

        import graphblas_algorithms as ga
        from graphblas_algorithms.classes.digraph import to_graph
        from graphblas_algorithms.interface import Dispatcher

        s = self.pick(c, "nx", "view")
        m, attr, how = self.model(s), c["attr"], c["how"]
        X = (nx.MultiDiGraph if m.directed else nx.MultiGraph)()
        X.add_nodes_from(m.nodes)
        want = M(m.directed, m.nodes)
        for j, (u, v) in enumerate(m.edges):
            if not m.directed and (v, u) in want.edges:
                continue
            xs = [c["par"][(j + i) % len(c["par"])] for i in range(c["par"][j % len(c["par"])] % 3 + 1)]
            X.add_weighted_edges_from((u, v, x) for x in xs)
            want.put(u, v, sum(xs) if attr else len(xs))
        if how == "to_graph":
            R = to_graph(X, weight=attr)
            self.slots.append(Slot("ga", R, want))
            return None
        if how == "class":
            R = (ga.MultiDiGraph if m.directed else ga.MultiGraph).from_networkx(X, weight=attr)
        else:
            R = Dispatcher.convert_from_nx(X, edge_attrs={attr: 1} if attr else None)
        if type(R) is not (ga.MultiDiGraph if m.directed else ga.MultiGraph):
            return f"converted to {type(R).__name__}"
        return diff_ga(R, want, multi=True)

    def do_probe(self, c):
        from graphblas import Vector

        s = self.pick(c, "ga")
        if s is None or not s.model.nodes:
            return
        G, m, how = s.obj, s.model, c["how"]
        n = len(m.nodes)
        ns = list(dict.fromkeys(m.nodes[i % n] for i in c["pick"]))
        val = {k: 1.5 * i + 1 for i, k in enumerate(ns)}
        pos = {k: i for i, k in enumerate(ids_of(G, m))}
        if how == "dict" and ns:
            v = G.dict_to_vector(val)
            return neq(how, G.vector_to_dict(v), val) or neq("size", v.size, n)
        if how == "fill" and ns:
            v = G.dict_to_vector(val)
            return neq(how, G.vector_to_dict(v, fill_value=0.25), {k: val.get(k, 0.25) for k in m.nodes})
        if how == "nodemap" and ns:
            x = G.vector_to_nodemap(G.dict_to_vector(val))
            return neq(how, dict(x.items()), val) or neq("missing key", [k in x for k in m.nodes], [k in val for k in m.nodes])
        if how == "list":
            v = G.list_to_vector(ns)
            return neq(how, G.vector_to_list(v), sorted(ns, key=pos.__getitem__))
        if how == "set":
            v = G.set_to_vector({*ns, ("no", "such node")}, ignore_extra=True)
            return neq(how, G.vector_to_set(v), set(ns))
        if how == "nodeset":
            x = G.vector_to_nodeset(G.set_to_vector(set(ns)))
            return neq(how, set(x), set(ns)) or neq("len", len(x), len(ns)) or neq("missing key", [k in x for k in m.nodes], [k in ns for k in m.nodes])
        if how == "ids":
            return neq(how, G.list_to_keys(G.list_to_ids(ns)), ns)
        adj = {}
        for (u, v), x in m.edges.items():
            adj.setdefault(u, {})[v] = num(x)
        if how == "matrix":
            tr = {}
            for (u, v), x in m.edges.items():
                tr.setdefault(v, {})[u] = num(x)
            A = G.matrix
            if type(A).__name__ == "TransposedMatrix":
                return
            d = neq(how, G.matrix_to_dicts(A), adj) or neq("transposed", G.matrix_to_dicts(A.T), tr)
            ix = dict(zip(m.nodes, [int(i) for i in G.list_to_ids(m.nodes)]))
            for name, B, want in (("plain", A, adj), ("transposed", A.T, tr)):
                d = d or neq(f"{name} row index", G.matrix_to_dicts(B, use_row_index=True), {ix[u]: e for u, e in want.items()})
                want = {u: {ix[v]: x for v, x in e.items()} for u, e in want.items()}
                d = d or neq(f"{name} column index", G.matrix_to_dicts(B, use_column_index=True), want)
                d = d or neq(f"{name} both", G.matrix_to_dicts(B, use_row_index=True, use_column_index=True), {ix[u]: e for u, e in want.items()})
            return d
        A = G.matrix.dup()
        if how == "nodenodemap":
            x = G.matrix_to_nodenodemap(A)
            return neq(how, {k: dict(y.items()) for k, y in x.items()}, adj)
        if how == "vectornodemap":
            x = G.matrix_to_vectornodemap(A)
            ix = {k: i for k, i in zip(m.nodes, [int(i) for i in G.list_to_ids(m.nodes)])}
            return neq(how, {k: dict(y.items()) for k, y in x.items()}, {u: {ix[v]: w for v, w in d.items()} for u, d in adj.items()})

    def do_refuse(self, c):
        import graphblas as gb

        import graphblas_algorithms as ga
        from graphblas_algorithms.interface import Dispatcher as D

        how = c["how"]
        s = self.pick(c, "nx")
        G, m = s.obj, s.model
        undo = None
        try:
            if how == "two_attrs":
                D.convert_from_nx(G, edge_attrs={"weight": 1, "cap": 1})
            elif how == "default":
                D.convert_from_nx(G, edge_attrs={"weight": 5})
            elif how == "node_attrs":
                D.convert_from_nx(G, node_attrs={"color": None})
            elif how == "node_data":
                if not m.nodes:
                    return
                G.nodes[m.nodes[0]]["color"] = 1
                undo = lambda: G.nodes[m.nodes[0]].clear()  # noqa: E731
                D.convert_from_nx(G, preserve_node_attrs=True)
            elif how == "bad_type":
                D.convert_from_nx({1: [2]})
            elif how == "nonsquare":
                (ga.DiGraph if m.directed else ga.Graph)(gb.Matrix(int, 2, 3))
            elif how == "wrong_class":
                ga.Graph([[0, 1], [1, 0]])
            elif how == "bad_value":
                if not m.edges:
                    return
                (u, v), d = next(iter(m.edges.items()))
                old = dict(d)
                G[u][v]["weight"] = "x"

                def undo():
                    G[u][v].clear()
                    G[u][v].update(old)

                D.convert_from_nx(G, edge_attrs={"weight": 1})
        except F.INJECTED:
            raise
        except (NotImplementedError, TypeError, ValueError):
            return None
        finally:
            if undo:
                undo()
        return f"{how} was not refused"

    def check(self):
        for i, s in enumerate(self.slots):
            d = diff_ga(s.obj, s.model) if s.kind == "ga" else diff_nx(s.obj, self.model(s))
            if d is None and s.base is None and dict(s.obj.graph) != s.attrs:
                d = f"graph attributes {s.obj.graph} instead of {s.attrs}"
            if d:
                return f"graph {i} ({s.kind}): {d}"
        return None


def read(G, prop):
    try:
        G.get_property(prop)
    except (KeyError, TypeError):
        pass  # not defined for this kind of graph, or not for boolean values


def ids_of(G, m):
    ids = [int(i) for i in G.list_to_ids(m.nodes)]
    return [k for _, k in sorted(zip(ids, m.nodes), key=lambda p: p[0])]


def matrix_edges(R):
    nodes = list(R)
    back = dict(zip([int(i) for i in R.list_to_ids(nodes)] if nodes else [], nodes))
    r, c, x = R.matrix.to_coo()
    return {(back[i], back[j]): y for i, j, y in zip(r.tolist(), c.tolist(), x.tolist())}


def neq(what, a, b):
    return None if a == b else f"{what}: {a!r} instead of {b!r}"


def _count(sim, c):
    with F.Counter() as k:
        try:
            sim.step(c)
        except Exception:
            pass
    return k.lines, k.calls


def execute(scn, record=None):
    st = {"ops": 0, "checks": 0, "opnames": {}, "probes": {}, "states": [], "faults": {}}
    sim = Sim(scn)
    v = None
    log = []
    for i, c in enumerate(scn["hist"]):
        label = c["k"] + ("_" + c["how"] if "how" in c else "_" + c["c"] if "c" in c else "")
        st["ops"] += 1
        st["opnames"][label] = st["opnames"].get(label, 0) + 1
        fault = c.get("fault")
        n = len(sim.slots)
        hit = False
        try:
            with seams.Budget(W.LINE_BUDGET):
                if fault:
                    lines, ncalls = harness.sub(_count, sim, c) if "k" not in fault else (0, 0)
                    k = F.resolve(fault, lines, ncalls)
                    if record is not None:
                        record[i] = k
                    try:
                        with F.Armed(fault, k) as armed:
                            d = sim.step(c)
                    finally:
                        hit = armed.fired
                else:
                    d = sim.step(c)
            log.append([label, d])
        except Crash as e:
            v = {"cls": "crash", "msg": f"step {i} {label}: {e}"}
            break
        except F.EXCS as e:
            del sim.slots[n:]
            log.append([label, type(e).__name__])
            d = None
            if not (hit and isinstance(e, F.INJECTED)):
                v = {"cls": "conversion-raises", "msg": f"step {i} {label}: {type(e).__name__}: {str(e)[:200]}"}
                break
        if hit:
            kind = f"{fault['exc']}@{fault['at']}"
            st["faults"][kind] = st["faults"].get(kind, 0) + 1
        st["states"].append(harness.digest_of([label, [s.kind for s in sim.slots], hit and fault["at"]]))
        st["checks"] += len(sim.slots)
        if d:
            v = {"cls": "unfaithful", "msg": f"step {i} {label}: {d}"}
            break
        d = sim.check()
        if d:
            v = {"cls": "unfaithful" if d.startswith(f"graph {n} ") and len(sim.slots) > n else "changed", "msg": f"step {i} {label}: {d}"}
            break
    conv = sum(x[0].split("_")[0] in ("into", "back", "within") for x in log)
    st["nontrivial"] = conv >= 2
    st["sample"] = [x[0] for x in log]
    st["lines"], st["calls"] = seams.S.lines, seams.S.calls
    return {"v": v, "digest": harness.digest_of([scn["hist"], log, v]), "st": st}


def explicit(scn):
    rec = {}
    seams.reset()
    execute(scn, rec)
    h = []
    for i, c in enumerate(scn["hist"]):
        if i in rec:
            c = {**c, "fault": {**{k: v for k, v in c["fault"].items() if k != "u"}, "k": rec[i]}}
        h.append(c)
    return {**scn, "hist": h}


def shrink(scn):
    yield from W.shrink_steps(scn)
    h = scn["hist"]
    for i, c in enumerate(h):
        if "fault" in c:
            yield {**scn, "hist": h[:i] + [{k: v for k, v in c.items() if k != "fault"}] + h[i + 1 :]}
        for key in ("s", "t"):
            for x in range(min(c.get(key, 0), 4)):
                yield {**scn, "hist": h[:i] + [{**c, key: x}] + h[i + 1 :]}
        if "pre" in c:
            yield {**scn, "hist": h[:i] + [{k: v for k, v in c.items() if k != "pre"}] + h[i + 1 :]}
        for j in range(len(c.get("pre", ()))):
            if len(c["pre"]) > 1:
                yield {**scn, "hist": h[:i] + [{**c, "pre": c["pre"][:j] + c["pre"][j + 1 :]}] + h[i + 1 :]}
        for j in range(len(c.get("pick", ()))):
            yield {**scn, "hist": h[:i] + [{**c, "pick": c["pick"][:j] + c["pick"][j + 1 :]}] + h[i + 1 :]}
    for cand in P.shrink({**scn, "hist": []}):
        yield {**cand, "hist": h}
    if len(scn["graphs"]) > 1:
        for gi in range(len(scn["graphs"])):
            yield {**scn, "graphs": scn["graphs"][:gi] + scn["graphs"][gi + 1 :]}
