"""Shared workload pieces: the client's graphs, drawing operations, running and judging them."""
from . import calls, canon as C, ref, spec as S
from .ops import MIXED, OPS, lca_pairs

SEMANTIC = {"Graph.to_undirected", "bellman_ford_path", "floyd_warshall_predecessor_and_distance", "lowest_common_ancestor", "edge_boundary"}
LINE_BUDGET = 1_500_000

NAMES = sorted(OPS)
NEWGRAPH = [n for n in NAMES if "newgraph" in OPS[n].tags]
LAZY = [n for n in NAMES if OPS[n].lazy]


def gen_keys(rng):
    return rng.choice(S.KEY_KINDS)


def sibling(rng, a):
    """A graph much like another one: its nodes renamed among themselves, or the same in another order, perhaps an edge short."""
    n = a["n"]
    perm = list(range(n))
    if rng.random() < 0.6:
        rng.shuffle(perm)
    edges = [[perm[u], perm[v], w] if a["directed"] or perm[u] <= perm[v] else [perm[v], perm[u], w] for u, v, w in a["edges"]]
    if edges and rng.random() < 0.3:
        edges.pop(rng.randrange(len(edges)))
    for _ in range(rng.choice([0, 0, 1, 2, 4])):  # exchange the ends of two edges: the degrees stay
        if len(edges) > 1:
            i, j = rng.sample(range(len(edges)), 2)
            (u, v, w), (x, y, z) = edges[i], edges[j]
            es = {(p, q) for p, q, _ in edges} | (set() if a["directed"] else {(q, p) for p, q, _ in edges})
            if len({u, v, x, y}) == 4 and (u, y) not in es and (x, v) not in es:
                edges[i], edges[j] = [u, y, w], [x, v, z]
                if not a["directed"]:
                    edges[i][:2], edges[j][:2] = sorted((u, y)), sorted((x, v))
    order = list(range(n))
    rng.shuffle(order)
    return {**a, "edges": edges, "order": order}


def gen_specs(rng, k=2, **kw):
    out = []
    for i in range(k):
        d = None
        if i and rng.random() < 0.6:
            d = out[0]["directed"]
        kw2 = dict(kw)
        if i and d is not None and rng.random() < 0.7 and "wkinds" not in kw:
            kw2["wkinds"] = [out[0]["wk"]]
        if d is not None:
            kw2["directed"] = d
        s = S.gen_graph(rng, **kw2)
        if i and rng.random() < 0.15:
            s = sibling(rng, out[0])
        s["how"] = rng.choice(["nx", "nx", "direct"])
        out.append(s)
    return out


def gen_op(rng, specs, *, names=None, slot=None, routes=("ga",)):
    """A random operation instance on the given specs, or None."""
    for _ in range(30):
        name = rng.choice(names or NAMES)
        i = slot if slot is not None else rng.randrange(len(specs))
        s = specs[i]
        if s["directed"] and rng.random() < 0.08 and "lowest_common_ancestor" in (names or NAMES) and lca_pairs(s):
            name = "lowest_common_ancestor"  # few graphs leave it a choice
        op = OPS[name]
        if op.d == "u" and s["directed"] or op.d == "d" and not s["directed"]:
            if rng.random() > 0.02:
                continue
        g = [i]
        if op.ng == 2:
            same = [j for j, t in enumerate(specs) if t["directed"] == s["directed"]]
            g.append(rng.choice(same) if name not in MIXED or rng.random() > 0.08 else rng.randrange(len(specs)))
        p = op.gen(rng, s)
        inst = {"f": name, "g": g, "p": p}
        if len(routes) > 1:
            r = rng.choice(routes)
            if "nodispatch" in op.tags:
                r = "ga"
            inst["r"] = r
        return inst
    return {"f": "transitivity", "g": [0], "p": {}}


# property reads: what a client can ask a graph for by name
PROPS_BOTH = [
    "A", "AT", "offdiag", "U+", "U-", "L+", "L-", "diag", "has_self_edges", "is_iso", "iso_value",
    "has_negative_diagonal", "has_negative_edges+", "has_negative_edges-",
    "degrees+", "degrees-", "row_degrees+", "row_degrees-", "column_degrees+", "column_degrees-",
    "count_rowwise+", "count_rowwise-", "plus_rowwise+", "plus_rowwise-", "plus_columnwise+", "plus_columnwise-",
    "max_rowwise-", "min_rowwise+", "max_element+", "max_element-", "min_element+", "min_element-",
    "plus_element+", "plus_element-", "min_diagonal", "max_diagonal", "plus_diagonal",
]
PROPS_D = ["total_degrees+", "total_degrees-", "recip_degrees+", "recip_degrees-", "total_recip+", "total_recip-"]
MASKABLE = {n for n in PROPS_BOTH + PROPS_D if "degrees" in n or "wise" in n or n == "diag"}


# operations that read or fill derived data of the graph
CACHED = [n for n in NAMES if any(t in n for t in (
    "clustering", "triangles", "transitivity", "degree", "reciprocity", "regular", "isolate", "pagerank", "katz", "matrix",
    "bellman", "negative", "floyd", "isomorphic", "volume", "conductance", "boundary", "tournament", "score", "k_truss", "s_metric"))]


# what the functions of one family may find already derived
DEG = ["degrees+", "degrees-", "row_degrees+", "row_degrees-", "column_degrees+", "column_degrees-", "total_degrees+", "total_degrees-",
       "has_self_edges", "diag", "offdiag", "count_rowwise+", "count_rowwise-"]
FAMILIES = [
    (["clustering", "triangles", "square_clustering", "generalized_degree", "average_clustering", "transitivity", "k_truss"],
     DEG + ["L-", "U-", "L+", "U+", "AT", "recip_degrees+", "recip_degrees-", "max_element-", "max_element+", "max_rowwise-"]),
    (["reciprocity", "overall_reciprocity", "is_tournament", "is_triad", "score_sequence"],
     DEG + ["recip_degrees+", "recip_degrees-", "total_recip+", "total_recip-", "AT"]),
    (["degree_centrality", "in_degree_centrality", "out_degree_centrality", "is_isolate", "isolates", "number_of_isolates", "is_regular",
      "is_k_regular", "volume", "conductance", "edge_boundary", "node_boundary", "s_metric", "fast_could_be_isomorphic",
      "faster_could_be_isomorphic", "inter_community_edges", "intra_community_edges", "normalized_cut_size"], DEG + ["min_diagonal"]),
    (["single_source_bellman_ford_path_length", "bellman_ford_path", "bellman_ford_path_length", "all_pairs_bellman_ford_path_length",
      "negative_edge_cycle", "floyd_warshall", "floyd_warshall_predecessor_and_distance", "ego_graph"],
     ["is_iso", "iso_value", "has_negative_edges+", "has_negative_edges-", "has_negative_diagonal", "min_element+", "min_element-", "max_element+",
      "min_diagonal", "max_diagonal", "has_self_edges", "diag", "offdiag", "U-", "L-", "degrees-", "row_degrees-", "column_degrees-"]),
    (["pagerank", "google_matrix", "katz_centrality", "eigenvector_centrality", "laplacian_matrix", "normalized_laplacian_matrix",
      "bethe_hessian_matrix", "modularity_matrix", "directed_modularity_matrix"],
     ["plus_rowwise+", "plus_rowwise-", "plus_columnwise+", "plus_columnwise-", "is_iso", "iso_value", "degrees+", "row_degrees+", "row_degrees-",
      "column_degrees+", "has_self_edges", "diag", "count_rowwise+", "plus_element+"]),
]


def gen_family(rng, specs):
    """Questions of one family: its functions and what they may find already derived."""
    d = specs[0]["directed"]
    fs, props = rng.choice(FAMILIES)
    fs = [f for f in fs if OPS[f].d in ("both", "d" if d else "u")]
    props = [x for x in props if d or x not in PROPS_D]
    calls_ = []
    for f in rng.sample(fs, min(len(fs), rng.randint(1, 2))) if fs else []:
        calls_ += [gen_op(rng, specs, slot=0, names=[f]) for _ in range(rng.randint(1, 4))]
    props = rng.sample(props, min(len(props), rng.randint(2, 6)))
    reads = []
    for x in props:
        reads.append({"prop": x, "g": [0]})
        if x in MASKABLE and rng.random() < 0.3:
            reads.append({"prop": x, "g": [0], "mask": rng.sample(range(specs[0]["n"]), rng.randint(0, specs[0]["n"]))})
    return calls_, reads


def gen_prop_read(rng, specs, slot=None, pool=None):
    i = slot if slot is not None else rng.randrange(len(specs))
    s = specs[i]
    maskable = [x for x in pool or PROPS_BOTH + PROPS_D if x in MASKABLE and (s["directed"] or x not in PROPS_D)]
    pool = pool or PROPS_BOTH + (PROPS_D * 2 if s["directed"] else [])
    r = rng.random()
    if r < 0.25 and s["n"] and maskable:
        m = rng.choice(maskable)
        return {"prop": m, "g": [i], "mask": rng.sample(range(s["n"]), rng.randint(0, s["n"]))}
    if r < 0.55:
        return {"props": rng.sample(pool, min(len(pool), rng.randint(2, 4))), "g": [i]}
    return {"prop": rng.choice(pool), "g": [i]}


class World:
    def __init__(self, scn):
        self.keys = S.Keys(scn["keys"])
        self.specs = list(scn["graphs"])
        self.nx = {}
        self.ga = {}

    def nxg(self, i):
        if i not in self.nx:
            self.nx[i] = S.to_nx(self.specs[i], self.keys)
        return self.nx[i]

    def gag(self, i):
        if i not in self.ga:
            self.ga[i] = self.build(i)
        return self.ga[i]

    def build(self, i):
        s = self.specs[i]
        if "dt" in s:
            return S.to_ga_direct(s, self.keys, dtype=s["dt"])
        if s.get("how") == "direct":
            return S.to_ga_direct(s, self.keys)
        return S.to_ga(s, self.keys, S.to_nx(s, self.keys))

    def fresh(self):
        w = World.__new__(World)
        w.keys, w.specs, w.nx, w.ga = self.keys, self.specs, {}, {}
        return w

    # -- graphs that algorithms return become graphs of the session
    def adopt(self, raw):
        """New slot for a result; its spec is None when the graph cannot be described by this run's keys."""
        import graphblas_algorithms as ga

        spec = None
        if isinstance(raw, ga.Graph) and len(raw):
            c = C.canon(raw, self.keys)
            if all(x[0] == "@" for x in c[2]) and len(set(c[2])) == len(c[2]):
                order = [int(x[1:]) for x in c[2]]
                edges = []
                for k, x in c[3].items():
                    u, v = (int(y[1:]) for y in k.split(">"))
                    if c[1] or u <= v:
                        edges.append([u, v, x])
                ints = all(isinstance(x, int) for _, _, x in edges)
                spec = {"directed": c[1], "n": len(order), "order": order, "edges": sorted(edges),
                        "wk": "negint" if ints else "negfloat", "dt": raw.matrix.dtype.np_type.name, "derived": True}
        self.specs.append(spec)
        if spec is not None:
            self.ga[len(self.specs) - 1] = raw
        return spec

    def usable(self, inst):
        return all(i < len(self.specs) and self.specs[i] is not None for i in inst["g"])

    def run_keep(self, inst):
        """Run a step whose graph result stays in the session."""
        op = OPS[inst["f"]]
        try:
            raw = calls.ga_func(op)(*[self.gag(i) for i in inst["g"]], **calls.decode_params(inst["p"], self.keys))
        except (Exception, calls.seams.BudgetExceeded) as e:
            self.specs.append(None)
            return C.canon(C.Exc(e), self.keys)
        self.adopt(raw)
        return calls.finish(op, raw, self.keys, inst["p"])

    # -- running one step; returns a canonical outcome
    def run(self, inst):
        if inst.get("keep"):
            return self.run_keep(inst)
        if "f" in inst:
            op = OPS[inst["f"]]
            route = inst.get("r", "ga")
            Gs = [self.nxg(i) if route == "nxback" else self.gag(i) for i in inst["g"]]
            return calls.call_ga(op, Gs, inst["p"], self.keys, route)
        return self.read(inst)

    def read(self, inst):
        G = self.gag(inst["g"][0])
        try:
            if "props" in inst:
                vals = G.get_properties(" ".join(inst["props"]))
                return ["list", [prop_canon(n, v) for n, v in zip(inst["props"], vals)]]
            if "mask" in inst:
                mask = G.list_to_mask([self.keys[i] for i in inst["mask"]])
                return prop_canon(inst["prop"], G.get_property(inst["prop"], mask=mask))
            return prop_canon(inst["prop"], G.get_property(inst["prop"]))
        except Exception as e:
            return C.canon(C.Exc(e), self.keys)

    def want(self, inst):
        if "f" not in inst:
            return None
        op = OPS[inst["f"]]
        specs = [self.specs[i] for i in inst["g"]]
        if any("derived" in s for s in specs):
            return None
        return ref.want(op, specs, inst["p"], self.keys, inst.get("r", "ga"))

    def same(self, inst, a, b):
        """Do two answers of the code under test to the same question agree?"""
        if "f" not in inst:
            if "g" in inst and "derived" in self.specs[inst["g"][0]]:
                # whether the engine notices that all values are equal depends on how they came about
                a, b = (no_iso(inst, x) for x in (a, b))
            return C.diff(a, b, 1e-9, 1e-9)
        op = OPS[inst["f"]]
        specs = [self.specs[i] for i in inst["g"]]
        route = inst.get("r", "ga")
        if op.name in SEMANTIC:
            w = self.want(inst)
            if w is not None:
                return ref.agree(op, specs, inst["p"], self.keys, a, w, route) or ref.agree(
                    op, specs, inst["p"], self.keys, b, w, route
                )
            if op.name != "edge_boundary":
                return None if (a[0] == "exc") == (b[0] == "exc") else f"{C.short(a)} vs {C.short(b)}"
            und = not specs[0]["directed"]
            if und and a[0] == "set" == b[0]:
                f = lambda x: sorted({">".join(sorted(e.split(">"))) for e in x[1]})  # noqa: E731
                return None if f(a) == f(b) else f"{f(a)} vs {f(b)}"
        rt, at = op.tol
        return C.diff(a, b, max(rt, 1e-9), max(at, 1e-9))

    def judge_ref(self, inst, got, want):
        op = OPS[inst["f"]]
        return ref.agree(op, [self.specs[i] for i in inst["g"]], inst["p"], self.keys, got, want, inst.get("r", "ga"))

    def content(self, i):
        """Nodes, edges and weights of slot i now, through public attributes."""
        return C.canon(self.gag(i), self.keys)

    def content_want(self, i):
        s = self.specs[i]
        names = [f"@{k}" for k in s["order"]]
        edges = {}
        for u, v, w in s["edges"]:
            if s["wk"] == "none":
                w = 1
            edges[f"@{u}>@{v}"] = w
            if not s["directed"]:
                edges[f"@{v}>@{u}"] = w
        return ["graph", s["directed"], names, edges]


def no_iso(inst, a):
    if "props" in inst and a[0] == "list":
        return ["list", [["none"] if n in ("is_iso", "iso_value") else x for n, x in zip(inst["props"], a[1])]]
    return ["none"] if inst.get("prop") in ("is_iso", "iso_value") and a[0] != "exc" else a


def prop_canon(name, v):
    """Values of named properties: matrices/vectors as sparse maps without explicit zeros where zeros
    carry no meaning (counts and sums)."""
    import graphblas as gb

    drop0 = "degrees" in name or name.startswith(("count_", "plus_"))
    if v is None:
        return ["none"]
    t = type(v).__name__
    if isinstance(v, gb.Matrix) or t == "TransposedMatrix":
        if t == "TransposedMatrix":
            v = v.new()
        r, c, x = v.to_coo()
        return ["map", {f"{i},{j}": ["num", C._num(y)] for i, j, y in zip(r.tolist(), c.tolist(), x.tolist())}]
    if isinstance(v, gb.Vector):
        i, x = v.to_coo()
        return ["map", {str(k): ["num", C._num(y)] for k, y in zip(i.tolist(), x.tolist()) if y or not drop0}]
    if isinstance(v, gb.Scalar):
        if v.is_empty:
            return ["num", 0] if drop0 else ["none"]
        return ["num", C._num(v.value)]
    return ["num", C._num(v)]


# ---------------------------------------------------------------- shrinking
def shrink_steps(scn, key="hist"):
    h = scn[key]
    n = len(h)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield {**scn, key: h[:i] + h[i + k :]}
        k //= 2


def shrink_graphs(scn):
    for gi, s in enumerate(scn["graphs"]):
        for t in S.shrink_graph(s):
            if t["n"] < s["n"] and uses_node(scn, t["n"]):
                continue
            t = {**t, "how": s.get("how", "nx")}
            yield {**scn, "graphs": scn["graphs"][:gi] + [t] + scn["graphs"][gi + 1 :]}
    if scn["keys"] != "str":
        yield {**scn, "keys": "str"}


def uses_node(scn, n):
    import json

    txt = json.dumps({k: v for k, v in scn.items() if k != "graphs"})
    return f'"n": {n}' in txt or f" {n}," in txt or f"[{n}" in txt or f" {n}]" in txt


def shrink_params(scn, key="hist"):
    for i, inst in enumerate(scn[key]):
        if not isinstance(inst, dict) or "p" not in inst:
            continue
        req = {q.name for q in OPS[inst["f"]].params if not q.opt}
        for name in inst["p"]:
            if name not in req:
                p = {k: v for k, v in inst["p"].items() if k != name}
                yield {**scn, key: scn[key][:i] + [{**inst, "p": p}] + scn[key][i + 1 :]}
            v = inst["p"][name]
            if isinstance(v, dict) and "ns" in v and len(v["ns"]) > 1:
                for j in range(len(v["ns"])):
                    p = {**inst["p"], name: {**v, "ns": v["ns"][:j] + v["ns"][j + 1 :]}}
                    yield {**scn, key: scn[key][:i] + [{**inst, "p": p}] + scn[key][i + 1 :]}


def late_slot(rng, specs, graphs):
    """Prefer graphs that operations returned, when there are any."""
    if len(specs) > len(graphs) and rng.random() < 0.5:
        return rng.randrange(len(graphs), len(specs))
    return rng.randrange(len(specs))
