"""Graph specifications (JSON), node keys and construction of the graphs under test."""
import numpy as np

KEY_KINDS = ("int", "perm", "str", "tuple", "mixed", "salt")


class SimKey:
    """A client node object whose hash (hence every set/dict order) the simulator decides."""

    __slots__ = ("i", "h")
    salt = 0

    def __init__(self, i, salt=None):
        self.i = i
        s = SimKey.salt if salt is None else salt
        self.h = hash((s * 1000003 + 12289 * (i + 1) * (s * 2 + 1)) & 0xFFFFFFFF)

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return type(other) is SimKey and other.i == self.i

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return f"K{self.i}"

    def __lt__(self, other):
        return self.i < other.i


def make_key(kind, i):
    if kind == "int":
        return i
    if kind == "perm":
        return (i * 7) % 41 + 100
    if kind == "str":
        return f"n{i}"
    if kind == "tuple":
        return ("t", i)
    if kind == "mixed":
        if i in (1, 2, 3):
            return ("", b"", frozenset())[i - 1]
        return (i, f"n{i}", ("t", i), i + 0.5)[i % 4]
    if kind == "salt":
        return SimKey(i)
    raise ValueError(kind)


class Keys:
    """Bijection index <-> client key for one run (shared by every graph of the run)."""

    def __init__(self, kind, n=40):
        self.kind = kind
        self.keys = [make_key(kind, i) for i in range(n)]
        self.back = {k: i for i, k in enumerate(self.keys)}

    def __getitem__(self, i):
        return self.keys[i]

    def unkey(self, k):
        """index of a key, or None when `k` is not a node key of this run"""
        try:
            return self.back.get(k)
        except TypeError:
            return None


WDT = {
    "none": None,
    "ones": "int64",
    "int": "int64",
    "few": "int64",
    "isoint": "int64",
    "negint": "int64",
    "negiso": "int64",
    "dyadic": "float64",
    "float": "float64",
    "negfloat": "float64",
    "bool": "bool",
    "uint8": "uint8",
}


def draw_weight(rng, kind, const):
    if kind == "none" or kind == "ones":
        return 1
    if kind == "int":
        return rng.randint(1, 6)
    if kind == "few":
        return rng.choice([1, 1, 2])  # many ties
    if kind in ("isoint", "negiso"):
        return const
    if kind == "negint":
        return rng.choice([-2, -1, 1, 2, 3, 4, 5])
    if kind == "dyadic":
        return rng.randint(1, 16) / 4
    if kind == "float":
        return round(rng.uniform(0.1, 5.0), 6)
    if kind == "negfloat":
        return rng.randint(-4, 16) / 4 or 0.5
    if kind == "bool":
        return True
    if kind == "uint8":
        return rng.randint(1, 9)
    raise ValueError(kind)


def gen_graph(rng, *, directed=None, nmax=9, wkinds=None, loops=None, nmin=0, kinds=None):
    """A random graph spec. Structure classes are drawn swarm-style, not only G(n, p)."""
    if directed is None:
        directed = rng.random() < 0.5
    if kinds is None:
        kinds = ("gnp",) * 4 + ("path", "cycle", "star", "complete", "empty", "twocomp", "tree", "dag", "bip", "layers", "layers")
    if rng.random() < 0.06:
        n = nmin
    else:
        n = rng.randint(max(1, nmin), nmax if nmax < 9 or rng.random() < 0.96 else nmax + 5)
    if wkinds is None:
        wkinds = ("none", "none", "ones", "int", "int", "few", "isoint", "dyadic", "float", "negint", "negiso", "negfloat")
    wk = rng.choice(wkinds)
    if loops is None:
        loops = rng.choice([0.0, 0.0, 0.0, 0.2, 0.5])
    kind = rng.choice(kinds)
    p = rng.choice([0.15, 0.3, 0.5, 0.8])
    pairs = []
    if kind in ("gnp", "dag", "bip"):
        for u in range(n):
            for v in range(n):
                if u == v or (not directed and v < u) or (kind == "dag" and v < u):
                    continue
                if kind == "bip" and (u % 2 == v % 2):
                    continue
                if rng.random() < p:
                    pairs.append((u, v))
    elif kind == "path":
        pairs = [(i, i + 1) for i in range(n - 1)]
    elif kind == "cycle":
        pairs = [(i, (i + 1) % n) for i in range(n)] if n > 2 else []
    elif kind == "star":
        pairs = [(0, i) for i in range(1, n)]
    elif kind == "complete":
        pairs = [(u, v) for u in range(n) for v in range(n) if u != v and (directed or u < v)]
    elif kind == "twocomp":
        h = n // 2
        for u in range(n):
            for v in range(n):
                if u == v or (not directed and v < u) or ((u < h) != (v < h)):
                    continue
                if rng.random() < max(p, 0.4):
                    pairs.append((u, v))
    elif kind == "layers":
        w = rng.choice([2, 3])
        pairs = [(u, v) for u in range(n) for v in range(u + 1, n) if v // w - u // w == 1 and rng.random() < max(p, 0.6)]
    elif kind == "tree":
        pairs = [(rng.randrange(i), i) for i in range(1, n)]
    if rng.random() < 0.5:
        perm = list(range(n))
        rng.shuffle(perm)
        pairs = [(perm[u], perm[v]) for u, v in pairs]
    if directed and kind in ("path", "tree", "star", "bip") and rng.random() < 0.4:
        pairs = [(v, u) if rng.random() < 0.5 else (u, v) for u, v in pairs]
    for u in range(n):
        if rng.random() < loops:
            pairs.append((u, u))
    const = rng.choice([1, 2, 3])
    if wk == "negiso":
        const = -const
    seen = set()
    edges = []
    for u, v in pairs:
        if not directed and u > v:
            u, v = v, u
        if (u, v) in seen:
            continue
        seen.add((u, v))
        edges.append([u, v, draw_weight(rng, wk, const)])
    order = list(range(n))
    if rng.random() < 0.5:
        rng.shuffle(order)
    return {"directed": directed, "n": n, "wk": wk, "edges": edges, "order": order}


def to_nx(spec, keys):
    import networkx as nx

    multi = spec.get("multi")
    G = (nx.MultiDiGraph if multi else nx.DiGraph)() if spec["directed"] else (nx.MultiGraph if multi else nx.Graph)()
    G.add_nodes_from(keys[i] for i in spec["order"])
    if spec["wk"] == "none":
        G.add_edges_from((keys[u], keys[v]) for u, v, _ in spec["edges"])
    else:
        G.add_weighted_edges_from((keys[u], keys[v], w) for u, v, w in spec["edges"])
    return G


def is_weighted(spec):
    return spec["wk"] != "none"


def to_ga_direct(spec, keys, *, dtype=None, fmt=None):
    """Build the ga graph from a Matrix, bypassing NetworkX altogether."""
    import graphblas as gb

    import graphblas_algorithms as ga

    pos = {i: p for p, i in enumerate(spec["order"])}
    n = spec["n"]
    d = {}
    for u, v, w in spec["edges"]:
        d[pos[u], pos[v]] = w
        if not spec["directed"]:
            d[pos[v], pos[u]] = w
    dt = dtype or WDT[spec["wk"]] or "int64"
    items = sorted(d.items())
    A = gb.Matrix.from_coo(
        [k[0] for k, _ in items],
        [k[1] for k, _ in items],
        np.array([v for _, v in items], dtype=dt),
        nrows=n,
        ncols=n,
        dtype=dt,
    )
    key_to_id = {keys[i]: p for p, i in enumerate(spec["order"])}
    cls = ga.DiGraph if spec["directed"] else ga.Graph
    return cls(A, key_to_id=key_to_id)


def to_ga(spec, keys, nxG=None):
    """Build the ga graph through the public conversion (what a client does)."""
    from graphblas_algorithms.interface import Dispatcher

    if nxG is None:
        nxG = to_nx(spec, keys)
    if is_weighted(spec):
        return Dispatcher.convert_from_nx(nxG, edge_attrs={"weight": 1})
    return Dispatcher.convert_from_nx(nxG)


def shrink_graph(spec):
    """Yield smaller specs (drop an edge, drop the last isolated node, simplify weights)."""
    es = spec["edges"]
    for i in range(len(es)):
        yield {**spec, "edges": es[:i] + es[i + 1 :]}
    used = {x for u, v, _ in es for x in (u, v)}
    if spec["n"] > 0 and (spec["n"] - 1) not in used:
        n = spec["n"] - 1
        yield {**spec, "n": n, "order": [i for i in spec["order"] if i < n]}
    if spec["order"] != sorted(spec["order"]):
        yield {**spec, "order": sorted(spec["order"])}
