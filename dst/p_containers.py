"""C06: node containers behave like Python's dict and set."""
import math

from . import calls, canon as C, faults as F, harness, seams, world as W
from .ops import MISSING, OPS
from .p_isolation import HANDED

ID = "C06"
RUNS = {"quick": 7000, "thorough": 80000}
RULE = (
    "One case: 1-4 containers (results of drawn calls, rows or items of them, and containers built from drawn content) "
    "and a seeded history of 8-40 dict/set operations on them, some cut short by a fault at a drawn point. Every result "
    "and error is compared with that of a Python dict/set of the same content; after every operation length, iteration, "
    "membership and look-ups are compared with the model; after a fault the content must be that from before or after "
    "(for bulk updates: each element from before or after). Non-trivial: at least two operations changed a container; "
    "distinct by hash of history and results."
)
STATES = "hash of (container class, fill value or not, operation, size of the container, fault kind)"
ASSUMPTIONS = [
    "new keys and elements are nodes of the graph, values are of the container's number type, rows are not empty, no None is stored",
]

SET_OPS = ["in", "in", "len", "iter", "add", "add", "discard", "discard", "remove", "remove", "pop", "clear", "or", "and", "sub", "xor", "ror",
           "rand", "rsub", "rxor", "ior", "iand", "isub", "ixor", "le", "lt", "ge", "gt", "eq", "ne", "isdisjoint", "union", "copy", "bool"]
MAP_OPS = ["in", "getitem", "get", "getd", "len", "iter", "keys", "values", "items", "set", "set", "set", "del", "del", "pop", "pop", "popd",
           "popitem", "clear", "update", "updatekv", "updatemap", "setdefault", "eq", "ne", "bool", "keysand", "initems"]
BULK = {"ior", "iand", "isub", "ixor", "update", "updatekv", "updatemap"}
ALIAS = {"ior", "iand", "isub", "ixor"}


def gen_src(rng, graphs):
    if rng.random() < 0.65:
        return {"call": W.gen_op(rng, graphs, names=HANDED), "pick": rng.randrange(12)}
    i = rng.randrange(len(graphs))
    n = graphs[i]["n"]
    kind = rng.choice(["set", "map", "map", "keymap", "vmap", "nmap", "nmap", "vnmap"])
    p = rng.choice([0.2, 0.5, 0.9, 1.0])
    fl = rng.random() < 0.5
    val = lambda: rng.randint(0, 20) / 4 if fl else rng.randint(0, 6)  # noqa: E731
    s = {"make": kind, "g": i, "float": fl, "fill": rng.choice([None, None, 0, 1.5 if fl else 1]) if kind in ("map", "nmap") else None}
    if kind == "set":
        s["items"] = [u for u in range(n) if rng.random() < p]
    elif kind == "map":
        s["items"] = [[u, val()] for u in range(n) if rng.random() < p]
    elif kind == "keymap":
        s["items"] = [[u, rng.randrange(n)] for u in range(n) if rng.random() < p]
    elif kind == "vmap":
        s["items"] = [[u, val()] for u in range(7) if rng.random() < p]
    elif kind == "nmap":
        s["items"] = [[u, v, val()] for u in range(n) for v in range(n) if rng.random() < p]
    else:
        s["items"] = [[u, v, val()] for u in range(n) for v in range(7) if rng.random() < p * 0.6]
    return s


def twin(rng, graphs, s):
    """The container drawn in s, on the other graph."""
    j = 1 - s["g"]
    a, b = graphs[s["g"]]["order"], graphs[j]["order"]
    if rng.random() < 0.5:
        move = {u: u for u in b}  # the same keys
    else:
        move = dict(zip(a, b))  # the same positions
    two = s["make"] == "nmap"
    items = []
    for x in s["items"]:
        if s["make"] == "vmap":
            items.append(x)
        elif s["make"] == "set":
            if x in move:
                items.append(move[x])
        elif x[0] in move and (not two or x[1] in move) and (s["make"] != "keymap" or x[1] in move):
            items.append([move[x[0]], *([move[x[1]]] if two or s["make"] == "keymap" else [x[1]]), *x[2:]])
    return {**s, "g": j, "items": items}


def near(rng, s):
    """The container drawn in s again, or nearly: an item less, another value, another fill value."""
    items = [list(x) if isinstance(x, list) else x for x in s["items"]]
    t = {**s, "items": items}
    r = rng.random()
    if r < 0.25:
        return t
    if r < 0.55 and s["make"] in ("map", "nmap"):
        t["fill"] = rng.choice([x for x in (None, 0, 1, 2) if x != s["fill"]])
    elif r < 0.8 and items:
        items.pop(rng.randrange(len(items)))
    elif items and s["make"] in ("map", "nmap", "vmap", "vnmap"):
        x = items[rng.randrange(len(items))]
        x[-1] += 1
    return t


def gen(rng, seed):
    k = rng.choice([1, 2])
    graphs = W.gen_specs(rng, k, nmin=1)
    if k == 2 and rng.random() < 0.5:
        # the same nodes, numbered differently
        graphs[1] = {**graphs[1], "n": graphs[0]["n"], "order": rng.sample(range(graphs[0]["n"]), graphs[0]["n"]),
                     "edges": [e for e in graphs[1]["edges"] if max(e[:2]) < graphs[0]["n"]]}
    src = [gen_src(rng, graphs) for _ in range(rng.randint(1, 4))]
    pair = None
    if k == 2 and rng.random() < 0.6:
        # two containers of one kind, of two graphs: the same keys, or the same positions
        s = next((x for x in src if "make" in x), None)
        if s is None:
            kind = rng.choice(["set", "set", "map", "nmap"])
            while True:
                s = gen_src(rng, graphs)
                if s.get("make") == kind:
                    break
            src.append(s)
        src.append(twin(rng, graphs, s))
        pair = [src.index(s), len(src) - 1]
    makes = [x for x in src if "make" in x]
    if pair is None and makes and rng.random() < 0.5:
        s = rng.choice(makes)
        t = near(rng, s)
        if s["make"] in ("map", "nmap") and rng.random() < 0.2:
            # the same content by position
            pos = {u: i for i, u in enumerate(graphs[s["g"]]["order"])}
            t["make"] = {"map": "vmap", "nmap": "vnmap"}[s["make"]]
            t["items"] = [[u if t["make"] == "vnmap" else pos[u] if rng.random() < 0.5 else u, *x] for u, *x in t["items"]]
            t["items"] = list({tuple(x[:-1]): x for x in t["items"] if x[0 if t["make"] == "vmap" else 1] < 7}.values())
        src.append(t)
        pair = [src.index(s), len(src) - 1]
    hist = []
    pf = rng.choice([0.0, 0.1, 0.3])
    for _ in range(rng.randint(8, 40)):
        x = {"c": rng.randrange(len(src)) if rng.random() < 0.8 else rng.randrange(12), "sop": rng.choice(SET_OPS), "mop": rng.choice(MAP_OPS), "x": rng.randrange(12), "v": rng.randrange(9),
             "o": [rng.choice(["set", "frozenset", "keys", "cont", "cont", "self"]), rng.randrange(4),
                   rng.sample(range(12), rng.randint(0, 6))]}
        if pair and rng.random() < 0.4:
            rng.shuffle(pair)
            x["c"], x["o"][0], x["o"][1] = pair[0], "cont", pair[1]
            if rng.random() < 0.25:
                x["sop"] = x["mop"] = rng.choice(["eq", "ne"])
        if rng.random() < pf:
            x["fault"] = F.draw(rng)
        hist.append(x)
    return {"keys": W.gen_keys(rng), "graphs": graphs, "src": src, "hist": hist}


# ---------------------------------------------------------------- building
def classes():
    from graphblas_algorithms.classes import nodemap as M, nodeset as N

    return {N.NodeSet: "set", M.NodeMap: "map", M.VectorMap: "vmap", M.NodeNodeMap: "nmap", M.VectorNodeMap: "vnmap"}


def build(w, s):
    """-> list of containers of the repository"""
    kinds = classes()
    if "call" in s:
        op = OPS[s["call"]["f"]]
        try:
            raw = calls.ga_func(op)(*[w.gag(i) for i in s["call"]["g"]], **calls.decode_params(s["call"]["p"], w.keys))
            if hasattr(raw, "__next__"):
                raw = list(raw)
        except (Exception, seams.BudgetExceeded):
            return None
        found = []

        def walk(x, depth):
            if type(x) in kinds:
                found.append(x)
                if depth < 2 and kinds[type(x)] in ("nmap", "vnmap"):
                    for y in list(x.values())[:3]:
                        found.append(y)
            elif isinstance(x, (list, tuple)) and depth < 3:
                for y in x:
                    walk(y, depth + 1)

        walk(raw, 0)
        return found[s["pick"] % len(found)] if found else None
    import graphblas as gb

    G = w.gag(s["g"])
    spec = w.specs[s["g"]]
    pos = {u: i for i, u in enumerate(spec["order"])}
    n, dt = spec["n"], float if s["float"] else int
    it = s["items"]
    if s["make"] == "set":
        return G.vector_to_nodeset(gb.Vector.from_coo([pos[u] for u in it], True, size=n, dtype=bool))
    if s["make"] == "map":
        return G.vector_to_nodemap(gb.Vector.from_coo([pos[u] for u, _ in it], [x for _, x in it], size=n, dtype=dt), fill_value=s["fill"])
    if s["make"] == "keymap":
        return G.vector_to_nodemap(gb.Vector.from_coo([pos[u] for u, _ in it], [pos[x] for _, x in it], size=n, dtype=int), values_are_keys=True)
    if s["make"] == "vmap":
        from graphblas_algorithms.classes.nodemap import VectorMap

        return VectorMap(gb.Vector.from_coo([u for u, _ in it], [x for _, x in it], size=7, dtype=dt))
    cols = n if s["make"] == "nmap" else 7
    A = gb.Matrix.from_coo([pos[u] for u, _, _ in it], [pos[v] if s["make"] == "nmap" else v for _, v, _ in it], [x for *_, x in it],
                           nrows=n, ncols=cols, dtype=dt)
    if s["make"] == "nmap":
        return G.matrix_to_nodenodemap(A, fill_value=s["fill"])
    return G.matrix_to_vectornodemap(A)


class Cont:
    def __init__(self, raw, keys, universe):
        self.raw = raw
        self.kind = classes()[type(raw)]
        self.keys = keys
        self.universe = universe  # keys that may be added
        self.vak = getattr(raw, "_values_are_keys", False)
        # the keys of a VectorMap are numbers below the size of its vector
        if self.kind == "vmap":
            self.universe = list(range(raw.vector.size))
        self.inner = None
        if self.kind == "nmap":
            self.inner = universe
        elif self.kind == "vnmap":
            self.inner = list(range(raw.matrix.ncols))
        self.isbool = False
        dt = getattr(raw, "vector", None)
        dt = dt if dt is not None else raw.matrix
        self.isfloat = dt.dtype.name.startswith("FP")
        self.isbool = dt.dtype == bool
        self.filled = getattr(raw, "_fill_value", None) is not None
        self.model = self.read()

    def plain(self, x):
        """A value as plain Python data"""
        if type(x) in classes():
            return {k: self.plain(v) for k, v in x.items()} if classes()[type(x)] != "set" else set(x)
        if self.vak:
            return x
        if hasattr(x, "dtype") or hasattr(x, "value"):
            return C._num(x.value if hasattr(x, "value") else x)
        return x

    def read(self):
        if self.kind == "set":
            return set(self.raw)
        return {k: self.plain(v) for k, v in self.raw.items()}

    def consistent(self, rng_keys):
        """Length, iteration, membership and look-up agree with the model."""
        raw, m = self.raw, self.model
        ks = list(raw)
        if len(ks) != len(set(ks)):
            return f"iteration repeats keys: {ks}"
        if set(ks) != set(m):
            return f"iterates {ks}, expected {list(m)}"
        if len(raw) != len(m):
            return f"len {len(raw)}, expected {len(m)}"
        for k in rng_keys:
            if (k in raw) != (k in m):
                return f"{k!r} in container is {k in raw}, expected {k in m}"
            if self.kind != "set":
                got = raw.get(k, "none")
                if not same(self.plain(got), m.get(k, "none")):
                    return f"get({k!r}) is {self.plain(got)!r}, expected {m.get(k, 'none')!r}"
                if k in m and not same(self.plain(raw[k]), m[k]):
                    return f"[{k!r}] is {self.plain(raw[k])!r}, expected {m[k]!r}"
        if self.kind != "set":
            it = {k: self.plain(v) for k, v in raw.items()}
            if not same(it, m):
                return f"items {it}, expected {m}"
        return None


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


# ---------------------------------------------------------------- one operation
def operand(x, c, conts, keys):
    """The other set of a binary set operation: (for the container, for the model)."""
    how, j, ids = x["o"]
    if how == "self":
        return c.raw, set(c.model)
    if how == "cont":
        o = conts[j % len(conts)]
        if o is not None and o.kind == "set":
            return o.raw, set(o.model)
    s = {c.universe[i % len(c.universe)] for i in ids} if c.universe else set()
    if how == "frozenset":
        return frozenset(s), s
    if how == "keys":
        return dict.fromkeys(s).keys(), s
    return set(s), s


def set_op(x, c, conts, keys):
    """(thunk on the real container, thunk on the model, model after) or None when outside the domain"""
    op, raw, m = x["sop"], c.raw, set(c.model)
    u = c.universe
    known = u[x["x"] % len(u)] if u and x["x"] < 11 else keys[MISSING]
    if op == "in":
        return lambda: known in raw, lambda m: known in m
    if op == "len":
        return lambda: len(raw), lambda m: len(m)
    if op == "bool":
        return lambda: bool(raw), lambda m: bool(m)
    if op == "iter":
        return lambda: set(iter(raw)), lambda m: set(m)
    if op == "copy":
        return lambda: raw.copy(), lambda m: m.copy()
    if op == "add":
        if x["x"] == 11 or not u:
            return None
        return lambda: raw.add(known), lambda m: m.add(known)
    if op in ("discard", "remove"):
        return lambda: getattr(raw, op)(known), lambda m: getattr(m, op)(known)
    if op == "clear":
        return lambda: raw.clear(), lambda m: m.clear()
    if op == "pop":
        return lambda: raw.pop(), "any"
    a, b = operand(x, c, conts, keys)
    if not b <= set(u) and op in ("or", "xor", "ror", "rsub", "rxor", "ior", "ixor"):
        return None
    if op in ("ror", "rand", "rsub", "rxor") and x["o"][0] == "cont":
        o = conts[x["o"][1] % len(conts)]
        if o is not None and o.kind == "set" and set(o.universe) != set(u):
            return None  # the result belongs to the other graph
    if op == "isdisjoint":
        return lambda: raw.isdisjoint(a), lambda m: m.isdisjoint(b)
    if op == "union":
        return lambda: raw.union(a), lambda m: m.union(b)
    import operator as o

    if op in ("or", "and", "sub", "xor", "le", "lt", "ge", "gt", "eq", "ne"):
        f = getattr(o, {"or": "or_", "and": "and_"}.get(op, op))
        return lambda: f(raw, a), lambda m: f(m, b)
    if op in ("ror", "rand", "rsub", "rxor"):
        f = getattr(o, {"or": "or_", "and": "and_"}.get(op[1:], op[1:]))
        return lambda: f(a, raw), lambda m: f(b, m)
    f = getattr(o, op)

    def real():
        r = f(raw, a)
        return r is raw

    def mod(m):
        f(m, b)
        return True

    return real, mod


def map_op(x, c, conts, keys):
    op, raw = x["mop"], c.raw
    u = c.universe
    known = u[x["x"] % len(u)] if u and x["x"] < 10 else (keys[MISSING] if c.kind != "vmap" else [-1, 100][x["x"] % 2])
    inside = bool(u) and x["x"] < 10

    def scalar(t):
        if c.vak:
            return u[t % len(u)]
        if c.isbool:
            return t % 2 == 0
        return t / 2 if c.isfloat else t

    def value(t):
        """(what the client passes, what the model holds)"""
        if c.inner is None:
            s = scalar(t)
            return s, s
        ks = [c.inner[(t + i) % len(c.inner)] for i in range(1 + t % 3)]
        if c.vak:
            d = {k: u[(t + i) % len(u)] for i, k in enumerate(ks)}
        else:
            d = {k: scalar(t + i) for i, k in enumerate(ks)}
        if c.filled and c.raw._fill_value is not None:
            return d, {**dict.fromkeys(c.inner, c.raw._fill_value), **d}
        return d, dict(d)

    if c.inner is not None and not c.inner and op in ("set", "setdefault", "update", "updatekv"):
        return None
    P = c.plain
    if op == "in":
        return lambda: known in raw, lambda m: known in m
    if op == "getitem":
        return lambda: P(raw[known]), lambda m: m[known]
    if op == "get":
        return lambda: P(raw.get(known)), lambda m: m.get(known)
    if op == "getd":
        return lambda: P(raw.get(known, "d")), lambda m: m.get(known, "d")
    if op == "len":
        return lambda: len(raw), lambda m: len(m)
    if op == "bool":
        return lambda: bool(raw), lambda m: bool(m)
    if op in ("iter", "keys"):
        return lambda: set(raw if op == "iter" else raw.keys()), lambda m: set(m)
    if op == "values":
        return lambda: dict(zip(raw.keys(), map(P, raw.values()))), lambda m: dict(m)
    if op == "items":
        return lambda: {k: P(v) for k, v in raw.items()}, lambda m: dict(m)
    if op == "keysand":
        s = {u[i % len(u)] for i in x["o"][2]} if u else set()
        return lambda: set(raw.keys() & s), lambda m: m.keys() & s
    if op == "initems":
        if c.inner is not None or not u:
            return None
        t = scalar(x["v"])
        return lambda: (known, t) in raw.items(), lambda m: (known, t) in m.items()
    if op == "set":
        if not inside:
            return None
        a, b = value(x["v"])
        return lambda: raw.__setitem__(known, a), lambda m: m.__setitem__(known, b)
    if op == "setdefault":
        if not inside:
            return None
        a, b = value(x["v"])
        if c.inner is not None:
            return lambda: P(raw.setdefault(known, a)) and None, lambda m: m.setdefault(known, b) and None
        return lambda: P(raw.setdefault(known, a)), lambda m: m.setdefault(known, b)
    if op == "del":
        return lambda: raw.__delitem__(known), lambda m: m.__delitem__(known)
    if op == "pop":
        return lambda: P(raw.pop(known)), lambda m: m.pop(known)
    if op == "popd":
        return lambda: P(raw.pop(known, "d")), lambda m: m.pop(known, "d")
    if op == "popitem":

        def real():
            k, v = raw.popitem()
            return k, P(v)

        return real, "any"
    if op == "clear":
        return lambda: raw.clear(), lambda m: m.clear()
    if op in ("update", "updatekv"):
        if not u:
            return None
        pairs = [(u[i % len(u)], value(x["v"] + j)) for j, i in enumerate(x["o"][2])]
        pairs = list(dict(pairs).items())
        if op == "update":
            return lambda: raw.update({k: a for k, (a, _) in pairs}), lambda m: m.update({k: b for k, (_, b) in pairs})
        return lambda: raw.update([(k, a) for k, (a, _) in pairs]), lambda m: m.update([(k, b) for k, (_, b) in pairs])
    j = x["o"][1] % len(conts)
    o = conts[j]
    if o is None or o.kind != c.kind and (op not in ("eq", "ne") or o.kind == "set"):
        o = c
    if op == "updatemap":
        if not set(o.model) <= set(u) or o.vak != c.vak or c.inner is not None and o is not c and o.raw._key_to_id != c.raw._key_to_id:
            return None
        if o is c and c.filled:
            return None
        if c.inner is not None and (any(not r for r in o.model.values()) or o.filled or c.filled):
            return None
        if c.vak and c.inner is None and not set(o.model.values()) <= set(u):
            return None
        if o.isfloat and not c.isfloat or o.isbool != c.isbool or "inf" in str(o.model) and not c.isfloat:
            return None
        if c.kind == "vnmap" and o.raw.matrix.ncols != c.raw.matrix.ncols:
            return None
        return lambda: raw.update(o.raw), lambda m: m.update(o.model)
    how = x["o"][0]
    if how in ("set", "keys", "frozenset") and c.inner is None:
        d = dict(c.model)
        if x["v"] % 2 and d:
            d.pop(next(iter(d)))
        f = (lambda: raw == d) if op == "eq" else (lambda: raw != d)
        return f, (lambda m: m == d) if op == "eq" else (lambda m: m != d)
    f = (lambda: raw == o.raw) if op == "eq" else (lambda: raw != o.raw)
    return f, (lambda m: m == o.model) if op == "eq" else (lambda m: m != o.model)


def out(f):
    """("ok", value) or ("exc", exception)"""
    try:
        r = f()
    except F.INJECTED as e:
        return "inj", e
    except (Exception, seams.BudgetExceeded) as e:
        return "exc", e
    return "ok", r


def allowed_after_fault(op, old, new, now, kind):
    if same(now, old):
        return True
    if new is not None and same(now, new):
        return True
    if kind == "set":
        if op == "pop":
            return now <= old and len(now) == len(old) - 1
        if op in BULK and new is not None:
            return old & new <= now <= old | new
        return False
    if op == "popitem":
        return len(now) == len(old) - 1 and all(k in old and same(v, old[k]) for k, v in now.items())
    if op in BULK and new is not None:
        if not set(old) & set(new) <= set(now) <= set(old) | set(new):
            return False
        return all(any(k in d and same(v, d[k]) for d in (old, new)) for k, v in now.items())
    return False


def clone(m):
    return set(m) if isinstance(m, set) else {k: dict(v) if isinstance(v, dict) else v for k, v in m.items()}


def execute(scn, record=None):
    st = {"ops": 0, "checks": 0, "opnames": {}, "probes": {}, "states": [], "faults": {}}
    w = W.World(scn)
    for i in range(len(w.specs)):
        w.gag(i)
    conts = []
    v = None
    log = []
    changed = 0

    def probe(k):
        st["probes"][k] = st["probes"].get(k, 0) + 1

    with seams.Budget(W.LINE_BUDGET * 4):
        for s in scn["src"]:
            raw = build(w, s)
            gi = s["call"]["g"][0] if "call" in s else s["g"]
            try:
                conts.append(Cont(raw, w.keys, [w.keys[i] for i in w.specs[gi]["order"]]) if raw is not None else None)
            except F.INJECTED:
                raise
            except Exception as e:
                return {"v": {"cls": "unreadable", "msg": f"{s}: {type(e).__name__}: {e}"[:400]}, "digest": "x", "st": st}
        for i, x in enumerate(scn["hist"]):
            c = conts[x["c"] % len(conts)]
            if c is None:
                log.append(None)
                continue
            op = x["sop"] if c.kind == "set" else x["mop"]
            fns = (set_op if c.kind == "set" else map_op)(x, c, conts, w.keys)
            if fns is None:
                log.append(None)
                continue
            real, mod = fns
            st["ops"] += 1
            name = f"{c.kind}.{op}"
            st["opnames"][name] = st["opnames"].get(name, 0) + 1
            old = clone(c.model)
            others = [clone(o.model) if o is not None else None for o in conts]
            fresh = None
            fault = x.get("fault")
            fired = False
            if fault:
                try:
                    lines, ncalls = harness.sub(_count, real) if "k" not in fault else (0, 0)
                except harness.Crash as e:
                    v = {"cls": "crash", "msg": f"step {i} {name}: {e}"}
                    break
                k = F.resolve(fault, lines, ncalls)
                if record is not None:
                    record[i] = k
                with F.Armed(fault, k) as armed:
                    got = out(real)
                fired = armed.fired
            else:
                got = out(real)
            if got[0] == "ok" and type(got[1]) in classes():
                fresh, got = got[1], ("ok", set(got[1]))
            # the same operation on the model
            new = clone(old)
            if mod == "any":
                want = ("exc", KeyError()) if not old else None
            else:
                want = out(lambda: mod(new))
                if want[0] == "exc":
                    new = clone(old)
            st["states"].append(harness.digest_of([c.kind, c.filled, op, len(old), fault["exc"] + fault["at"] if fired else ""]))
            if fired:
                kind = f"{fault['exc']}@{fault['at']}"
                st["faults"][kind] = st["faults"].get(kind, 0) + 1
                probe(f"fault in {c.kind}.{op}")
            d = None
            if got[0] == "inj" or fired and got[0] == "exc":
                if not fired:
                    d = "injected failure without fault"
                now = c.read()
                if not allowed_after_fault(op, old, None if mod == "any" else new, now, c.kind):
                    d = f"after the failure {show(now)}, before {show(old)}, without failure {show(new) if mod != 'any' else 'one less'}"
                    cls = "torn"
                if got[0] == "exc" and (want is None or want[0] != "exc" or not compatible(got[1], want[1])):
                    d, cls = f"failure turned into {type(got[1]).__name__}: {got[1]}", "failure-hidden"
                c.model = now
            elif mod == "any":
                cls = "differs"
                if want is not None:
                    if got[0] != "exc" or not isinstance(got[1], KeyError):
                        d = f"{show(got)} from an empty container, expected KeyError"
                elif got[0] == "exc":
                    d = f"raises {type(got[1]).__name__}: {got[1]}"
                else:
                    k = got[1][0] if c.kind != "set" else got[1]
                    if k not in old or c.kind != "set" and not same(got[1][1], old[k]):
                        d = f"took out {show(got[1])}, which is not in {show(old)}"
                    else:
                        if c.kind == "set":
                            new.discard(k)
                        else:
                            del new[k]
                        c.model = new
            else:
                cls = "differs"
                if got[0] != want[0]:
                    d = f"{show(got)}, expected {show(want)} (content {show(old)})"
                elif got[0] == "exc":
                    if not compatible(got[1], want[1]):
                        d = f"raises {type(got[1]).__name__}, expected {type(want[1]).__name__}"
                elif not same(got[1], want[1]):
                    d = f"{show(got[1])}, expected {show(want[1])} (content {show(old)})"
                c.model = new
            if not same(c.model, old):
                changed += 1
            if d is None:
                cls = "inconsistent"
                try:
                    d = c.consistent(c.universe + ([w.keys[MISSING]] if c.kind != "vmap" else []))
                    for j, o in enumerate(conts):
                        if d is None and o is not None and o is not c and not same(o.read(), others[j]):
                            d = f"container {j} changed too: {show(o.read())}, was {show(others[j])}"
                except Exception as e:
                    d = f"{type(e).__name__}: {e}"
            if d is None and fresh is not None and any(o is not None and o.raw is fresh for o in conts):
                d, cls = "returned a container that was there before instead of a new one", "not-a-copy"
            if d is None and fresh is not None and len(conts) < 7:
                conts.append(Cont(fresh, c.keys, c.universe))  # what an operation returned is a container of its own
                probe(f"result of {name} kept")
            st["checks"] += 1
            log.append([name, str(show(got)), str(show(sorted(map(str, c.model.items() if c.kind != "set" else c.model))))])
            if d:
                v = {"cls": cls, "msg": f"step {i} {name}{' with ' + str(fault) if fired else ''}: {d}"[:600]}
                break
        if v is None:
            for i in range(len(w.specs)):
                d = C.diff(w.content(i), w.content_want(i), order=True)
                if d:
                    v = {"cls": "graph-changed", "msg": f"graph {i}: {d}"}
    st["nontrivial"] = changed > 1
    st["sample"] = [[s.get("make") or s["call"]["f"] for s in scn["src"]], [y and y[0] for y in log][:15]]
    st["lines"], st["calls"] = seams.S.lines, seams.S.calls
    return {"v": v, "digest": harness.digest_of([scn["src"], log, v]), "st": st}


def _count(real):
    with F.Counter() as c:
        out(real)
    return c.lines, c.calls


def compatible(a, b):
    return isinstance(a, type(b)) or isinstance(b, type(a))


def show(x):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], BaseException):
        return f"raises {type(x[1]).__name__}"
    if isinstance(x, set):
        return sorted(map(repr, x))
    return x


def explicit(scn):
    rec = {}
    seams.reset()
    execute(scn, rec)
    h = []
    for i, x in enumerate(scn["hist"]):
        if i in rec:
            x = {**x, "fault": {**{k: q for k, q in x["fault"].items() if k != "u"}, "k": rec[i]}}
        h.append(x)
    return {**scn, "hist": h}


def shrink(scn):
    yield from W.shrink_steps(scn)
    for i, x in enumerate(scn["hist"]):
        if "fault" in x:
            yield {**scn, "hist": scn["hist"][:i] + [{k: v for k, v in x.items() if k != "fault"}] + scn["hist"][i + 1 :]}
    for i in range(len(scn["src"])):
        used = {x["c"] for x in scn["hist"]}
        if i not in used and len(scn["src"]) > 1:
            yield {**scn, "src": scn["src"][:i] + scn["src"][i + 1 :], "hist": [{**x, "c": x["c"] - (x["c"] > i)} for x in scn["hist"]]}
    for i, s in enumerate(scn["src"]):
        if "make" in s and s["items"]:
            for j in range(len(s["items"])):
                yield {**scn, "src": scn["src"][:i] + [{**s, "items": s["items"][:j] + s["items"][j + 1 :]}] + scn["src"][i + 1 :]}
    yield from W.shrink_graphs({**scn, "keep": scn["hist"]})
