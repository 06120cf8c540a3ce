"""C07: answers do not depend on how the engine stores values or which allowed value it picks."""
import zlib

from . import calls, canon as C, harness, seams, world as W
from .harness import Crash
from .ops import OPS

ID = "C07"
RUNS = {"quick": 6000, "thorough": 100000}
RULE = (
    "One case: 1-2 graphs and a seeded history of 3-10 operations and property reads, run once undisturbed and once "
    "while the simulator changes, before steps and inside them after engine calls, the storage of the graphs, of their "
    "derived data and of intermediate objects (hypersparse, sparse, bitmap, full; by row or column; iso or not; pending "
    "changes; global switches), picks the values of any-operators and the order of unsorted tuples. Every answer must "
    "agree. Non-trivial: at least one disturbance took effect and 2 answers were not exceptions; distinct by the hash of "
    "history, disturbances and answers."
)
STATES = "hash of (operation, kinds of disturbance in force)"
ASSUMPTIONS = ["the named properties is_iso and iso_value report storage and are not compared"]
STUBS = ["any-operators become first/second/min/max", "unsorted tuples come in a seeded order"]

FMT = ("hypersparse", "sparse", "bitmap", "full")
HOW = ("fmt", "fmt", "fmt", "uniso", "pending", "zombie")


# operations with several right answers to choose from
CHOICES = ["bellman_ford_path", "floyd_warshall_predecessor_and_distance", "lowest_common_ancestor", "edge_boundary", "k_truss", "bfs_layers",
           "fast_could_be_isomorphic"]


def gen(rng, seed):
    k = rng.choice([1, 1, 2])
    graphs = W.gen_specs(rng, k, **({"nmax": 14} if rng.random() < 0.1 else {}))
    scn = {"keys": W.gen_keys(rng), "graphs": graphs, "hist": []}
    names = rng.sample(W.NAMES, rng.randint(3, 10)) if rng.random() < 0.5 else W.NAMES + CHOICES * 4
    pp = rng.choice([0.0, 0.2, 0.5])
    pd = rng.choice([0.2, 0.6, 1.0])
    for _ in range(rng.randint(3, 10)):
        if rng.random() < pp:
            x = W.gen_prop_read(rng, graphs)
        else:
            x = W.gen_op(rng, graphs, names=names)
        dist = []
        while rng.random() < pd and len(dist) < 4:
            how = rng.choice(HOW)
            d = {"g": rng.randrange(k), "on": rng.choice(["A", "A", "cache", "all"]), "how": how, "u": rng.randrange(1000)}
            if how == "fmt":
                d["fmt"] = rng.choice(FMT)
                d["by"] = rng.choice(["by_row", "by_col"])
            dist.append(d)
        glob = None
        if rng.random() < 0.3:
            glob = {"format": rng.choice(["by_row", "by_col"]), "hyper": rng.choice([0.0, 0.0625, 1.0]), "bitmap": rng.choice([0.0, 0.06, 1e9])}
        h = {**x}
        if dist:
            h["dist"] = dist
        if glob:
            h["glob"] = glob
        h["mid"] = rng.choice([0, 0, 10, 40]) if rng.random() < 0.8 else 100  # percent of engine calls
        h["any"] = rng.choice([None, "lo", "hi", "mix"])
        if x.get("p", {}).get("undirected"):
            h["any"] = None  # which of two edge values an undirected graph keeps is documented as arbitrary
        h["perm"] = rng.choice([0, 0, rng.randrange(1, 1000)])
        h["salt"] = rng.randrange(1 << 30)
        scn["hist"].append(h)
    return scn


class Disturb:
    """Everything the simulated engine decides while one step runs."""

    def __init__(self, inst, st):
        self.mid, self.any, self.perm, self.salt = inst.get("mid", 0), inst.get("any"), inst.get("perm", 0), inst.get("salt", 0)
        self.busy = False
        self.n = 0
        self.st = st

    def rnd(self, what):
        self.n += 1
        return zlib.crc32(f"{self.salt}:{what}:{self.n}".encode())

    def count(self, k):
        self.st[k] = self.st.get(k, 0) + 1

    def choose(self, name, args):
        if name == "GrB_vxm" and args[2] is not None and type(args[5]).__name__ == "Matrix" and not self.busy:
            # SuiteSparse 8.2.1 loses results of `full += vector @ by-column matrix` (an engine defect, see DESIGN.md)
            self.busy = True
            args[5].ss.config["format"] = "by_row"
            self.busy = False
        if not self.any:
            return args
        for i, a in enumerate(args):
            t = type(a).__name__
            if t.startswith("TypedBuiltin") and a.name.startswith("any"):
                b = self.pick(t, a)
                if b is not None:
                    args = [*args[:i], b, *args[i + 1 :]]
                    self.count("any-choice")
        return args

    def pick(self, t, a):
        import graphblas as gb

        hi = {"lo": False, "hi": True}.get(self.any)
        if hi is None:
            hi = bool(self.rnd("any") & 64)
        try:
            if t == "TypedBuiltinBinaryOp":
                return (gb.binary.second if hi else gb.binary.first)[a.type]
            isbool = a.type.name == "BOOL"
            head = ("lor" if hi else "land") if isbool else ("max" if hi else "min")
            if t == "TypedBuiltinMonoid":
                return getattr(gb.monoid, head)[a.type]
            tail = a.name[len("any_") :]
            if tail == "pair":
                return None  # always 1
            if a.type.name.startswith("FP") and tail not in ("first", "second"):
                return None  # a computed NaN would lose to the identity of min and max
            return getattr(gb.semiring, f"{head}_{tail}")[a.type]
        except (AttributeError, KeyError):
            return None

    def after(self, name, args):
        if self.busy or not self.mid:
            return
        out = args[0]
        if type(out).__name__ not in ("Matrix", "Vector") or name.endswith("_free"):
            return
        r = self.rnd("mid")
        if r % 100 >= self.mid:
            return
        self.busy = True
        try:
            restore(out, FMT[(r >> 8) % 4], ("by_row", "by_col")[(r >> 12) & 1])
            self.count("inside-a-call")
        finally:
            self.busy = False

    def __enter__(self):
        seams.S.choose = self.choose
        seams.S.after_call = self.after
        PERM[0] = self.perm
        return self

    def __exit__(self, *a):
        seams.S.choose = seams.S.after_call = None
        PERM[0] = 0


def restore(x, fmt, by):
    import graphblas as gb

    if type(x) is gb.Matrix:
        x.ss.config["format"] = by
        x.ss.config["sparsity_control"] = fmt
    elif fmt != "hypersparse":
        x.ss.config["sparsity_control"] = fmt


PERM = [0]


def install_order():
    """Unsorted tuples in a seeded order: what to_coo(sort=False) allows the engine."""
    import graphblas as gb
    import numpy as np

    def wrap(real):
        def to_coo(self, dtype=None, *a, sort=True, **k):
            out = real(self, dtype, *a, sort=sort, **k)
            if PERM[0] and not sort:
                n = next((len(x) for x in out if x is not None), 0)
                # one order per content: what is asked twice comes in the same order
                c = zlib.crc32(b"".join(np.ascontiguousarray(x).tobytes() for x in real(self, sort=True)))
                perm = np.random.RandomState((PERM[0] * 7919 + c) % (1 << 31)).permutation(n)
                out = tuple(x if x is None else x[perm] for x in out)
            return out

        return to_coo

    for cls in (gb.Vector, gb.Matrix):
        cls.to_coo = wrap(cls.to_coo)


def targets(G, on, u):
    import graphblas as gb

    cached = [v for k, v in sorted(G._cache.items(), key=lambda kv: str(kv[0])) if type(v) in (gb.Matrix, gb.Vector)]
    if on == "A" or on == "cache" and not cached:
        return [G._A]
    if on == "cache":
        return [cached[u % len(cached)]]
    return [G._A, *cached]


def disturb(w, d, st):
    import graphblas as gb

    G = w.gag(d["g"])
    for x in targets(G, d["on"], d["u"]):
        if type(x) not in (gb.Matrix, gb.Vector):
            continue
        if d["how"] == "fmt":
            restore(x, d["fmt"], d["by"])
            st[f"{d['fmt']}"] = st.get(d["fmt"], 0) + 1
            continue
        if x.nvals == 0:
            continue
        coo = x.to_coo()
        j = d["u"] % len(coo[0])
        idx = tuple(int(c[j]) for c in coo[:-1])
        idx = idx[0] if len(idx) == 1 else idx
        val = coo[-1][j]
        if d["how"] == "uniso":
            if x.dtype.name == "BOOL":
                x[idx] = not val
            else:
                x[idx] = val + 1
            x[idx] = val
        else:
            del x[idx]
            if d["how"] == "pending":
                x.wait()
            x[idx] = val
        if x is G._A:  # whoever writes to the matrix drops what is cached about its storage
            G._cache.pop("is_iso", None)
            G._cache.pop("iso_value", None)
        st[d["how"]] = st.get(d["how"], 0) + 1


def set_global(g):
    import graphblas as gb

    gb.ss.config["format"] = g["format"]
    gb.ss.config["hyper_switch"] = g["hyper"]
    gb.ss.config["bitmap_switch"] = [g["bitmap"]] * 8


def _plain(scn):
    calls.KEEP_ORDER[0] = True
    w = W.World(scn)
    out = []
    for inst in scn["hist"]:
        with seams.Budget(W.LINE_BUDGET):
            out.append(w.run(inst))
    return out


def _disturbed(scn):
    calls.KEEP_ORDER[0] = True
    install_order()
    w = W.World(scn)
    st = {}
    out = []
    for inst in scn["hist"]:
        if "glob" in inst:
            set_global(inst["glob"])
            st["global"] = st.get("global", 0) + 1
        for d in inst.get("dist", ()):
            disturb(w, d, st)
        for i in inst["g"]:
            w.gag(i)
        with seams.Budget(W.LINE_BUDGET), Disturb(inst, st):
            out.append(w.run(inst))
    content = [w.content(i) for i in range(len(w.specs))]
    return out, content, st, seams.S.lines, seams.S.calls


def exact(inst, a, b):
    """Where several answers are right, the choice among them is not the storage's either."""
    if inst.get("f") in W.SEMANTIC - {"Graph.to_undirected"} and a[0] != "exc":
        return C.diff(a, b, 1e-9, 1e-9)
    if a[0] == "graph" and a[2] != b[2]:
        return f"node order {a[2]} vs {b[2]}"
    return None


def execute(scn):
    hist = scn["hist"]
    st = {"ops": len(hist), "checks": 0, "opnames": {}, "probes": {}, "states": [], "faults": {}}
    try:
        want = harness.sub(_plain, scn)
        got, content, st["faults"], st["lines"], st["calls"] = harness.sub(_disturbed, scn)
    except Crash as e:
        return {"v": {"cls": "crash", "msg": str(e)}, "digest": "crash", "st": st}
    w = W.World(scn)
    v = None
    for i, (inst, a, b) in enumerate(zip(hist, got, want)):
        what = inst.get("f") or inst.get("prop") or "+".join(inst["props"])
        label = inst.get("f") or "prop"
        st["opnames"][label] = st["opnames"].get(label, 0) + 1
        kinds = sorted({d["how"] + d.get("fmt", "") for d in inst.get("dist", ())})
        st["states"].append(harness.digest_of([what, kinds, inst.get("any"), bool(inst.get("mid")), bool(inst.get("perm"))]))
        if "f" in inst and "power" in OPS[inst["f"]].tags and (a[0] == "exc") != (b[0] == "exc"):
            continue  # rounding decides whether the last allowed iteration converges
        if "f" not in inst:
            a, b = W.no_iso(inst, a), W.no_iso(inst, b)
        st["checks"] += 1
        d = w.same(inst, a, b) or exact(inst, a, b)
        if d:
            v = {"cls": "storage-changes-answer", "msg": f"step {i} {what}: disturbed vs undisturbed: {d}"}
            break
    if v is None:
        for i, c in enumerate(content):
            d = C.diff(c, w.content_want(i), order=True)
            if d:
                v = {"cls": "graph-changed", "msg": f"graph {i}: {d}"}
    st["nontrivial"] = sum(st["faults"].values()) > 0 and sum(a[0] != "exc" for a in got) >= 2
    st["sample"] = [x.get("f") or x.get("prop") or x.get("props") for x in hist]
    return {"v": v, "digest": harness.digest_of([hist, got, v]), "st": st}


def shrink(scn):
    yield from W.shrink_steps(scn)
    h = scn["hist"]
    for i, inst in enumerate(h):
        for key, off in (("mid", 0), ("any", None), ("perm", 0)):
            if inst.get(key):
                yield {**scn, "hist": h[:i] + [{**inst, key: off}] + h[i + 1 :]}
        for key in ("glob", "dist"):
            if key in inst:
                yield {**scn, "hist": h[:i] + [{k: v for k, v in inst.items() if k != key}] + h[i + 1 :]}
        for j in range(len(inst.get("dist", ()))):
            yield {**scn, "hist": h[:i] + [{**inst, "dist": inst["dist"][:j] + inst["dist"][j + 1 :]}] + h[i + 1 :]}
    yield from W.shrink_params(scn)
    yield from W.shrink_graphs(scn)
