"""C10: node names, hash order and insertion order do not change answers."""
import json
import os
import subprocess
import sys

from . import canon as C, harness, ref, seams, spec as S, world as W
from .harness import Crash
from .ops import OPS

ID = "C10"
RUNS = {"quick": 5000, "thorough": 90000}
HASHSEEDS = {"quick": (1, 77), "thorough": (1, 2, 3, 77, 4000000001)}
HASHRUNS = {"quick": 700, "thorough": 8000}
RULE = (
    "One case: 1-3 small graphs and a seeded history of 3-10 operations and property reads on them and on graphs that "
    "operations returned, executed once as drawn and again in 1-3 variant worlds: other node names, other simulated "
    "hashes, other insertion order of nodes and edges, other order of the client's collections, equal but not identical "
    "names. Answers must agree after renaming. A part of the cases runs again in processes with other hash seeds. "
    "Non-trivial: at least 3 answers compared that are not exceptions; distinct by the hash of history and answers."
)
STATES = "hash of (question, variant kind, key kind)"
ASSUMPTIONS = ["graphs of at most 9 nodes", "ties that NetworkX documents as arbitrary are compared by their defining property"]

KINDS = ("int", "perm", "str", "tuple", "mixed", "salt", "rot", "neg", "big", "float", "bytes", "fset", "sstr", "clash", "lookalike")
VARIANTS = ("keys", "keys", "hash", "hash", "order", "order", "edges", "coll", "alias")
# parameters whose order is a matter of the question
ORDERED = {"nodelist", "path"}
PATHOPS = {"is_simple_path"}
# properties that are defined by the numbering of the nodes or by storage
BYID = {"U+", "U-", "L+", "L-", "is_iso", "iso_value"}


class SStr(str):
    """A string whose hash the simulator decides."""

    __slots__ = ("h",)
    salt = 0

    def __new__(cls, s, i):
        self = str.__new__(cls, s)
        k = SStr.salt
        self.h = hash((k * 7919 + 104729 * (i + 3) * (2 * k + 1)) & 0xFFFFFFFF)
        return self

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return str.__eq__(self, other)

    def __ne__(self, other):
        return not self == other


class Clash:
    """All names share one hash value."""

    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return 5

    def __eq__(self, other):
        return type(other) is Clash and other.i == self.i

    def __repr__(self):
        return f"C{self.i}"


def make_key(kind, i):
    if kind == "rot":
        return (i + 1) % 40
    if kind == "neg":
        return -i - 1
    if kind == "big":
        return 2**64 + 3 * i
    if kind == "float":
        return i + 0.25
    if kind == "bytes":
        return b"b%d" % i
    if kind == "fset":
        return frozenset([i, i + 100])
    if kind == "sstr":
        return SStr(f"s{i}", i)
    if kind == "clash":
        return Clash(i)
    if kind == "lookalike":
        # names that are easily taken for something else
        return ("weight", "A", "nodes", "None", "G", "1", "x,y", "0", "H", "key")[i] if i < 10 else f"z{i}"
    if kind == "nest":
        # every name is a collection of other names, too
        if i < 2:
            return "ab"[i]
        if i == 39:
            return i
        t = bin(i)[2:].replace("0", "a").replace("1", "b")
        return t if i % 3 else tuple(t + "aba")
    return S.make_key(kind, i)


def again(kind, i, k):
    """A name equal to k, but another object."""
    if kind in ("int", "perm", "rot", "neg") and i % 2:
        return float(k)
    if kind == "str":
        return "".join(list(k))
    if kind == "tuple":
        return tuple(list(k))
    if kind == "bytes":
        return bytes(bytearray(k))
    if kind == "float":
        import numpy as np

        return np.float64(k)
    if kind == "fset":
        return frozenset(set(k))
    if kind == "lookalike":
        return "".join(list(k)) if isinstance(k, str) else tuple(list(k))
    return make_key(kind, i)


class Keys:
    def __init__(self, kind, *, salt=0, alias=False, n=40):
        S.SimKey.salt = SStr.salt = salt
        self.kind = kind
        self.node = [make_key(kind, i) for i in range(n)]
        self.alias = [again(kind, i, k) for i, k in enumerate(self.node)] if alias else self.node
        self.back = {k: i for i, k in enumerate(self.node)}
        assert len(self.back) == n
        for p in "GH":
            for i, k in enumerate(self.node):
                for x in (f"{p}{k}",):
                    self.back.setdefault(x, f"{p}{i}")

    def __getitem__(self, i):
        return self.alias[i]

    def unkey(self, k):
        try:
            return self.back.get(k)
        except TypeError:
            return None


class World(W.World):
    def __init__(self, scn, var):
        self.var = var
        self.keys = Keys(var["keys"], salt=var.get("salt", 0), alias=var.get("alias", False))
        self.base = [s if s is None else dict(s) for s in scn["graphs"]]
        self.specs = [vary_spec(s, var) for s in scn["graphs"]]
        self.nx, self.ga = {}, {}

    def nxg(self, i):
        if i not in self.nx:
            self.nx[i] = S.to_nx(self.specs[i], self.keys.node)
        return self.nx[i]

    def build(self, i):
        s = self.specs[i]
        if s.get("how") == "direct":
            return S.to_ga_direct(s, self.keys.node)
        return S.to_ga(s, self.keys.node, S.to_nx(s, self.keys.node))

    def adopt(self, raw):
        import graphblas_algorithms as ga

        spec = None
        if isinstance(raw, ga.Graph) and len(raw):
            c = C.canon(raw, self.keys)
            if all(x[0] == "@" and x[1:].isdigit() for x in c[2]) and len(set(c[2])) == len(c[2]):
                spec = {"directed": c[1], "n": len(c[2]), "order": [int(x[1:]) for x in c[2]], "wk": "int", "derived": True,
                        "edges": [[*(int(y[1:]) for y in k.split(">")), x] for k, x in c[3].items()]}
        self.specs.append(spec)
        if spec is not None:
            self.ga[len(self.specs) - 1] = raw
        return spec


NODEPARAMS = {"nodes", "sources", "source", "target", "n", "u", "v", "node", "S", "T", "nbunch1", "nbunch2", "nodelist", "personalization",
              "nstart", "dangling", "path", "D", "communities", "partition", "node1", "node2", "center", "nbunch", "beta"}
NAMED = [n for n in W.NAMES if any(p.name in NODEPARAMS for p in OPS[n].params)]
STORM = 0.3
STORMKINDS = ("tuple", "fset", "nest", "mixed", "lookalike", "big", "float", "clash", "str", "int")


def vary_spec(s, var):
    s = dict(s)
    if var["kind"] == "order":
        # a permutation of the positions: the i-th smallest name by a seeded rank
        s["order"] = sorted(s["order"], key=lambda i: rank(i, var["seed"]))
    if var["kind"] in ("order", "edges"):
        es = [[v, u, w] if not s["directed"] and rank(u * 64 + v, var["seed"]) % 2 else [u, v, w] for u, v, w in s["edges"]]
        s["edges"] = sorted(es, key=lambda e: rank(e[0] * 64 + e[1] + 5000, var["seed"]))
    return s


def rank(i, seed):
    import zlib

    return zlib.crc32(f"{seed}:{i}".encode())


def vary_inst(inst, var):
    if var["kind"] != "coll" or "p" not in inst:
        return inst
    p = {}
    for name, v in inst["p"].items():
        if isinstance(v, dict) and name not in ORDERED and inst["f"] not in PATHOPS:
            if "ns" in v:
                v = {**v, "ns": sorted(v["ns"], key=lambda i: rank(i, var["seed"]))}
                if v["as"] == "set":
                    pass
            elif "nd" in v:
                v = {"nd": sorted(v["nd"], key=lambda x: rank(x[0], var["seed"]))}
            elif "blocks" in v:
                v = {"blocks": sorted(v["blocks"], key=lambda b: rank(b[0], var["seed"]))}
        p[name] = v
    return {**inst, "p": p}


def storm(rng, scn):
    """Many questions about nodes, asked under many kinds of names."""
    scn["graphs"] = graphs = scn["graphs"][:1]
    names = rng.sample(NAMED, rng.randint(4, 12))
    for _ in range(rng.randint(10, 20)):
        scn["hist"].append(W.gen_op(rng, graphs, names=names, routes=("ga", "ga", "nxga", "nxback")))
    first = [x for x in STORMKINDS if x != scn["base"]["keys"]]
    kinds = rng.sample(first, rng.randint(2, 4))
    scn["vars"] = [{"kind": "keys", "keys": k, "salt": 0} for k in kinds]
    return scn


def gen(rng, seed):
    k = rng.choice([1, 1, 2, 3])
    graphs = W.gen_specs(rng, k)
    kind = rng.choice(KINDS)
    scn = {"graphs": graphs, "hist": [], "base": {"kind": "base", "keys": kind, "salt": 0}, "vars": []}
    if rng.random() < STORM:
        return storm(rng, scn)
    names = rng.sample(W.NAMES, rng.randint(6, 20)) if rng.random() < 0.4 else None
    specs = list(graphs)
    pp = rng.choice([0, 0.15, 0.4])
    for _ in range(rng.randint(3, 10)):
        r = rng.random()
        slot = W.late_slot(rng, specs, graphs)
        if r < 0.12:
            x = W.gen_op(rng, specs, names=[n for n in W.NEWGRAPH if n not in ("disjoint_union", "Graph.to_undirected", "ego_graph")])
            scn["hist"].append({**x, "keep": True})
            s = specs[x["g"][0]]
            specs.append({**s, "directed": s["directed"] and x["f"] != "Graph.to_undirected"})
        elif r < pp + 0.12:
            scn["hist"].append(W.gen_prop_read(rng, specs, slot))
        else:
            scn["hist"].append(W.gen_op(rng, specs, names=names, slot=slot, routes=("ga",) if slot >= k else ("ga", "ga", "nxga", "nxback")))
    for i in range(rng.choice([1, 2, 2, 3])):
        v = {"kind": rng.choice(VARIANTS), "keys": kind, "salt": 0}
        if v["kind"] == "keys":
            v["keys"] = rng.choice([x for x in KINDS if x != kind])
        elif v["kind"] == "hash":
            if kind not in ("salt", "sstr"):
                v["keys"] = rng.choice(["salt", "sstr"])
            v["salt"] = rng.randint(1, 1000)
        elif v["kind"] == "alias":
            v["alias"] = True
        else:
            v["seed"] = rng.randint(1, 10**6)
        scn["vars"].append(v)
    return scn


# ---------------------------------------------------------------- execution
def _history(scn, var):
    w = World(scn, var)
    out = []
    for inst in scn["hist"]:
        if not w.usable(inst):
            out.append(["skipped"])
            if inst.get("keep"):
                w.specs.append(None)
            continue
        orders = [list(w.specs[i]["order"]) for i in inst["g"]]
        with seams.Budget(W.LINE_BUDGET):
            x = w.run(vary_inst(inst, var))
        out.append(normal(inst, x, orders))
    return out, [s and {**s, "derived": "derived" in s} for s in w.specs], seams.S.lines, seams.S.calls


def normal(inst, x, orders):
    """Answers that are indexed by position become indexed by name."""
    o = orders[0]
    if "prop" in inst:
        return by_name(inst["prop"], x, o)
    if "props" in inst:
        return ["list", [by_name(n, y, o) for n, y in zip(inst["props"], x[1])]] if x[0] == "list" else x
    if x[0] == "mat" and "nodelist" not in inst["p"] and len(x[1]) == len(o):
        n = len(o)
        pos = {i: p for p, i in enumerate(o)}
        ns = sorted(o)
        return ["mat", [[x[1][pos[a]][pos[b]] for b in ns] for a in ns]] if n else x
    if inst["f"] == "disjoint_union" and x[0] == "graph":
        lab = [f"G{i}" for i in orders[0]] + [f"H{i}" for i in orders[1]]
        return relabel(x, lab)
    return x


def relabel(x, lab):
    # the nodes of a disjoint union are the integers 0..n-1, which may or may not be names of the run
    names = {k: lab[i] for i, k in enumerate(x[2])} if len(x[2]) == len(lab) else {}
    if not names:
        return x
    return ["graph", x[1], sorted(names.values()), {">".join(names.get(y, y) for y in k.split(">")): v for k, v in x[3].items()}]


def by_name(name, x, o):
    if name in BYID:
        return ["exc" if x[0] == "exc" else "byid"] + (x[1:] if x[0] == "exc" else [])
    if x[0] != "map":
        return x
    return ["map", {",".join(f"@{o[int(i)]}" for i in k.split(",")): v for k, v in x[1].items()}]


def answers(scn):
    """What other processes compare: the answers of the world as drawn."""
    out, _, _, _ = _history(scn, scn["base"])
    return [sort_answer(x) for x in out]


def sort_answer(x):
    """Without floating-point noise: rounded, insensitive to the order of maps."""
    return json.loads(json.dumps(x, sort_keys=True))


def _semantic(scn, specs, inst, a, b):
    f = inst.get("f")
    if f is None:
        return C.diff(a, b, 1e-9, 1e-9)
    op = OPS[f]
    if a[0] == "byid":
        return None
    if a[0] == "exc" == b[0] and {"nodes", "sources"} & set(inst["p"]):
        return None  # an absent name may be iterable (str) or not (int)
    if (a[0] == "exc") != (b[0] == "exc") and "power" in op.tags:
        e = a if a[0] == "exc" else b
        if "PowerIterationFailedConvergence" in e[1] or "ConvergenceFailure" in e[1]:
            return None  # sums in another order may need one more iteration than allowed
    if f in ref.FW | {"ego_graph"} and ref.neg_cycle({**specs[inst["g"][0]], "n": 40}):
        return None  # distances are not defined
    either = f == "ego_graph" and specs[inst["g"][0]]["directed"] and inst["p"].get("undirected") and inst["p"].get("distance")
    if f in W.SEMANTIC or either:
        return tie_diff(scn, specs, inst, a, b)
    rt, at = op.tol
    return C.diff(a, b, max(rt, 1e-9), max(at, 1e-9))


def tie_diff(scn, specs, inst, a, b):
    """Answers that may pick any of several equally good values."""
    f = inst["f"]
    op = OPS[f]
    if f == "ego_graph" and "exc" not in (a[0], b[0]):
        return None  # which of two opposite weights an undirected view keeps is arbitrary
    if "exc" in (a[0], b[0]):
        return C.diff(a, b)
    if f == "edge_boundary":
        s = specs[inst["g"][0]]
        if s["directed"] or a[0] != "set" or b[0] != "set":
            return C.diff(a, b)
        g = lambda x: sorted({">".join(sorted(e.split(">"))) for e in x[1]})  # noqa: E731
        return None if g(a) == g(b) else f"{g(a)} vs {g(b)}"
    if any(specs[i]["derived"] for i in inst["g"]):
        return None if a[0] == b[0] else f"{C.short(a)} vs {C.short(b)}"
    gs = [scn["graphs"][i] for i in inst["g"]]
    keys = S.Keys("str")
    w = ref.want(op, gs, inst["p"], keys, inst.get("r", "ga"))
    if w is None:
        return None if a[0] == b[0] else f"{C.short(a)} vs {C.short(b)}"
    for x in (a, b):
        d = ref.agree(op, gs, inst["p"], keys, unorder(x), unorder(w), inst.get("r", "ga"))
        if d:
            return d
    return None


def unorder(x):
    return [x[0], x[1], sorted(x[2]), x[3]] if x[0] == "graph" else x


def execute(scn):
    st = {"ops": len(scn["hist"]), "checks": 0, "opnames": {}, "probes": {}, "states": []}
    v = None
    try:
        base, specs, st["lines"], st["calls"] = harness.sub(_history, scn, scn["base"])
    except Crash as e:
        return {"v": {"cls": "crash", "msg": str(e)}, "digest": "crash", "st": st}
    if "hashseed" in scn:
        v = other_process(scn, base)
        return {"v": v, "digest": harness.digest_of([scn["hist"], base, v]), "st": st}
    good = set()
    for j, var in enumerate(scn["vars"]):
        try:
            got, _, li, ca = harness.sub(_history, scn, var)
        except Crash as e:
            v = {"cls": "crash", "msg": f"variant {var}: {e}"}
            break
        st["lines"] += li
        st["calls"] += ca
        name = var["kind"]
        st["probes"][f"variant_{name}"] = st["probes"].get(f"variant_{name}", 0) + 1
        for i, inst in enumerate(scn["hist"]):
            label = inst.get("f") or "prop"
            what = inst.get("f") or inst.get("prop") or "+".join(inst["props"])
            a, b = base[i], got[i]
            if j == 0:
                st["opnames"][label] = st["opnames"].get(label, 0) + 1
            st["states"].append(harness.digest_of([what, name, var["keys"]]))
            if a == ["skipped"] or b == ["skipped"]:
                if a != b:
                    v = {"cls": "names-change-answer", "msg": f"step {i} {what}: {C.short(a)} vs {C.short(b)} in variant {var}"}
                continue
            st["checks"] += 1
            d = compare(scn, specs, inst, a, b)
            if a[0] != "exc":
                good.add(i)
            if d:
                v = {"cls": "names-change-answer", "msg": f"step {i} {what} in variant {var}: {d}"}
                break
        if v:
            break
    st["nontrivial"] = len(good) >= 3
    st["sample"] = [scn["base"]["keys"], [x["kind"] for x in scn["vars"]], [x.get("f") or x.get("prop") or x.get("props") for x in scn["hist"]]]
    return {"v": v, "digest": harness.digest_of([scn["hist"], base, v]), "st": st, "ans": harness.digest_of([sort_answer(x) for x in base])}


def compare(scn, specs, inst, a, b):
    if "props" in inst and a[0] == "list" == b[0]:
        for n, x, y in zip(inst["props"], a[1], b[1]):
            if x[0] != "byid":
                d = C.diff(x, y, 1e-9, 1e-9, n)
                if d:
                    return d
        return None
    if a[0] == "byid" == b[0]:
        return None
    return _semantic(scn, specs, inst, unorder(a), unorder(b))


# ---------------------------------------------------------------- real hash seeds
def other_process(scn, base):
    """The same history in a process with another hash seed of the interpreter."""
    from . import boot

    env = {**os.environ, "DST_HASHSEED": str(scn["hashseed"])}
    p = subprocess.run([boot.PYTHON, os.path.join(os.path.dirname(__file__), "run.py"), ID, "--answers", "-"],
                       input=json.dumps(scn), capture_output=True, text=True, env=env, timeout=120)
    if p.returncode:
        raise boot.HarnessError(p.stderr[-2000:])
    other = json.loads(p.stdout.splitlines()[-1])
    for i, inst in enumerate(scn["hist"]):
        a = sort_answer(base[i])
        if a != other[i]:
            what = inst.get("f") or inst.get("prop") or "+".join(inst["props"])
            return {"cls": "hash-seed-changes-answer",
                    "msg": f"step {i} {what}: {C.short(a)} vs {C.short(other[i])} with hash seed {scn['hashseed']}"}
    return None


def hash_pass(tier, seeds, ans, wall):
    """Run the first seeds again under other hash seeds -> [(seed, hashseed)] that differ, number of runs."""
    import time

    from . import boot

    end = time.monotonic() + wall
    bad, runs = [], 0
    n = min(HASHRUNS[tier], len(seeds))
    for h in HASHSEEDS[tier]:
        left = end - time.monotonic()
        if left < 5:
            break
        env = {**os.environ, "DST_HASHSEED": str(h)}
        p = subprocess.run([boot.PYTHON, os.path.join(os.path.dirname(__file__), "run.py"), ID, "--answers", f"{seeds[0]}:{n}", "--wall", str(left)],
                           capture_output=True, text=True, env=env)
        if p.returncode:
            raise boot.HarnessError(p.stderr[-2000:])
        for s, d in json.loads(p.stdout.splitlines()[-1]).items():
            if int(s) in ans:
                runs += 1
                if ans[int(s)] != d:
                    bad.append((int(s), h))
    return sorted(bad), runs


def shrink(scn):
    if len(scn["vars"]) > 1:
        for i in range(len(scn["vars"])):
            yield {**scn, "vars": [scn["vars"][i]]}
    if "hashseed" in scn and scn["vars"]:
        yield {**scn, "vars": []}
    yield from W.shrink_steps(scn)
    yield from W.shrink_params(scn)
    for cand in W.shrink_graphs({**scn, "keys": "str"}):
        yield {k: v for k, v in cand.items() if k != "keys"}
    if "hashseed" not in scn:
        for v in ("int", "str"):
            if scn["base"]["keys"] not in ("int", "str"):
                yield {**scn, "base": {**scn["base"], "keys": v}, "vars": [x if x["keys"] != scn["base"]["keys"] else {**x, "keys": v} for x in scn["vars"]]}
