"""C11: every call ends within its budget and makes progress."""
import math

import numpy as np

from . import calls, canon as C, faults as F, harness, ref, seams, spec as S, world as W
from .harness import Crash
from .ops import OPS
from .seams import S as SEAM

ID = "C11"
RUNS = {"quick": 5000, "thorough": 90000}
RULE = (
    "One case: 1-2 adversarial graphs of up to 12 nodes, 30 in one run of 8 (negative, zero-sum and rounding cycles, periodic, "
    "disconnected, infinite and not-a-number weights) and a seeded history of 3-8 calls: the whole catalogue, iterative "
    "methods with every kind of budget, iterators consumed item by item, faults that strike once or persist until the end of "
    "a call; after faults stop the same question is asked again. Deadlines are in simulated time (source lines and engine "
    "calls). Non-trivial: at least 2 calls that returned; distinct by the hash of history and answers."
)
STATES = "hash of (call, weight kind, fault kind, outcome kind)"
ASSUMPTIONS = ["a deadline is a multiple of the size of the question; a call that needs more counts as not ending",
               "graphs of at most 30 nodes"]

ITER = ("pagerank", "eigenvector_centrality", "katz_centrality", "hits", "hits_authority")
MAXIT = (0, 1, 2, 3, 4, 5, 7, 10, 20, 50, 100, 300)
TOLS = (1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12, 1e-300, 0.0, -1.0)
WK = ("none", "int", "float", "dyadic", "neg", "zerosum", "decimal", "decimal", "zero", "huge", "tiny", "inf", "nan", "negall", "onneg", "wide")
PLAIN = {"none", "int", "float", "dyadic", "decimal", "zerosum", "neg", "negall", "onneg"}


# ---------------------------------------------------------------- generation
def adversarial(rng, nmax):
    s = S.gen_graph(rng, nmax=nmax, nmin=rng.choice([0, 1, 2]), wkinds=["int"])
    wk = rng.choice(WK)
    es = s["edges"]
    one = rng.randrange(len(es)) if es else 0
    pot = {}
    for i, e in enumerate(es):
        u, v = e[0], e[1]
        if wk == "neg":
            w = rng.choice([-3, -2, -1, 1, 2, 3, 4])
        elif wk == "float":
            w = round(rng.uniform(0.05, 4), 6)
        elif wk == "dyadic":
            w = rng.randint(1, 12) / 4
        elif wk in ("zerosum", "decimal"):
            # potentials make every directed cycle sum to zero, up to rounding
            for x in (u, v):
                pot.setdefault(x, rng.randint(-9, 9) / 10)
            w = pot[v] - pot[u] if rng.random() < 0.7 else rng.randint(-7, 9) / 10
            if wk == "zerosum":
                w = round(w, 3)
        elif wk == "zero":
            w = rng.choice([0, 0, 0, 1])
        elif wk == "huge":
            w = rng.choice([1e308, 1e300, 1.0, -1e308])
        elif wk == "tiny":
            w = rng.choice([5e-324, 1e-310, 1e-200, 1.0])
        elif wk == "inf":
            w = rng.choice([math.inf, 1.0, 2.0, -math.inf])
        elif wk == "nan":
            w = rng.choice([math.nan, 1.0, 2.0])
        elif wk == "negall":
            w = -1
        elif wk == "onneg":
            w = -20 if i == one else rng.randint(1, 4)
        elif wk == "none":
            w = 1
        elif wk == "wide":
            w = rng.choice([1e-9, 1.0, 1e9, 3e15])
        else:
            w = rng.randint(1, 5)
        e[2] = float(w) if wk in ("zero", "decimal", "zerosum", "huge", "tiny", "inf", "nan", "wide") else w
    s["wk"], s["adv"] = ("none" if wk == "none" else "negfloat" if any(isinstance(e[2], float) for e in es) else "negint"), wk
    s["how"] = rng.choice(["nx", "direct"])
    return s


def gen(rng, seed):
    nmax = 30 if rng.random() < 0.12 else rng.choice([4, 6, 9, 12])
    k = rng.choice([1, 1, 2])
    graphs = [adversarial(rng, nmax) for _ in range(k)]
    for g in graphs[1:]:
        if rng.random() < 0.5:
            g["directed"] = graphs[0]["directed"]
            if not g["directed"]:
                g["edges"] = list({(min(u, v), max(u, v)): [min(u, v), max(u, v), w] for u, v, w in g["edges"]}.values())
    scn = {"keys": rng.choice(("int", "str", "perm", "tuple", "mixed")), "graphs": graphs, "hist": []}
    pf = rng.choice([0, 0, 0.2, 0.5])
    pi = rng.choice([0.2, 0.5, 0.8])
    loopy = [n for n in W.NAMES if OPS[n].lazy or "bellman" in n or "path" in n or n in ("k_truss", "negative_edge_cycle", "bfs_layers", "ego_graph", "is_connected", "is_weakly_connected", "floyd_warshall", "lowest_common_ancestor", "ancestors", "descendants", "node_connected_component", "square_clustering")]
    for _ in range(rng.randint(3, 8)):
        if rng.random() < pi:
            c = gen_iter(rng, graphs)
        else:
            c = W.gen_op(rng, graphs, names=loopy if rng.random() < 0.6 else None)
            if OPS[c["f"]].lazy and rng.random() < 0.5:
                c["drip"] = True
        if rng.random() < pf:
            c["fault"] = F.draw(rng)
            if c["fault"]["exc"] in ("oom", "panic", "mem") and rng.random() < 0.5:
                c["fault"]["persist"] = True
        scn["hist"].append(c)
    return scn


def gen_iter(rng, graphs):
    i = rng.randrange(len(graphs))
    s = graphs[i]
    f = rng.choice(ITER)
    p = {}
    if rng.random() < 0.9:
        p["max_iter"] = rng.choice(MAXIT)
    if rng.random() < 0.85:
        p["tol"] = rng.choice(TOLS)
    n = s["n"]
    if n and rng.random() < 0.35:
        p["nstart"] = {"nd": [[j, rng.randint(1, 8) / 4] for j in range(n)]}
    if f == "pagerank":
        if rng.random() < 0.5:
            p["alpha"] = rng.choice([0.0, 0.3, 0.85, 0.99, 1.0])
        if n and rng.random() < 0.2:
            p["personalization"] = {"nd": [[j, rng.randint(1, 8) / 4] for j in rng.sample(range(n), rng.randint(1, n))]}
        if n and rng.random() < 0.2:
            p["dangling"] = {"nd": [[j, rng.randint(1, 8) / 4] for j in rng.sample(range(n), rng.randint(1, n))]}
    if f == "katz_centrality" and rng.random() < 0.7:
        p["alpha"] = rng.choice([0.01, 0.05, 0.1, 0.3, 1.0])
    if f in ("katz_centrality", "hits") and rng.random() < 0.3:
        p["normalized"] = False
    return {"f": f, "g": [i], "p": p, "it": True}


# ---------------------------------------------------------------- deadlines
def deadline(inst, specs):
    """(lines, engine calls) that no terminating call needs; about ten times what the code needs today."""
    n = sum(specs[i]["n"] for i in inst["g"]) + 2
    m = sum(len(specs[i]["edges"]) for i in inst["g"])
    it = 0
    if inst.get("it"):
        it = inst["p"].get("max_iter", 1000)
    elif inst["f"] in ("pagerank", "eigenvector_centrality", "katz_centrality", "hits"):
        it = inst["p"].get("max_iter", 1000)
    size = n * 40 + m * 10
    return 3000 + 40 * size + 300 * it, 2000 + 20 * size + 150 * it


class Overrun(BaseException):
    pass


class Clock:
    """Simulated deadlines for one call (or one item of an iterator), and the fault that strikes it."""

    def __init__(self, limits, fault=None, k=None):
        self.limits, self.fault, self.k = limits, fault, k
        self.n, self.fired = 0, False
        self.calls = 0

    def on_call(self, *a):
        self.calls += 1
        if self.calls > self.limits[1]:
            raise Overrun(f"more than {self.limits[1]} engine calls")
        if self.fault and self.fault["at"] == "call":
            self.hit()

    def hit(self, *a):
        self.n += 1
        if self.n == self.k or self.fired and self.fault.get("persist"):
            self.fired = True
            raise F.EXC[self.fault["exc"]]("injected")

    def __enter__(self):
        self.b = seams.Budget(self.limits[0])
        self.b.__enter__()
        self.l0 = SEAM.lines
        SEAM.on_call = self.on_call
        if self.fault and self.fault["at"] == "ret":
            SEAM.after_call = self.hit
        if self.fault and self.fault["at"] == "line":
            SEAM.on_line = self.hit
        return self

    def __exit__(self, *a):
        SEAM.on_call = SEAM.after_call = SEAM.on_line = None
        self.b.__exit__()
        self.lines = SEAM.lines - self.l0

    def restart(self):
        self.b.__exit__()
        self.b = seams.Budget(self.limits[0])
        self.b.__enter__()
        self.calls = 0


# ---------------------------------------------------------------- one call
def call(w, inst):
    """-> canonical outcome; raises Overrun / BudgetExceeded when the deadline is missed."""
    f = inst["f"]
    kw = calls.decode_params(inst["p"], w.keys)
    try:
        if f == "hits_authority":
            from graphblas_algorithms import algorithms

            G = w.gag(inst["g"][0])
            if "nstart" in kw:
                kw["nstart"] = G.dict_to_vector(kw["nstart"], dtype=float)
            h, a = algorithms.hits(G, with_authority=True, **kw)
            res = (G.vector_to_dict(h, fill_value=0.0), G.vector_to_dict(a, fill_value=0.0))
            return C.canon(res, w.keys)
        op = OPS[f]
        res = calls.ga_func(op)(*[w.gag(i) for i in inst["g"]], **kw)
        if inst.get("drip") and hasattr(res, "__next__"):
            limit = sum(w.specs[i]["n"] ** 2 for i in inst["g"]) * 2 + 10
            items = []
            for _ in range(limit + 1):
                try:
                    items.append(next(res))
                except StopIteration:
                    break
            else:
                raise Overrun(f"an iterator with more than {limit} items")
            for _ in range(2):
                if next(res, None) is not None:
                    raise Overrun("an exhausted iterator that goes on")
            res = items
        return calls.finish(op, res, w.keys, inst["p"])
    except F.EXCS as e:
        if isinstance(e, seams.BudgetExceeded):
            raise
        if isinstance(e, F.INJECTED):
            return ["injected", type(e).__name__]
        return C.canon(C.Exc(e), w.keys)


# ---------------------------------------------------------------- reference for iterative methods
def iter_domain(s, inst):
    """Graphs and parameters for which the documented iteration is well defined."""
    if not s["n"] or s["adv"] not in ("none", "int", "float", "dyadic"):
        return False
    f, p = inst["f"], inst["p"]
    if not ref.offdiag(s):
        return False
    tol = p.get("tol", 1e-6)
    return tol <= 0 or tol >= 1e-12


def iter_run(s, inst, keys, tol):
    """('ok', values) | ('exc',), from an independent implementation of the documented iteration."""
    f, p = inst["f"], inst["p"]
    n = s["n"]
    A = np.zeros((n, n))
    for u, v, x in s["edges"]:
        x = x if S.is_weighted(s) else 1.0
        A[u, v] = x
        if not s["directed"]:
            A[v, u] = x
    maxit = p.get("max_iter", {"katz_centrality": 1000}.get(f, 100))
    start = np.array([x for _, x in sorted(p["nstart"]["nd"])], float) if "nstart" in p else None

    def vec(d):
        x = np.zeros(n)
        for i, y in p[d]["nd"]:
            x[i] = y
        return x / x.sum()

    with np.errstate(all="ignore"):
        if f == "pagerank":
            alpha = p.get("alpha", 0.85)
            x = start / start.sum() if start is not None else np.full(n, 1 / n)
            pers = vec("personalization") if "personalization" in p else np.full(n, 1 / n)
            dang = vec("dangling") if "dangling" in p else pers
            out = A.sum(1)
            M = np.where(out[:, None] > 0, A / np.where(out > 0, out, 1)[:, None], 0)
            step = lambda x: alpha * (x @ M + x[out == 0].sum() * dang) + (1 - alpha) * pers  # noqa: E731
        elif f == "eigenvector_centrality":
            x = start / start.sum() if start is not None else np.full(n, 1 / n)

            def step(x):
                y = x + x @ A
                return y / (np.sqrt((y * y).sum()) or 1)
        elif f == "katz_centrality":
            alpha = p.get("alpha", 0.1)
            x = start if start is not None else np.zeros(n)
            step = lambda x: alpha * (x @ A) + 1.0  # noqa: E731
        else:
            x = start / start.sum() if start is not None else np.full(n, 1 / n)
            auth = f == "hits_authority"

            def step(x):
                y = A.T @ (A @ x) if auth else A @ (A.T @ x)
                return y / y.max() if y.max() else y
        for _ in range(maxit):
            y = step(x)
            err = np.abs(y - x).sum()
            if not np.isfinite(err):
                return ("undefined",)
            x = y
            if err < n * tol:
                break
        else:
            return ("exc",)
        if f == "katz_centrality" and p.get("normalized", True):
            x = x / np.sqrt((x * x).sum())
        if f in ("hits", "hits_authority"):
            if f == "hits_authority":
                a, h = x, A @ x
                h = h if p.get("normalized", True) else h / h.max()
            else:
                h, a = x, x_of(A, x, step)
            if p.get("normalized", True):
                h, a = h / h.sum(), a / a.sum()
            return ("ok", h, a)
    return ("ok", x)


def x_of(A, x, step):
    a = x @ A
    return a / a.max()


def judge_iter(s, inst, keys, got):
    """None or what is wrong with the outcome of an iterative method."""
    f, p = inst["f"], inst["p"]
    if not iter_domain(s, inst):
        return None, False
    tol = p.get("tol", 1e-8 if f.startswith("hits") else 1e-6)
    runs = [iter_run(s, inst, keys, tol * x) for x in (1, 1 - 1e-5, 1 + 1e-5)]
    kinds = {r[0] for r in runs}
    if len(kinds) > 1 or "undefined" in kinds:
        return None, False  # too close to the tolerance to tell
    if runs[0][0] == "exc":
        if got[0] != "exc":
            return f"an answer within max_iter={p.get('max_iter')}, tol={tol}, where the iteration has not converged", True
        names = {"ConvergenceFailure"} if f == "hits_authority" else {"PowerIterationFailedConvergence", "ArpackNoConvergence"}
        if f == "hits" and p.get("max_iter", 100) < 1:
            names = {"ValueError"}
        if not names & set(got[1]):
            return f"raises {got[1][0]} instead of the convergence error", True
        return None, True
    if got[0] == "exc":
        return f"raises {got[1][0]} although the iteration converges within max_iter={p.get('max_iter')}, tol={tol}", True
    if any(not np.array_equal(runs[0][1], r[1]) for r in runs[1:]):
        return None, True
    want = [{f"@{i}": ["num", float(x)] for i, x in enumerate(v)} for v in runs[0][1:]]
    w = ["map", want[0]] if len(want) == 1 else ["tuple", [["map", x] for x in want]]
    if f in ("hits", "hits_authority") and got[0] == "tuple":
        # after convergence h and a belong to neighbouring iterates
        return C.diff(got, w, max(20 * tol, 1e-7), max(20 * s["n"] * tol, 1e-7)), True
    return C.diff(got, w, 1e-6, 1e-9), True


# ---------------------------------------------------------------- execution
def _events(w, inst, limits):
    w = w.fresh()
    with Clock(limits) as clk:
        call(w, inst)
    return clk.lines, clk.calls


def execute(scn, record=None):
    st = {"ops": 0, "checks": 0, "opnames": {}, "probes": {}, "states": [], "faults": {}}
    w = W.World(scn)
    v = None
    log = []
    good = 0
    for i in range(len(scn["graphs"])):
        w.gag(i)
    for i, inst in enumerate(scn["hist"]):
        f = inst["f"]
        s = w.specs[inst["g"][0]]
        limits = deadline(inst, w.specs)
        st["ops"] += 1
        st["opnames"][f] = st["opnames"].get(f, 0) + 1
        fault = inst.get("fault")
        try:
            if fault:
                lines, ncalls = harness.sub(_events, w, inst, limits) if "k" not in fault else (0, 0)
                k = F.resolve(fault, lines, ncalls)
                if record is not None:
                    record[i] = k
                with Clock(limits, fault, k) as clk:
                    x = call(w, inst)
                kind = f"{fault['exc']}@{fault['at']}{'*' if fault.get('persist') else ''}"
                if clk.fired:
                    st["faults"][kind] = st["faults"].get(kind, 0) + 1
                log.append([f, x])
                st["checks"] += 1
            # faults have stopped: the question must be answered now
            with Clock(limits) as clk:
                x = call(w, inst)
        except (Overrun, seams.BudgetExceeded) as e:
            v = {"cls": "no-end", "msg": f"step {i} {f} {inst['p']}: {e}"}
            log.append([f, "no end"])
            break
        except Crash as e:
            v = {"cls": "crash" if "timeout" not in str(e) else "no-end", "msg": f"step {i} {f}: {e}"}
            break
        log.append([f, x])
        st["checks"] += 1
        st["states"].append(harness.digest_of([f, s.get("adv"), fault and fault["at"], x[0], "max_iter" in inst["p"] and inst["p"]["max_iter"]]))
        if x[0] == "injected":
            v = {"cls": "no-progress", "msg": f"step {i} {f}: an injected fault comes up again after faults stopped"}
            break
        good += x[0] != "exc"
        if inst.get("it"):
            d, judged = judge_iter(s, inst, w.keys, x)
            if judged:
                st["probes"]["budget_judged"] = st["probes"].get("budget_judged", 0) + 1
            if d:
                v = {"cls": "budget", "msg": f"step {i} {f}: {d}"}
                break
        elif all(w.specs[j]["adv"] in PLAIN for j in inst["g"]):
            want = judge_plain(w, inst)
            if want is not None:
                st["checks"] += 1
                d = w.judge_ref(inst, x, want)
                if d:
                    v = {"cls": "wrong-end", "msg": f"step {i} {f}: {d}"}
                    break
    st["nontrivial"] = good >= 2
    st["sample"] = [[g["adv"] for g in scn["graphs"]], [x["f"] for x in scn["hist"]]]
    st["lines"], st["calls"] = SEAM.lines, SEAM.calls
    return {"v": v, "digest": harness.digest_of([scn["hist"], log, v]), "st": st}


ENDS = {n for n in OPS if "bellman" in n or n in ("negative_edge_cycle", "has_path", "all_pairs_shortest_path_length", "single_source_shortest_path_length",
        "single_target_shortest_path_length", "bfs_layers", "descendants_at_distance", "k_truss", "is_connected", "is_weakly_connected",
        "node_connected_component", "ancestors", "descendants", "lowest_common_ancestor", "efficiency", "ego_graph", "is_simple_path")}


def judge_plain(w, inst):
    """Where a search has to end, and how: NetworkX's answer, for exactly representable weights."""
    if inst["f"] not in ENDS or any(w.specs[j]["adv"] in ("zerosum", "decimal") for j in inst["g"]):
        return None
    return w.want({k: inst[k] for k in ("f", "g", "p")})


def explicit(scn):
    rec = {}
    seams.reset()
    execute(scn, rec)
    h = []
    for i, c in enumerate(scn["hist"]):
        if i in rec:
            c = {**c, "fault": {**{k: v for k, v in c["fault"].items() if k != "u"}, "k": rec[i]}}
        h.append(c)
    return {**scn, "hist": h}


def shrink(scn):
    yield from W.shrink_steps(scn)
    h = scn["hist"]
    for i, c in enumerate(h):
        if "fault" in c:
            yield {**scn, "hist": h[:i] + [{k: v for k, v in c.items() if k != "fault"}] + h[i + 1 :]}
    for i, c in enumerate(h):
        for name in list(c["p"]):
            if c.get("it") and name not in ("max_iter", "tol"):
                yield {**scn, "hist": h[:i] + [{**c, "p": {k: v for k, v in c["p"].items() if k != name}}] + h[i + 1 :]}
    for cand in W.shrink_graphs(scn):
        yield cand
