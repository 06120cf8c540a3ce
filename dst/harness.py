"""Forked, isolated execution of simulated runs; worker pool; shrinking; reporting.

A run is a pure function (property, scenario, code under test) -> result dict:
  {"v": None | {"cls": str, "msg": str}, "digest": str, "st": {...counters...}}
Every run happens in its own forked process of an already-imported zygote, so that no process-wide
state leaks from run to run and a run may crash, hang or corrupt memory without consequences.
"""
import gc
import hashlib
import json
import os
import pickle
import resource
import random
import select
import signal
import struct
import sys
import time
import traceback

from . import boot, seams

MEMORY = 3 << 30
RUN_TIMEOUT = 60.0


class Crash(Exception):
    pass


def prepare():
    """Import the code under test with all seams installed, warm up, freeze."""
    seams.install_locks()
    ga = boot.load()
    import networkx
    import numpy
    import scipy.sparse

    import graphblas_algorithms.interface

    saved = []
    for cls in (ga.Graph, ga.DiGraph):
        for name, val in list(vars(cls).items()):
            if isinstance(val, dict):
                saved.append((val, dict(val)))
    from . import calls, ref, spec
    from .ops import OPS

    nlines = seams.install_lines()
    rng = random.Random(5)
    keys = spec.Keys("int")
    for op in OPS.values():
        for wk in ("none", "int", "float"):
            for _ in range(2):
                d = {"both": rng.random() < 0.5, "u": False, "d": True}[op.d]
                sp = [spec.gen_graph(rng, directed=d, nmin=3, nmax=5, wkinds=[wk]) for _ in range(op.ng)]
                p = op.gen(rng, sp[0])
                nxg = [spec.to_nx(s, keys) for s in sp]
                gag = [spec.to_ga(s, keys, g) for s, g in zip(sp, nxg)]
                with seams.Budget(200_000):
                    calls.call_ga(op, gag, p, keys, "ga")
                try:
                    ref.want(op, sp, p, keys, "ga", nxg)
                except Exception:
                    pass
    for val, old in saved:
        val.clear()
        val.update(old)
    seams.install_engine()
    seams.reset()
    gc.collect()
    gc.freeze()
    gc.disable()
    return nlines


# ---------------------------------------------------------------- isolated execution
def _read_exact(fd, n, deadline):
    buf = b""
    while len(buf) < n:
        left = deadline - time.monotonic()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        chunk = os.read(fd, n - len(buf))
        if not chunk:
            return buf
        buf += chunk
    return buf


def isolated(fn, *args, timeout=RUN_TIMEOUT):
    """Run fn(*args) in a forked child, return ("ok", value) | ("err", text) | ("sig", n) | ("timeout",)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            # what goes wild fails by itself, instead of taking the sandbox's memory
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
            try:
                out = pickle.dumps(("ok", fn(*args)))
            except BaseException:
                out = pickle.dumps(("err", traceback.format_exc()[-3000:]))
            out = struct.pack("<Q", len(out)) + out
            while out:
                k = os.write(w, out)
                out = out[k:]
        except BaseException:
            code = 77
        finally:
            os._exit(code)
    os.close(w)
    deadline = time.monotonic() + timeout
    try:
        head = _read_exact(r, 8, deadline)
        body = None
        if head is not None and len(head) == 8:
            (n,) = struct.unpack("<Q", head)
            body = _read_exact(r, n, deadline)
        if head is None or (len(head) == 8 and body is None):
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return ("timeout",)
    finally:
        os.close(r)
    _, status = os.waitpid(pid, 0)
    if body is not None and len(head) == 8 and len(body) == n:
        return pickle.loads(body)
    if os.WIFSIGNALED(status):
        return ("sig", os.WTERMSIG(status))
    return ("err", f"child exited with status {status} and no result")


def sub(fn, *args):
    """Isolated computation inside a run (e.g. an oracle): result or Crash."""
    r = isolated(fn, *args)
    if r[0] == "ok":
        return r[1]
    if r[0] == "sig":
        raise Crash(f"signal {r[1]}")
    if r[0] == "timeout":
        raise Crash("timeout")
    raise boot.HarnessError(r[1])


def digest_of(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def run_scenario(prop, scn, timeout=RUN_TIMEOUT):
    """-> result dict; crashes of the child become violations, harness errors raise."""
    r = isolated(_exec, prop, scn, timeout=timeout)
    if r[0] == "ok":
        return r[1]
    if r[0] == "sig" and r[1] in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
        return {"v": {"cls": "crash", "msg": f"process died with signal {r[1]}"}, "digest": f"sig{r[1]}", "st": {}}
    if r[0] == "timeout":
        return {"v": None, "timeout": True, "digest": "timeout", "st": {}}
    return {"v": None, "error": str(r[1:]), "digest": "error", "st": {}}


def _exec(prop, scn):
    seams.reset()
    random.seed(12345)
    import numpy as np

    np.random.seed(12345)
    return prop.execute(scn)


def gen_scenario(prop, seed):
    rng = random.Random(f"{prop.ID}:{seed}")
    scn = prop.gen(rng, seed)
    # what is executed is exactly what would be read back from a replay file
    return json.loads(json.dumps(scn))


# ---------------------------------------------------------------- worker pool
def _worker(prop, seeds, w, stop_fd, deadline, keep_samples):
    """Runs its seeds; streams pickled records."""
    for k, seed in enumerate(seeds):
        if time.monotonic() > deadline:
            break
        r, _, _ = select.select([stop_fd], [], [], 0)
        if r:
            break
        try:
            res = isolated(_gen_exec, prop, seed)
        except BaseException:
            res = ("err", traceback.format_exc()[-3000:])
        if res[0] == "ok":
            rec = res[1]
        elif res[0] == "sig" and res[1] in (
            signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL,
        ):
            rec = {"v": {"cls": "crash", "msg": f"process died with signal {res[1]}"}, "digest": "sig", "st": {}}
        elif res[0] == "timeout":
            rec = {"v": None, "timeout": True, "digest": "timeout", "st": {}}
        else:
            rec = {"v": None, "error": str(res[1:]), "digest": "error", "st": {}}
        rec["seed"] = seed
        out = pickle.dumps(rec)
        out = struct.pack("<Q", len(out)) + out
        while out:
            n = os.write(w, out)
            out = out[n:]
    os.close(w)


def _gen_exec(prop, seed):
    return _exec(prop, gen_scenario(prop, seed))


def pool(prop, seeds, nworkers, wall, on_record):
    """Run all seeds over nworkers zygote processes; on_record(rec) -> True to stop early."""
    stop_r, stop_w = os.pipe()
    deadline = time.monotonic() + wall
    fds = {}
    pids = []
    for i in range(nworkers):
        mine = seeds[i::nworkers]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(stop_w)
                for fd in fds:
                    os.close(fd)
                _worker(prop, mine, w, stop_r, deadline, 3)
            finally:
                os._exit(0)
        os.close(w)
        fds[r] = b""
        pids.append(pid)
    stopped = False
    while fds:
        ready, _, _ = select.select(list(fds), [], [], 5.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                os.close(fd)
                del fds[fd]
                continue
            buf = fds[fd] + chunk
            while len(buf) >= 8:
                (n,) = struct.unpack("<Q", buf[:8])
                if len(buf) < 8 + n:
                    break
                rec = pickle.loads(buf[8 : 8 + n])
                buf = buf[8 + n :]
                if on_record(rec) and not stopped:
                    os.write(stop_w, b"x")
                    stopped = True
            fds[fd] = buf
    for pid in pids:
        os.waitpid(pid, 0)
    os.close(stop_r)
    os.close(stop_w)


# ---------------------------------------------------------------- shrinking
def shrink(prop, scn, cls, wall=60.0, nworkers=8):
    """Greedy minimisation: keep a smaller scenario while it fails with the same class."""
    end = time.monotonic() + wall
    best = scn
    best_res = run_scenario(prop, scn)
    tried = set()
    steps = 0
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        batch = []
        for cand in prop.shrink(best):
            cand = json.loads(json.dumps(cand))
            h = digest_of(cand)
            if h in tried:
                continue
            tried.add(h)
            res = run_scenario(prop, cand, timeout=20)
            steps += 1
            if res["v"] and res["v"]["cls"] == cls:
                best, best_res = cand, res
                improved = True
                break
            if time.monotonic() > end:
                break
    return best, best_res, steps
