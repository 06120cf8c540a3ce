"""Seams: every point where the simulator observes or decides something inside a run.

* Line seam      - every source line of graphblas_algorithms that is about to execute
                   (sys.monitoring LINE events; no change to /repo needed).
* Engine seam    - every call into the GraphBLAS C library made through python-graphblas.
* Lock seam      - threading.Lock/RLock created by repository code become simulated locks.
* `any` seam     - the value an `any` operator picks.

One `Sim` object is active per process; hooks are plain Python callables invoked in a fixed order.
Step counters are deterministic: they only count events caused by repository code.
"""
import functools
import gc
import os
import sys
import threading
import types

from . import boot

TOOL = 4
mon = sys.monitoring


class BudgetExceeded(BaseException):
    """The simulated deadline: more repository lines executed than any terminating call needs."""


class InjectedInterrupt(KeyboardInterrupt):
    pass


class State:
    """What the seams consult. Everything is reset per run."""

    def __init__(self):
        self.lines = 0          # repository lines executed so far
        self.calls = 0          # engine calls so far
        self.budget = None      # absolute bound on self.lines
        self.on_line = None     # callable(code, line)
        self.on_call = None     # callable(cfunc_name, args) before the engine call
        self.after_call = None  # callable(cfunc_name, args) after the engine call
        self.choose = None      # callable(cfunc_name, args) -> args: free choices of the engine
        self.fatal = None


S = State()
_real_call = None
_in_hook = False
REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock


# ---------------------------------------------------------------- line seam
def _on_line(code, line):
    S.lines += 1
    if S.budget is not None and S.lines > S.budget:
        b = S.budget
        S.budget = None
        raise BudgetExceeded(f"more than {b} lines")
    if S.on_line is not None:
        S.on_line(code, line)


def _codes(root):
    seen = set()
    out = []

    def walk(c):
        if c in seen:
            return
        seen.add(c)
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            c = o.__code__
            if c.co_filename.startswith(root) and "/tests/" not in c.co_filename:
                walk(c)
    # functions are also reachable through wrappers' closures: gc.get_objects() lists them too
    return out


def install_lines():
    root = os.path.realpath(boot.REPO) + os.sep + "graphblas_algorithms" + os.sep
    alt = os.path.join(boot.REPO, "graphblas_algorithms") + os.sep
    codes = _codes(root)
    if alt != root:
        codes += _codes(alt)
    if len(codes) < 100:
        raise boot.HarnessError(f"only {len(codes)} repository functions found")
    mon.use_tool_id(TOOL, "dst")
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    for c in codes:
        mon.set_local_events(TOOL, c, mon.events.LINE)
    return len(codes)


# ---------------------------------------------------------------- engine seam
def install_engine():
    global _real_call
    import graphblas.core.base as base

    _real_call = base.call

    @functools.wraps(_real_call)
    def call(cfunc_name, args):
        S.calls += 1
        if S.on_call is not None:
            S.on_call(cfunc_name, args)
        if S.choose is not None:
            args = S.choose(cfunc_name, args)
        rv = _real_call(cfunc_name, args)
        if S.after_call is not None:
            S.after_call(cfunc_name, args)
        return rv

    n = 0
    for name, mod in list(sys.modules.items()):
        if name.startswith("graphblas") and mod is not None and getattr(mod, "call", None) is _real_call:
            mod.call = call
            n += 1
    if n < 3:
        raise boot.HarnessError(f"engine seam reaches only {n} modules")
    return n


# ---------------------------------------------------------------- lock seam
class SimLock:
    """A lock of repository code: waiting hands the baton to the scheduler."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        spins = 0
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if S.block is None:
                raise BudgetExceeded("deadlock: lock is held and nobody else runs")
            S.block()
            spins += 1
            if spins > 20000:
                raise BudgetExceeded("deadlock: lock never released")
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None or self.reentrant and self.owner != threading.get_ident():
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == threading.get_ident()


S.block = None


def install_locks():
    """Before the repository is imported."""
    roots = (os.path.realpath(boot.REPO) + os.sep, boot.REPO.rstrip(os.sep) + os.sep)

    def factory(real, reentrant):
        def make(*a, **k):
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(roots):
                return SimLock(reentrant)
            return real(*a, **k)

        return make

    threading.Lock = factory(REAL_LOCK, False)
    threading.RLock = factory(REAL_RLOCK, True)


def reset():
    S.lines = 0
    S.calls = 0
    S.budget = None
    S.on_line = S.on_call = S.after_call = S.choose = None
    S.block = None


# ---------------------------------------------------------------- a budgeted region
class Budget:
    def __init__(self, lines):
        self.lines = lines

    def __enter__(self):
        self.old = S.budget
        S.budget = S.lines + self.lines
        return self

    def __exit__(self, *a):
        S.budget = self.old
