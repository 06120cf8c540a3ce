"""Fault kinds and the machinery that arms one fault for one step."""
import graphblas.exceptions as gx

from . import seams
from .seams import InjectedInterrupt, S


class InjectedOOM(gx.OutOfMemory):
    pass


class InjectedPanic(gx.Panic):
    pass


class InjectedMemoryError(MemoryError):
    pass


class ClientError(Exception):
    """Raised by client code: its iterators, its key objects."""


EXC = {"oom": InjectedOOM, "panic": InjectedPanic, "mem": InjectedMemoryError, "intr": InjectedInterrupt, "client": ClientError}
INJECTED = (InjectedOOM, InjectedPanic, InjectedMemoryError, InjectedInterrupt, ClientError)
EXCS = (Exception, seams.BudgetExceeded, InjectedInterrupt)
NAMES = {c.__name__ for c in INJECTED}

# where -> which exceptions are realistic there
WHERE = {
    "call": ("oom", "panic", "oom", "mem", "intr"),  # instead of an engine call
    "ret": ("intr", "mem"),                          # just after an engine call took effect
    "line": ("intr", "mem"),                         # before a source line of the repository
}


def draw(rng, n=None):
    where = rng.choice(["call", "call", "line", "line", "ret"])
    f = {"at": where, "exc": rng.choice(WHERE[where]), "u": round(rng.random(), 4)}
    if rng.random() < 0.6:
        # drawn over distinct places first (a loop does not attract all faults), then over visits of that place
        f["u2"] = round(rng.random(), 4)
    return f


class Counter:
    """Counts the events of one step."""

    def __enter__(self):
        self.l0, self.c0 = S.lines, S.calls
        return self

    def __exit__(self, *a):
        self.lines, self.calls = S.lines - self.l0, S.calls - self.c0


class Tracer:
    """The places (as small numbers) where faults of each kind could strike during one step."""

    def __enter__(self):
        self.lines, self.calls, ids = [], [], {}

        def line(code, line):
            self.lines.append(ids.setdefault((code, line), len(ids)))

        def call(name, args):
            self.calls.append(ids.setdefault(str(name), len(ids)))

        S.on_line, S.on_call = line, call
        return self

    def __exit__(self, *a):
        S.on_line = S.on_call = None


class Armed:
    """Raises the fault at the k-th event of its kind inside the with block."""

    def __init__(self, fault, k):
        self.fault, self.k, self.fired = fault, k, False
        self.n = 0

    def hit(self, *a):
        self.n += 1
        if self.n == self.k and not self.fired:
            self.fired = True
            raise EXC[self.fault["exc"]]("injected")

    def __enter__(self):
        at = self.fault["at"]
        if at == "call":
            S.on_call = self.hit
        elif at == "ret":
            S.after_call = self.hit
        else:
            S.on_line = self.hit
        return self

    def __exit__(self, *a):
        S.on_call = S.after_call = S.on_line = None


def resolve(fault, lines, calls):
    """The k of a fault whose position was drawn as a fraction."""
    if "k" in fault:
        return fault["k"]
    seq = lines if fault["at"] == "line" else calls
    if isinstance(seq, int):
        return 1 + int(fault["u"] * seq) if seq else 1
    if "u2" in fault and seq:
        places = sorted(set(seq))
        place = places[min(int(fault["u"] * len(places)), len(places) - 1)]
        at = [i for i, x in enumerate(seq) if x == place]
        return 1 + at[min(int(fault["u2"] * len(at)), len(at) - 1)]
    return 1 + int(fault["u"] * len(seq))
