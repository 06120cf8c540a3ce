"""Process bootstrap: pinned interpreter, pinned environment, code under test from /repo.

Every process of the harness goes through `ensure()`.  Everything that could make two
executions of the same seed differ before the simulator even starts (hash seed, BLAS/OpenMP
threads, bytecode caches, import location) is fixed here.
"""
import os
import sys

REPO = os.environ.get("DST_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"

PINNED = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "DST_BOOTED": "1",
}


def ensure(argv0=None):
    """Re-exec under the pinned interpreter and environment when needed."""
    want = dict(PINNED)
    want["PYTHONHASHSEED"] = os.environ.get("DST_HASHSEED", "0")
    py = PYTHON if os.path.exists(PYTHON) else sys.executable
    ok = all(os.environ.get(k) == v for k, v in want.items())
    ok = ok and os.path.realpath(sys.prefix) == os.path.realpath(os.path.dirname(os.path.dirname(py)))
    if not ok:
        env = dict(os.environ)
        env.update(want)
        env.pop("PYTHONPATH", None)
        env.pop("NETWORKX_GRAPH_CONVERT", None)
        env.pop("NETWORKX_TEST_BACKEND", None)
        env.pop("NETWORKX_AUTOMATIC_BACKENDS", None)
        env.pop("NETWORKX_AUTOMATIC_PLUGINS", None)
        sys.stdout.flush()
        os.execve(py, [py, *sys.argv], env)
    sys.dont_write_bytecode = True
    repo = REPO
    if repo in sys.path:
        sys.path.remove(repo)
    sys.path.insert(0, repo)


class HarnessError(Exception):
    """Something wrong with the harness itself: never a violation, never exit 0."""


def load():
    """Import the code under test and check that it is the working tree of REPO."""
    import warnings

    warnings.simplefilter("ignore")
    import graphblas_algorithms as ga

    here = os.path.realpath(ga.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"graphblas_algorithms imported from {here}, not from {REPO}")
    import graphblas

    graphblas.ss.config  # noqa: B018  (forces backend initialisation)
    return ga
