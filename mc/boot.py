"""Process set-up shared by every check: one deterministic environment, and the
package under test imported from the repository's *current* sources.

* re-executes the interpreter once so that hash randomisation, BLAS threads and the
  matplotlib backend are fixed (nothing else can change between two runs);
* pins OSQP's adaptive-rho interval (its default is chosen from wall-clock time,
  i.e. it is a source of nondeterminism the harness has to own);
* imports pypfopt with byte-code caches disabled, so that a stale .pyc can never
  stand in for the source that is being judged.
"""
import os
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PINNED = {
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONPATH": "",
    "RUST_BACKTRACE": "0",
    "MPLCONFIGDIR": "/opt/mplconfig",
}


def pin_environment():
    if all(os.environ.get(k) == v for k, v in PINNED.items()):
        return
    env = dict(os.environ)
    env.update(PINNED)
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


def import_target():
    import warnings

    warnings.simplefilter("ignore")
    import numpy, pandas, scipy.optimize, scipy.cluster.hierarchy, cvxpy  # noqa: F401
    import sklearn.covariance, matplotlib.pyplot  # noqa: F401
    import osqp

    if not getattr(osqp.OSQP.setup, "_pinned", False):
        real = osqp.OSQP.setup

        def setup(self, *args, **settings):
            settings.setdefault("adaptive_rho_interval", 100)
            return real(self, *args, **settings)

        setup._pinned = True
        osqp.OSQP.setup = setup
    sys.dont_write_bytecode = True
    saved, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent-pycache"
    sys.path.insert(0, REPO)
    try:
        import pypfopt
        import pypfopt.plotting  # noqa: F401
    finally:
        sys.pycache_prefix = saved
    here = os.path.realpath(pypfopt.__file__)
    if not here.startswith(REPO + os.sep):
        raise SystemExit(f"pypfopt was imported from {here}, not from {REPO}")
    return pypfopt
