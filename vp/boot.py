"""Make gemd importable from /repo's current tree, and hypothesis from the tool venv.

The interpreter is the one that has gemd's dependencies; hypothesis is appended at the very end of
sys.path so that it never shadows a dependency of the code under test.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WANT = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    # a prefix that never exists: no stale .pyc of an older tree is ever read
    "PYTHONPYCACHEPREFIX": "/nonexistent-pycache",
    "HYPOTHESIS_NO_PLUGINS": "1",
    "PYTHONWARNINGS": "ignore",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
}


def reexec():
    """Restart under the right interpreter and environment if needed."""
    if os.environ.get("VP_BOOTED") == "1":
        return
    env = dict(os.environ, VP_BOOTED="1", **WANT)
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY] + sys.argv, env)


def paths():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)


def import_gemd():
    """Import the code under test and make sure it comes from REPO."""
    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    import warnings
    warnings.simplefilter("ignore")
    import gemd  # noqa
    import gemd.json  # noqa
    import gemd.util  # noqa
    import gemd.units  # noqa
    import gemd.builders  # noqa
    import gemd.entity.util  # noqa
    import gemd.entity.object  # noqa
    import gemd.entity.template  # noqa
    where = os.path.realpath(gemd.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        from .core import HarnessError
        raise HarnessError("gemd imported from {}, not {}".format(where, REPO))
