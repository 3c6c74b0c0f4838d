"""Process environment; import before aesara."""
import os
import sys
import tempfile
import atexit
import shutil

os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
sys.dont_write_bytecode = True

REPO = os.environ.get("AEMON_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

_dir = None
if "AEMON_COMPILEDIR" not in os.environ:
    _dir = tempfile.mkdtemp(prefix="aemon-compiledir-")
    os.environ["AEMON_COMPILEDIR"] = _dir
    _pid = os.getpid()

    def _rm():
        if os.getpid() == _pid:
            shutil.rmtree(_dir, ignore_errors=True)

    atexit.register(_rm)

# cxx= : every Op runs its Python implementation.  No compiler cache is needed
# and RandomVariable.perform can be observed.
os.environ["AESARA_FLAGS"] = ",".join(
    [
        "compiledir=" + os.environ["AEMON_COMPILEDIR"],
        "blas__ldflags=-lopenblas",
        "gcc__cxxflags=-pipe -march=x86-64",
        "cxx=",
        "compile__timeout=600",
        "warn__ignore_bug_before=all",
    ]
)

import warnings  # noqa: E402

warnings.filterwarnings("ignore")

import logging  # noqa: E402

import aesara  # noqa: E402

# failed local rewrites are logged, not raised
logging.getLogger("aesara").setLevel(logging.CRITICAL + 1)

from . import nutsstub  # noqa: E402,F401  (before aemcmc)

import aemcmc  # noqa: E402

if not os.path.realpath(aemcmc.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f"aemcmc imported from {aemcmc.__file__}, not {REPO}")
