"""Process environment of a check: quiet logging, movable clock, no OS trust store.

Imported first by every harness module that touches the code under test.  The working directory is
the scratch workspace made by /verif/check (so that the suite's relative paths such as
``data/unittest`` resolve and everything it writes stays there).
"""
import ctypes
import logging
import os
import sys
import warnings

VERIF = os.environ.get("VERIF", "/verif")
REPO = os.environ.get("REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
NPROC = min(8, os.cpu_count() or 1)

logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")
sys.setrecursionlimit(5000)

# ---------------------------------------------------------------- the OS trust store stand-in
# The suite loads certifi's ~150 roots twice per signed request (about 0.9 s).  The Mock CA's own
# trust anchors live in data/; replacing the OS store by one of them keeps every trust decision over
# the certificates used here and makes a request cost about 50 ms.
def _small_trust_store():
    try:
        import certifi
    except ImportError:  # pragma: no cover
        return
    path = os.path.join(VERIF, "harness/os_store.pem")
    if os.path.exists(path):
        certifi.where = lambda: path


_small_trust_store()

# ---------------------------------------------------------------- clock
_lib = ctypes.CDLL(None)
_lib.vclock_set.argtypes = [ctypes.c_long]
_lib.vclock_get.restype = ctypes.c_long


def clock() -> int:
    return _lib.vclock_get()


def clock_set(t: int) -> None:
    _lib.vclock_set(t)
    os.environ["VERIF_CLOCK_ABS"] = str(t)


def clock_advance(seconds: int) -> None:
    """Move the (otherwise frozen) wall clock of this process and of the openssl children it starts."""
    clock_set(clock() + seconds)
