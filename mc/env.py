"""Import environment for the code under test.

Everything in /verif runs the *real* evoMPS sources from $EVOMPS_SRC (default
/repo).  CPython is used because it explores about six times more states per
second than PyPy; NumPy/SciPy names which the pinned PyPy stack still exports
and newer stacks dropped are re-exported here so that the library sees the API
it was written against.
"""
import os
import sys
import warnings
import logging

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
SRC = os.environ.get("EVOMPS_SRC", "/repo")
if SRC not in sys.path:
    sys.path.insert(0, SRC)

warnings.simplefilter("ignore")

import numpy as np
import scipy as sp
import scipy.linalg as la
import scipy.sparse.linalg as las


def _shim():
    legacy_np = {
        "asscalar": lambda a: np.asarray(a).item(),
        "float": float, "int": int, "bool": bool, "complex": complex,
        "object": object, "str": str,
        "product": np.prod, "cumproduct": np.cumprod, "alltrue": np.all,
        "sometrue": np.any, "in1d": getattr(np, "isin"),
    }
    for k, v in legacy_np.items():
        if k not in np.__dict__:
            try:
                getattr(np, k)
            except AttributeError:
                setattr(np, k, v)
    skip = {"linalg", "fft", "test", "ma", "lib", "core", "testing", "random",
            "version", "show_config", "LowLevelCallable"}
    for k in dir(np):
        if k.startswith("_") or k in skip:
            continue
        if k in sp.__dict__:
            continue
        try:
            setattr(sp, k, getattr(np, k))
        except Exception:
            pass
    sp.random = np.random
    sp.rand = np.random.rand
    sp.randn = np.random.randn
    from numpy.lib import scimath
    for k in ("sqrt", "log", "log2", "logn", "log10", "power", "arccos",
              "arcsin", "arctanh"):
        setattr(sp, k, getattr(scimath, k))
    sp.ifft = np.fft.ifft
    import time
    if not hasattr(time, "clock"):
        time.clock = time.perf_counter


_shim()
np.seterr(all="ignore")
logging.disable(logging.CRITICAL)


class _Quiet(object):
    """Swallow the library's prints (they are not part of any property)."""

    def __enter__(self):
        self._o = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self._o


def quiet():
    return _Quiet()
