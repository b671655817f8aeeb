"""Builds the optional extension modules of the code under test in a scratch
copy of the package, so that the worlds can explore the compiled code.

The shadow package holds the current sources of $EVOMPS_SRC plus the compiled
modules; nothing is written to the source tree.
"""
import atexit
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

PYX = ("eps_maps_c", "tdvp_calc_C", "allclose")
PY = ("core_common", "matmul")


def _run(cmd, cwd):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        return p.returncode, p.stdout.decode(errors="replace")
    except (OSError, subprocess.TimeoutExpired) as e:
        return 127, str(e)


def _one(args):
    root, mod, src = args
    import numpy
    d = os.path.join(root, "evoMPS")
    rc, out = _run([sys.executable, "-m", "cython", "-3", os.path.join("evoMPS", src)], root)
    if rc:
        return mod, "cython: " + out[-600:]
    c = os.path.splitext(src)[0] + ".c"
    so = mod + sysconfig.get_config_var("EXT_SUFFIX")
    rc, out = _run(["gcc", "-O1", "-fno-strict-aliasing", "-shared", "-fPIC", "-fopenmp", "-w",
                    "-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(), c, "-o", so], d)
    if rc:
        return mod, "gcc: " + out[-600:]
    return mod, None


TABLE_C = r"""
#include <complex.h>
static double complex tab[4096];
static int Q1 = 1, Q2 = 1;
void set_table(int q1, int q2, const double complex *t)
{ int i; Q1 = q1; Q2 = q2; for (i = 0; i < q1*q2*q1*q2; i++) tab[i] = t[i]; }
double complex h_nn(int s, int t, int u, int v)
{ return tab[((s*Q2 + t)*Q1 + u)*Q2 + v]; }
"""


def build():
    src = os.environ.get("EVOMPS_SRC", "/repo")
    root = tempfile.mkdtemp(prefix="mcext")
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(root, ignore_errors=True)
    atexit.register(clean)
    d = os.path.join(root, "evoMPS")
    os.mkdir(d)
    for f in os.listdir(os.path.join(src, "evoMPS")):
        if f.endswith((".py", ".pyx", ".pxd")):
            shutil.copy(os.path.join(src, "evoMPS", f), os.path.join(d, f))
    with open(os.path.join(root, "table.c"), "w") as f:
        f.write(TABLE_C)
    jobs = [(root, m, m + ".pyx") for m in PYX] + [(root, m, m + ".py") for m in PY]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(5) as ex:
        res = dict(ex.map(_one, jobs))
    rc, out = _run(["gcc", "-O1", "-shared", "-fPIC", "table.c", "-o", "table.so"], root)
    os.environ["EVOMPS_SRC"] = root
    os.environ["OMP_WAIT_POLICY"] = "passive"       # eight explorers share the cores
    os.environ["EVOMPS_EXT_ROOT"] = root
    global RESULT
    RESULT = res
    for m in sorted(res):
        print("extension module %s: %s" % (m, "compiled" if res[m] is None else "not compiled (%s)" % res[m].strip().splitlines()[-1]))
    return root


RESULT = None
