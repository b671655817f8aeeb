"""L05: the optional compiled modules compute what the Python code computes.

Runs on a scratch copy of the package with all extension modules compiled (see
ext.py); every environment, shape and layout is combined with every way of
distributing the physical index over threads."""
import ctypes
import itertools
import os
import numpy as np

from . import env, ext, ref
from .explore import World, Violation, Disabled, Guard, need, close
from .gen_common import arr, as_callable
from . import w_low, w_gen, w_tdvp, w_uni, w_utdvp

import evoMPS.tdvp_common as tc
import evoMPS.core_common as cc
import evoMPS.matmul as mm


def threads(n):
    ctypes.CDLL("libgomp.so.1").omp_set_num_threads(int(n))


def module(name):
    """A compiled module (None where it could not be built)."""
    r = (ext.RESULT or {}).get(name, "not built")
    if r is not None:
        return None
    import importlib
    m = importlib.import_module("evoMPS." + name)
    need(m.__file__.endswith(".so"), "ext.load." + name, "loaded %s", m.__file__)
    return m


class BuildWorld(World):
    """Every extension module compiles, loads and is the one being used."""
    name = "ext.build"
    depth = 0

    def configs(self, tier):
        for m in ext.PYX + ext.PY:
            yield dict(module=m)

    def init(self, cfg):
        return cfg

    def check(self, cfg):
        m = cfg["module"]
        r = (ext.RESULT or {}).get(m, "not built")
        if r is not None:
            if m in ext.PY:
                raise Disabled()        # optional: pure Python stays in use
            raise Violation("ext.build." + m, "the extension module does not compile: " + r)
        with Guard("ext.load." + m):
            mod = module(m)
        if m == "eps_maps_c":
            for f in ("eps_l_noop", "eps_r_noop", "eps_l_noop_inplace", "eps_r_noop_inplace"):
                need(getattr(tc, f) is getattr(mod, f), "ext.used", "tdvp_common.%s is not the compiled version", f)


class CMapWorld(w_low.MapWorld):
    """All maps on complex data with the compiled modules."""
    name = "ext.maps"

    def configs(self, tier):
        Ds = (1, 2, 3)
        for q in (1, 2, 3, 4, 5):
            for th in (1, 2, 3, 4, 5) if tier == "thorough" else (1, 2, 3, 4):
                if th > q:
                    continue
                for x in ("dense", "eye", "diag"):
                    for lo in ("C", "F", "S"):
                        for D in itertools.product(Ds, repeat=4) if tier == "thorough" else \
                                ((1, 1, 1, 1), (2, 2, 2, 2), (3, 3, 3, 3), (1, 2, 1, 2), (3, 1, 3, 1), (2, 3, 2, 3),
                                 (2, 3, 1, 3), (2, 3, 2, 1), (1, 2, 3, 2), (3, 2, 1, 1), (3, 2, 2, 3)):
                            yield dict(n=1, dt="c", x=x, q=[q], D=list(D), lay=lo, th=th)
        for c in w_low.MapWorld.configs(self, tier):
            if c["dt"] == "c" and (c["n"] > 1 or tier == "thorough"):
                if tier == "quick" and c["n"] == 2 and c["D"][1] + c["D"][4] == 2:
                    continue
                for th in (1, 3):
                    yield dict(c, th=th)

    def init(self, cfg):
        threads(cfg["th"])
        return w_low.MapWorld.init(self, cfg)


class CApiWorld(World):
    """The stand-alone compiled entry points."""
    name = "ext.api"
    depth = 0

    def configs(self, tier):
        for q1, q2 in itertools.product((1, 2, 3), repeat=2):
            for D1, D2 in itertools.product((1, 2, 3), repeat=2):
                for kind in ("herm", "rand", "sparse", "zero"):
                    for out in (False, True):
                        yield dict(f="calc_C", q=[q1, q2], D=[D1, D2], kind=kind, out=out)
        for D1, D2 in itertools.product((1, 2, 3), repeat=2):
            yield dict(f="allclose", D=[D1, D2])

    def init(self, cfg):
        return cfg

    def check(self, cfg):
        if cfg["f"] == "calc_C":
            self.calc_C(cfg)
        else:
            self.allclose(cfg)

    def calc_C(self, cfg):
        mod = module("tdvp_calc_C")
        if mod is None:
            raise Disabled()
        (q1, q2), (D1, D2) = cfg["q"], cfg["D"]
        d = q1 * q2
        rng = ref.rng_for("extC", q1, q2, D1, D2)
        h = ref.cgauss(rng, (d, d))
        if cfg["kind"] == "herm":
            h = h + h.conj().T
        elif cfg["kind"] == "sparse":
            h[np.add.outer(np.arange(d), np.arange(d)) % 2 == 0] = 0
        elif cfg["kind"] == "zero":
            h[:] = 0
        AA = ref.cgauss(rng, (q1, q2, D1, D2))
        lib = ctypes.CDLL(os.path.join(os.environ["EVOMPS_EXT_ROOT"], "table.so"))
        hc = np.ascontiguousarray(h)
        lib.set_table(q1, q2, hc.ctypes.data_as(ctypes.c_void_p))
        new = ctypes.pythonapi.PyCapsule_New
        new.restype = ctypes.py_object
        new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        cap = new(ctypes.cast(lib.h_nn, ctypes.c_void_p), b"h_nn", None)
        A0 = AA.copy()
        out = np.full((q1, q2, D1, D2), 3.3 + 1j) if cfg["out"] else None
        with Guard("ext.calc_C"):
            got = mod.calc_C(AA, cap, out)
        want = np.einsum('st,tab->sab', h, AA.reshape(d, D1, D2)).reshape(AA.shape)
        close(got, want, "ext.calc_C", 1e-12)
        if out is not None:
            close(out, want, "ext.calc_C.out", 1e-12)
        need(np.array_equal(AA, A0), "ext.calc_C.readonly", "input changed")
        with Guard("ext.calc_C.py"):
            py = tc.calc_C_mat_op_AA(h.reshape(q1, q2, q1, q2), AA)
        close(got, py, "ext.calc_C.same", 1e-12)

    def allclose(self, cfg):
        mod = module("allclose")
        if mod is None:
            raise Disabled()
        D1, D2 = cfg["D"]
        rng = ref.rng_for("extA", D1, D2)
        B = ref.cgauss(rng, (D1, D2))
        cases = [(B.copy(), B, 0., 0.)]
        for i, j in itertools.product(range(D1), range(D2)):
            for e in (1e-3, 1e-3j, -1e-3 - 1e-3j):
                for atol, rtol in itertools.product((0., 1e-4, 1e-2), (0., 1e-5, 1e-1)):
                    A = B.copy()
                    A[i, j] += e
                    cases.append((A, B, rtol, atol))
        for A, B, rtol, atol in cases:
            want = bool(np.all(np.abs(A - B) <= atol + rtol * np.abs(B)))
            with Guard("ext.allclose"):
                got = mod.allclose_mat(A, B, rtol, atol)
            need(bool(got) == want, "ext.allclose", "returned %s for a largest difference of %g, rtol=%g, atol=%g",
                 got, np.abs(A - B).max(), rtol, atol)


def compiled(base, newname, keep, depth=1):
    class W(base):
        name = newname

        def configs(self, tier):
            for c in base.configs(self, tier):
                if keep(c, tier):
                    for th in (1, 2):
                        yield dict(c, th=th, depth=min(c.get("depth", depth), depth))

        def depth_for(self, cfg, tier):
            return cfg["depth"]

        def init(self, cfg):
            threads(cfg["th"])
            return base.init(self, cfg)
    W.__name__ = base.__name__ + "Compiled"
    return W()


def fin(c, tier):
    return len(c["q"]) <= (3 if tier == "quick" else 5) and max(c["D"]) <= (2 if tier == "quick" else 4) and \
        (tier == "thorough" or set(c["q"]) == {2} or c["q"] == [2, 3, 2])


def uni(c, tier):
    return c["D"] <= (2 if tier == "quick" else 4) and c["L"] <= (2 if tier == "quick" else 3)


def worlds():
    return [BuildWorld(), CMapWorld(), CApiWorld(),
            compiled(w_gen.ObsWorld, "ext.gen.obs", fin),
            compiled(w_tdvp.TdvpWorld, "ext.tdvp", fin),
            compiled(w_uni.UObsWorld, "ext.u.obs", uni),
            compiled(w_utdvp.UTdvpWorld, "ext.utdvp", uni)]
