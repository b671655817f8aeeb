"""Low-level building blocks: transfer-matrix maps, structured matrices,
factorisations, linear solvers and matrix exponentials."""
import copy
import itertools
import numpy as np
import scipy.linalg as la
import scipy.sparse.linalg as las

from . import env, ref
from .explore import World, Violation, Disabled, Guard, need, close, canon
from .gen_common import arr, as_callable

import evoMPS.core_common as cc
import evoMPS.tdvp_common as tc
import evoMPS.matmul as mm
import evoMPS.nullspace as nsp
import evoMPS.sexpmv as sx
import evoMPS.mps_uniform_pinv as pv


def rnd(tag, shape, dt="c"):
    a = ref.cgauss(ref.rng_for("low", tag, tuple(shape)), tuple(shape))
    return a if dt == "c" else np.ascontiguousarray(a.real)


def lay(a, how):
    """The same array with a different memory layout."""
    if how == "C":
        return np.ascontiguousarray(a)
    if how == "F":
        return np.asfortranarray(a)
    b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
    b[tuple(slice(None, None, 2) for n in a.shape)] = a
    return b[tuple(slice(None, None, 2) for n in a.shape)]


def special(kind, D, dt, tag):
    """(object, dense) for an environment matrix."""
    if kind == "eye":
        return mm.eyemat(D, dtype=np.complex128 if dt == "c" else np.float64), np.eye(D)
    if kind == "diag":
        d = rnd((tag, "d"), (D,), dt)
        return mm.simple_diag_matrix(d.copy()), np.diag(d)
    x = rnd((tag, "x"), (D, D), dt)
    return x.copy(), x


def E_right(x, A1, A2):
    return sum(A1[s].dot(x).dot(A2[s].conj().T) for s in range(A1.shape[0]))


def E_left(x, A1, A2):
    return sum(A1[s].conj().T.dot(x).dot(A2[s]) for s in range(A1.shape[0]))


def flat(*As):
    """Product tensor (d, Dl, Dr) of consecutive site tensors."""
    W = As[0]
    W = W.reshape((-1,) + W.shape[-2:])
    for a in As[1:]:
        a = a.reshape((-1,) + a.shape[-2:])
        W = np.einsum('sab,tbc->stac', W, a).reshape(W.shape[0] * a.shape[0], W.shape[1], a.shape[2])
    return W


def opapply(op, W):
    d = W.shape[0]
    return np.einsum('st,tab->sab', np.asarray(op).reshape(d, d), W)


class MapWorld(World):
    """L01: every transfer-matrix map against its dense contraction."""
    name = "low.maps"
    depth = 1

    def configs(self, tier):
        Ds = (1, 2, 3)
        for dt in ("c", "r"):
            for xk in ("dense", "eye", "diag"):
                for q in ((1,), (2,), (3,)) if tier == "quick" else ((1,), (2,), (3,), (5,)):
                    for D in itertools.product(Ds, repeat=4):
                        for lo in ("C",) if tier == "quick" else ("C", "F", "S"):
                            yield dict(n=1, dt=dt, x=xk, q=list(q), D=list(D), lay=lo)
        Dd = (1, 2) if tier == "quick" else (1, 2, 3)
        for dt in ("c", "r"):
            for xk in ("dense", "eye", "diag"):
                for q in ((2, 2), (2, 3), (3, 1), (1, 2)):
                    for D in itertools.product(Dd, repeat=6):
                        yield dict(n=2, dt=dt, x=xk, q=list(q), D=list(D), lay="C")
        for dt in ("c", "r"):
            for xk in ("dense", "eye", "diag"):
                for q in ((2, 2, 2), (2, 3, 1), (1, 2, 3), (3, 2, 2)):
                    for D in itertools.product((1, 2) if tier == "quick" else (1, 2, 3), repeat=4):
                        yield dict(n=3, dt=dt, x=xk, q=list(q), D=list(D) + [D[0], D[2], 3 - D[1] if D[1] < 3 else 1, D[3]], lay="C")

    def init(self, cfg):
        n = cfg["n"]
        D = cfg["D"]
        k, b = D[:n + 1], D[n + 1:]
        if cfg["x"] == "diag" and k[-1] != b[-1] and k[0] != b[0]:
            raise Disabled()
        if cfg["x"] == "eye" and k[-1] != b[-1] and k[0] != b[0]:
            raise Disabled()
        st = dict(cfg=cfg, k=k, b=b)
        st["ket"] = [lay(rnd(("ket", i), (cfg["q"][i], k[i], k[i + 1]), cfg["dt"]), cfg["lay"]) for i in range(n)]
        st["bra"] = [lay(rnd(("bra", i), (cfg["q"][i], b[i], b[i + 1]), cfg["dt"]), cfg["lay"]) for i in range(n)]
        return st

    def actions(self, st):
        # the same maps on tensors that are scaled or have vanishing slices
        return [("zero_ket",), ("scale",)]

    def step(self, st, act):
        if act[0] == "zero_ket":
            for a in st["ket"]:
                a[-1] = 0
        else:
            st["ket"] = [a * 1e3 for a in st["ket"]]
            st["bra"] = [a * 1e-2 for a in st["bra"]]
        return st

    def env(self, st, side):
        cfg = st["cfg"]
        i = 0 if side == "l" else -1
        Dk, Db = st["k"][i], st["b"][i]
        if cfg["x"] == "dense":
            x = rnd(("env", side), (Dk, Db), cfg["dt"])
            return lay(x, cfg["lay"]), x
        if Dk != Db:
            return None
        return special(cfg["x"], Dk, cfg["dt"], side)

    def check(self, st):
        n = st["cfg"]["n"]
        K, B = [a.copy() for a in st["ket"]], [a.copy() for a in st["bra"]]
        er, el = self.env(st, "r"), self.env(st, "l")
        getattr(self, "check%d" % n)(st, K, B, er, el)
        for a, b in zip(st["ket"] + st["bra"], K + B):
            need(np.array_equal(a, b), "map.readonly", "an input tensor was modified")
        for e in (er, el):
            if e is not None:
                need(np.array_equal(arr(e[0]), e[1]), "map.readonly", "the input matrix was modified")

    def same(self, fn, args, want, sig, mod=tc):
        with Guard(sig):
            got = getattr(mod, fn)(*args)
        close(arr(got), want, sig, 1e-12, max(1., np.max(np.abs(want)) if want.size else 1.), fn)
        return got

    def ops(self, qs, dt):
        d = int(np.prod(qs))
        g = rnd(("op",) + tuple(qs), (d, d), dt)
        s = g.copy()
        s[0, :] = 0
        s[:, -1] = 0
        return [g, s, np.eye(d, dtype=g.dtype)]

    def check1(self, st, K, B, er, el):
        k, b = st["ket"][0], st["bra"][0]
        q, dt = st["cfg"]["q"][0], st["cfg"]["dt"]
        cd = np.complex128 if dt == "c" else np.float64
        if er is not None:
            x, xd = er
            w = E_right(xd, K[0], B[0])
            self.same("eps_r_noop", (x, k, b), w, "map.eps_r_noop")
            out = np.full(w.shape, 7.3, dtype=cd)
            got = self.same("eps_r_noop_inplace", (x, k, b, out), w, "map.eps_r_noop_inplace")
            close(out, w, "map.eps_r_noop_inplace.out", 1e-12, max(1., np.max(np.abs(w))))
            self.same("eps_r_noop_multi", (x, [k], [b]), w, "map.eps_r_noop_multi")
            for o in self.ops([q], dt):
                self.same("eps_r_op_1s", (x, k, b, o), E_right(xd, opapply(o, K[0]), B[0]), "map.eps_r_op_1s")
        if el is not None:
            x, xd = el
            w = E_left(xd, K[0], B[0])
            self.same("eps_l_noop", (x, k, b), w, "map.eps_l_noop")
            out = np.full(w.shape, 7.3, dtype=cd)
            self.same("eps_l_noop_inplace", (x, k, b, out), w, "map.eps_l_noop_inplace")
            close(out, w, "map.eps_l_noop_inplace.out", 1e-12, max(1., np.max(np.abs(w))))
            for o in self.ops([q], dt):
                # (E_op)^dagger: the adjoint of the right map
                self.same("eps_l_op_1s", (x, k, b, o), E_left(xd, opapply(o, K[0]), B[0]), "map.eps_l_op_1s")
        # adjointness <l|E r> = <l E|r>
        if er is not None and el is not None:
            with Guard("map.adjoint"):
                a = mm.adot(el[0], tc.eps_r_noop(er[0], k, b))
                c = mm.adot(tc.eps_l_noop(el[0], k, b), er[0])
            close(a, c, "map.adjoint", 1e-12, max(1., abs(a)), "<l|E|r>")
        for M1, M2 in ((1, 1), (1, 2), (2, 1), (3, 2)):
            W = rnd(("mpo", M1, M2, q), (M1, M2, q, q), dt)
            if st["cfg"]["x"] == "dense":
                xr = rnd(("mx", M2), (M2, st["k"][1], st["b"][1]), dt)
                w = np.einsum('mnst,tab,nbc,sdc->mad', W, K[0], xr, B[0].conj())
                self.same("eps_r_op_MPO", (xr, k, b, W), w, "map.eps_r_op_MPO")
                xl = rnd(("ml", M1), (M1, st["k"][0], st["b"][0]), dt)
                w = np.einsum('mnst,tab,mac,scd->nbd', W.conj(), K[0].conj(), xl, B[0])
                self.same("eps_l_op_MPO", (xl, k, b, W), w, "map.eps_l_op_MPO")
                w = np.einsum('mnst,tab->sambn', W, K[0]).reshape(q, st["k"][0] * M1, st["k"][1] * M2)
                self.same("apply_MPO_local", (W, k), w, "map.apply_MPO_local")

    def check2(self, st, K, B, er, el):
        k1, k2 = st["ket"]
        b1, b2 = st["bra"]
        qs, dt = st["cfg"]["q"], st["cfg"]["dt"]
        W, V = flat(*K), flat(*B)
        sh = tuple(qs)
        AA = self.same("calc_AA", (k1, k2), W.reshape(sh + W.shape[1:]), "map.calc_AA")
        BB = tc.calc_AA(b1, b2)
        if er is not None:
            x, xd = er
            self.same("eps_r_noop_multi", (x, [k1, k2], [b1, b2]), E_right(xd, W, V), "map.eps_r_noop_multi")
            self.same("eps_r_noop_multi", (x, [AA], [b1, b2]), E_right(xd, W, V), "map.eps_r_noop_multi")
            self.same("eps_r_noop_multi", (x, [k1, k2], [BB]), E_right(xd, W, V), "map.eps_r_noop_multi")
        for o in self.ops(qs, dt):
            op = o.reshape(sh + sh)
            f = as_callable(o, qs)
            oW = opapply(o, W)
            Cs = oW.reshape(sh + W.shape[1:])
            self.same("calc_C_mat_op_AA", (op, AA), Cs, "map.calc_C")
            self.same("calc_C_mat_op_AA_tensordot", (op, AA), Cs, "map.calc_C")
            self.same("calc_C_func_op", (f, k1, k2), Cs, "map.calc_C")
            self.same("calc_C_func_op_AA", (f, AA), Cs, "map.calc_C")
            oh = opapply(o.conj().T, W).reshape(sh + W.shape[1:])
            self.same("calc_C_conj_mat_op_AA", (op, AA), oh, "map.calc_C_conj")
            self.same("calc_C_conj_mat_op_AA_tensordot", (op, AA), oh, "map.calc_C_conj")
            # sum of products
            u, s, v = la.svd(o.reshape(qs[0], qs[1], qs[0], qs[1]).transpose(0, 2, 1, 3).reshape(qs[0] ** 2, qs[1] ** 2))
            tp = [[(u[:, i] * s[i]).reshape(qs[0], qs[0]), v[i].reshape(qs[1], qs[1])] for i in range(len(s))]
            self.same("calc_C_mat_op_tp", (tp, k1, k2), Cs, "map.calc_C_tp")
            with Guard("map.calc_C_tp"):
                Ctp = tc.calc_C_tp(tp, k1, k2)
            close(sum(flat(c[0], c[1]) for c in Ctp), oW, "map.calc_C_tp", 1e-12, max(1., np.max(np.abs(oW))))
            CB = opapply(o, V).reshape(sh + V.shape[1:])
            if er is not None:
                x, xd = er
                w = E_right(xd, oW, V)
                self.same("eps_r_op_2s_A", (x, k1, k2, b1, b2, op), w, "map.eps_r_op_2s")
                self.same("eps_r_op_2s_AA12", (x, AA, b1, b2, op), w, "map.eps_r_op_2s")
                self.same("eps_r_op_2s_AA_func_op", (x, AA, BB, f), w, "map.eps_r_op_2s")
                self.same("eps_r_op_2s_C12", (x, Cs, b1, b2), w, "map.eps_r_op_2s_C")
                self.same("eps_r_op_2s_C12_AA34", (x, Cs, BB), w, "map.eps_r_op_2s_C")
                self.same("eps_r_op_2s_C12_tp", (x, Ctp, b1, b2), w, "map.eps_r_op_2s_tp")
                w = E_right(xd, W, CB.reshape(V.shape))
                self.same("eps_r_op_2s_C34", (x, k1, k2, CB), w, "map.eps_r_op_2s_C")
                self.same("eps_r_op_2s_AA12_C34", (x, AA, CB), w, "map.eps_r_op_2s_C")
            if el is not None:
                x, xd = el
                w = E_left(xd, W, CB.reshape(V.shape))
                self.same("eps_l_op_2s_AA12_C34", (x, AA, CB), w, "map.eps_l_op_2s_C")
                self.same("eps_l_op_2s_A1_A2_C34", (x, k1, k2, CB), w, "map.eps_l_op_2s_C")
                CBtp = tc.calc_C_tp(tp, b1, b2)
                self.same("eps_l_op_2s_C34_tp", (x, k1, k2, CBtp), w, "map.eps_l_op_2s_tp")

    def check3(self, st, K, B, er, el):
        qs, dt = st["cfg"]["q"], st["cfg"]["dt"]
        sh = tuple(qs)
        W, V = flat(*K), flat(*B)
        k = st["ket"]
        w = W.reshape(sh + W.shape[1:])
        AAA = self.same("calc_AAA", tuple(k), w, "map.calc_AAA")
        self.same("calc_AAA_AA", (tc.calc_AA(k[0], k[1]), k[2]), w, "map.calc_AAA")
        self.same("calc_AAA_AAr", (k[0], tc.calc_AA(k[1], k[2])), w, "map.calc_AAA")
        BBB = tc.calc_AAA(*st["bra"])
        if er is not None:
            for ke in ([k[0], k[1], k[2]], [tc.calc_AA(k[0], k[1]), k[2]], [k[0], tc.calc_AA(k[1], k[2])], [AAA]):
                self.same("eps_r_noop_multi", (er[0], ke, list(st["bra"])), E_right(er[1], W, V), "map.eps_r_noop_multi")
        for o in self.ops(qs, dt):
            op = o.reshape(sh + sh)
            C = self.same("calc_C_3s_mat_op_AAA", (op, AAA), opapply(o, W).reshape(w.shape), "map.calc_C_3s")
            self.same("calc_C_3s_mat_op_AAA_tensordot", (op, AAA), opapply(o, W).reshape(w.shape), "map.calc_C_3s")
            if er is not None:
                self.same("eps_r_op_3s_C123_AAA456", (er[0], C, BBB), E_right(er[1], opapply(o, W), V), "map.eps_r_op_3s")
            if el is not None:
                CB = opapply(o, V)
                self.same("eps_l_op_3s_AAA123_C456", (el[0], AAA, CB.reshape(sh + V.shape[1:])), E_left(el[1], W, CB), "map.eps_l_op_3s")


class MatWorld(World):
    """L01: expressions of structured matrices against dense ones."""
    name = "low.structured"
    depth = 3

    def configs(self, tier):
        for D in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for k in ("eye", "diag"):
                for dt in ("c", "r"):
                    yield dict(D=D, kind=k, dt=dt, depth=2 if tier == "quick" else 3)

    def depth_for(self, cfg, tier):
        return cfg["depth"]

    def init(self, cfg):
        o, d = special(cfg["kind"], cfg["D"], cfg["dt"], "M")
        return dict(cfg=cfg, o=o, d=d)

    def key(self, st):
        return canon(type(st["o"]).__name__, st["d"])

    def operand(self, st, kind):
        return special(kind, st["cfg"]["D"], st["cfg"]["dt"], "operand")

    def actions(self, st):
        out = []
        o = st["o"]
        sp_ = not isinstance(o, np.ndarray)
        for k in ("eye", "diag", "dense"):
            if sp_:
                out += [(m, k) for m in ("dot", "dot_left")]
            if sp_ or k != "dense":
                out += [(m, k) for m in ("mmul_r", "mmul_l", "add", "radd", "sub", "rsub", "mul", "rmul")]
        if sp_:
            out += [(m,) for m in ("conj", "T", "inv", "sqrt", "copy", "deepcopy", "scalar", "rscalar", "H")]
        return out

    def step(self, st, act):
        o, d = st["o"], st["d"]
        D = st["cfg"]["D"]
        a = act[0]
        sig = "mat." + a
        if len(act) > 1:
            p, pd = self.operand(st, act[1])
        with Guard(sig):
            if a == "dot":
                r, w = o.dot(p), d.dot(pd)
            elif a == "dot_left":
                r, w = o.dot_left(p), pd.dot(d)
            elif a == "mmul_r":
                r, w = mm.mmul(o, p), d.dot(pd)
            elif a == "mmul_l":
                r, w = mm.mmul(p, o), pd.dot(d)
            elif a == "add":
                r, w = o + p, d + pd
            elif a == "radd":
                r, w = p + o, pd + d
            elif a == "sub":
                r, w = o - p, d - pd
            elif a == "rsub":
                r, w = p - o, pd - d
            elif a == "mul":
                r, w = o * p, d * pd
            elif a == "rmul":
                r, w = p * o, pd * d
            elif a == "conj":
                r, w = o.conj(), d.conj()
            elif a == "T":
                r, w = o.T, d.T
            elif a == "H":
                r, w = mm.H(o), d.conj().T
            elif a == "inv":
                if np.min(np.abs(np.diag(d))) < 1e-6:
                    raise Disabled()
                r, w = o.inv(), la.inv(d)
            elif a == "sqrt":
                r = o.sqrt()
                w = np.diag(np.lib.scimath.sqrt(np.diag(d)))
            elif a == "copy":
                r, w = o.copy(), d
            elif a == "deepcopy":
                r, w = copy.deepcopy(o), d
            elif a == "scalar":
                r, w = o * 1.7, d * 1.7
            elif a == "rscalar":
                r, w = (0.3 + 2j) * o, (0.3 + 2j) * d
        if isinstance(r, np.ndarray) and r.dtype == object:
            raise Violation(sig, "%s with %s gave an object array" % (a, act[1:]))
        close(arr(r), w, sig, 1e-12, max(1., np.max(np.abs(w))), "%s" % (act,))
        close(arr(o), d, sig + ".readonly", 1e-15)
        if a in ("copy", "deepcopy") and isinstance(r, mm.simple_diag_matrix):
            c = copy.deepcopy(r)
            with Guard(sig):
                r.diag[:] = 5
            close(arr(o), d, sig + ".alias", 1e-15, None, "original after changing the copy")
            r = c
        return dict(cfg=st["cfg"], o=r, d=w)

    def check(self, st):
        o, d = st["o"], st["d"]
        D = st["cfg"]["D"]
        need(tuple(o.shape) == d.shape, "mat.shape", "%s", o.shape)
        if isinstance(o, np.ndarray):
            return
        with Guard("mat.read"):
            close(o.A, d, "mat.A", 1e-12)
            close(o.toarray(), d, "mat.toarray", 1e-12)
            close(np.asarray(o), d, "mat.asarray", 1e-12)
            close(o.ravel(), d.ravel(), "mat.ravel", 1e-12)
            close(o.diagonal(), np.diag(d), "mat.diagonal", 1e-12)
            close(o.trace(), np.trace(d), "mat.trace", 1e-12)
            for k in range(1, D):
                close(o.trace(k), np.trace(d, k), "mat.trace", 1e-12)
            for n in (1, 2, 4):
                b = rnd(("rect", n), (D, n))
                c = rnd(("rect2", n), (n, D))
                close(arr(o.dot(b)), d.dot(b), "mat.dot.rect", 1e-12)
                close(arr(o.dot_left(c)), c.dot(d), "mat.dot_left.rect", 1e-12)
                close(arr(mm.mmul(c, o, b)), c.dot(d).dot(b), "mat.mmul", 1e-12, 10.)
                out = np.full((D, n), 3., dtype=complex)
                r = mm.dot_inplace(o, b, out)
                close(out, d.dot(b), "mat.dot_inplace", 1e-12)
                close(r, d.dot(b), "mat.dot_inplace", 1e-12)
                out = np.full((n, D), 3., dtype=complex)
                mm.dot_inplace(c, o, out)
                close(out, c.dot(d), "mat.dot_inplace", 1e-12)
            x = rnd("adot", (D, D))
            close(mm.adot(o, x), np.trace(d.conj().T.dot(x)), "mat.adot", 1e-12, 10.)
            close(mm.adot(x, o), np.trace(x.conj().T.dot(d)), "mat.adot", 1e-12, 10.)
            close(mm.adot_noconj(o, x), np.trace(d.dot(x)), "mat.adot_noconj", 1e-12, 10.)
            close(mm.adot_noconj(x, o), np.trace(x.dot(d)), "mat.adot_noconj", 1e-12, 10.)


def herm_of(kind, D, dt):
    """Hermitian test matrices by spectrum."""
    u = la.qr(rnd(("hq", D), (D, D), dt))[0]
    if kind in ("grad", "gradr"):
        # rank one up to rounding, with components of very different size: no Cholesky pivot is tiny
        v = np.logspace(-3, 0, D)[::1 if kind == "grad" else -1] * (u[:, 0] / abs(u[:, 0]))
        u = la.qr(np.c_[v, rnd(("hq", D), (D, D - 1), dt)])[0][:, ::-1]
        spec = np.r_[np.zeros(D - 1), [1.]]
        x = (u * spec).dot(u.conj().T)
        x = (x + x.conj().T) / 2
        if D > 1:
            x[0, 0] += 1e-16
            x[-1, -1] += 1e-16
        return x, spec, u
    spec = {"pos": np.linspace(0.3, 2., D), "one": np.ones(D), "wide": np.logspace(-6, 0, D),
            "low1": np.r_[np.zeros(1), np.linspace(0.4, 1., D - 1)],
            "lowhalf": np.r_[np.zeros(D - D // 2 - D % 2 * 0), np.linspace(0.4, 1., D // 2)][-D:],
            "near": np.r_[[1e-17], np.linspace(0.4, 1., D - 1)],
            "neg": np.r_[[-1e-17], np.linspace(0.4, 1., D - 1)],
            "deg": np.r_[np.full(D - D // 2, 0.5), np.full(D // 2, 1.)],
            "zero": np.zeros(D), "indef": np.linspace(-1., 2., D)}[kind]
    x = (u * spec).dot(u.conj().T)
    return (x + x.conj().T) / 2, spec, u


class FacWorld(World):
    """L02: factorisations and null spaces."""
    name = "low.factor"
    depth = 0

    def configs(self, tier):
        for D in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 8):
            for dt in ("c", "r"):
                for kind in ("pos", "one", "wide", "low1", "lowhalf", "near", "neg", "deg", "zero", "indef", "grad", "gradr"):
                    for sc in (1., 1e-3, 1e3):
                        yield dict(what="herm", D=D, dt=dt, kind=kind, sc=sc)
        for m, k in itertools.product(range(1, 6) if tier == "quick" else range(1, 9), repeat=2):
            for r in range(0, min(m, k) + 1):
                for dt in ("c", "r"):
                    yield dict(what="null", m=m, k=k, r=r, dt=dt)
        for q in (1, 2, 3):
            for D in itertools.product((1, 2, 3), repeat=2):
                for dt in ("c", "r"):
                    for xk in ("dense", "eye", "diag"):
                        yield dict(what="vsh", q=q, D=list(D), dt=dt, x=xk)

    def init(self, cfg):
        return cfg

    def check(self, cfg):
        getattr(self, "c_" + cfg["what"])(cfg)

    def c_herm(self, cfg):
        D = cfg["D"]
        x, spec, u = herm_of(cfg["kind"], D, cfg["dt"])
        x, spec = x * cfg["sc"], spec * cfg["sc"]
        x0 = x.copy()
        n = la.norm(x) or 1.
        kind = cfg["kind"]
        if D == 1 and kind in ("near", "neg"):
            return
        psd = kind != "indef"
        tol = 1e-12 * cfg["sc"]
        keep = spec > tol
        rank = int(keep.sum())
        P = (u[:, keep]).dot(u[:, keep].conj().T)
        pinv = (u[:, keep] / spec[keep]).dot(u[:, keep].conj().T)
        cond = spec[keep].max() / spec[keep].min() if rank else 1.
        e = 1e-10 * cond
        # square roots
        with Guard("fac.sqrtmh"):
            s = mm.sqrtmh(x)
            s2, evd = mm.sqrtmh(x, ret_evd=True)
            s3 = mm.sqrtmh(x, evd=la.eigh(x))
        for y in (s, s2, s3):
            close(y.dot(y), x, "fac.sqrtmh", 1e-11, n)
        w = (u * np.lib.scimath.sqrt(np.where(np.abs(spec) > tol, spec, 0))).dot(u.conj().T)
        close(s, w, "fac.sqrtmh", 1e-6, np.sqrt(n), "principal square root")
        if kind not in ("wide", "near", "neg", "grad", "gradr"):
            close((evd[1] * evd[0]).dot(evd[1].conj().T), s, "fac.sqrtmh.evd", 1e-7, np.sqrt(n))
        if kind in ("pos", "one", "wide", "deg") or kind == "indef" and np.min(np.abs(spec)) > .05 * cfg["sc"]:
            with Guard("fac.invmh"):
                i1 = mm.invmh(x)
                i2, evd = mm.invmh(x, ret_evd=True)
                i3 = mm.invmh(x, evd=la.eigh(x))
            for y in (i1, i2, i3, (evd[1] * evd[0]).dot(evd[1].conj().T)):
                close(y.dot(x), np.eye(D), "fac.invmh", 1e-8, 1.)
        # triangular inverse
        for lower in (False, True):
            for ow in (False, True):
                if kind in ("pos", "one", "wide", "deg"):
                    c = la.cholesky(x, lower=lower)
                    with Guard("fac.invtr"):
                        i = mm.invtr(c.copy(), overwrite=ow, lower=lower)
                    close(i.dot(c), np.eye(D), "fac.invtr", 1e-9, 1.)
                    c0 = c.copy()
                    with Guard("fac.invtr"):
                        mm.invtr(c, lower=lower)
                    need(np.array_equal(c, c0), "fac.invtr.readonly", "input overwritten")
                elif kind == "zero":
                    try:
                        mm.invtr(x.copy(), lower=lower)
                        need(False, "fac.invtr.singular", "no error for a singular matrix")
                    except np.linalg.LinAlgError:
                        pass
                    except Violation:
                        raise
                    except Exception as ex:
                        raise Violation("fac.invtr.singular", "raised %s: %s" % (type(ex).__name__, ex))
        if not psd:
            return
        with Guard("fac.herm_sqrt_inv"):
            s, si, rk = tc.herm_sqrt_inv(x, zero_tol=tol, return_rank=True)
            t, ti = tc.herm_sqrt_inv(x, zero_tol=tol)
        need(rk == rank, "fac.herm_sqrt_inv.rank", "rank %s, expected %d", rk, rank)
        for a, b in ((s, si), (t, ti)):
            close(a.dot(a), (u * np.where(keep, spec, 0)).dot(u.conj().T), "fac.herm_sqrt_inv", 1e-9, n)
            close(a, a.conj().T, "fac.herm_sqrt_inv", 1e-10, n)
            close(a.dot(b), P, "fac.herm_sqrt_inv.inv", e, 1.)
            close(b.dot(b), pinv, "fac.herm_sqrt_inv.inv", e, la.norm(pinv) or 1.)
        if kind in ("pos", "low1", "zero", "near", "neg", "wide", "lowhalf"):
            sp0 = np.sort(spec)
            dm = mm.simple_diag_matrix(sp0.astype(x.dtype))
            with Guard("fac.herm_sqrt_inv.diag"):
                s, si, rk = tc.herm_sqrt_inv(dm, zero_tol=tol, return_rank=True)
            need(rk == rank, "fac.herm_sqrt_inv.rank", "rank %s, expected %d", rk, rank)
            k = sp0 > tol
            close(arr(s), np.diag(np.where(k, np.sqrt(np.abs(sp0)), 0)), "fac.herm_sqrt_inv.diag", 1e-12, n)
            close(arr(si), np.diag(np.where(k, 1 / np.sqrt(np.where(k, np.abs(sp0), 1)), 0)), "fac.herm_sqrt_inv.diag", 1e-10, la.norm(pinv) or 1.)
            close(arr(dm), np.diag(sp0), "fac.herm_sqrt_inv.readonly", 1e-15)
        with Guard("fac.herm_sqrt_inv.eye"):
            s, si, rk = tc.herm_sqrt_inv(mm.eyemat(D), return_rank=True)
        close(arr(s), np.eye(D), "fac.herm_sqrt_inv.eye", 1e-15)
        close(arr(si), np.eye(D), "fac.herm_sqrt_inv.eye", 1e-15)
        need(rk == D, "fac.herm_sqrt_inv.eye", "rank %s", rk)
        for lower, evd, rr, inv in itertools.product((False, True), repeat=4):
            with Guard("fac.herm_fac"):
                r = tc.herm_fac_with_inv(x, lower=lower, zero_tol=tol, return_rank=rr, calc_inv=inv, force_evd=evd)
            r = r if isinstance(r, tuple) else (r,)
            need(len(r) == 1 + rr + inv, "fac.herm_fac.len", "returned %d values", len(r))
            X = arr(r[0])
            g = X.dot(X.conj().T) if lower else X.conj().T.dot(X)
            close(g, x, "fac.herm_fac", 1e-10, n, "X X* (lower=%s, force_evd=%s)" % (lower, evd))
            if rr:
                need(r[-1] == rank, "fac.herm_fac.rank", "rank %s, expected %d", r[-1], rank)
            if inv:
                Xi = arr(r[1])
                close(X.dot(Xi).dot(X), X, "fac.herm_fac.inv", e, np.sqrt(n))
                close(Xi.dot(X).dot(Xi), Xi, "fac.herm_fac.inv", e, la.norm(Xi) or 1.)
                g = Xi.conj().T.dot(Xi) if lower else Xi.dot(Xi.conj().T)
                close(g, pinv, "fac.herm_fac.pinv", e, la.norm(pinv) or 1.)
        need(np.array_equal(x, x0), "fac.readonly", "the input was modified")

    def c_null(self, cfg):
        m, k, r, dt = cfg["m"], cfg["k"], cfg["r"], cfg["dt"]
        A = rnd(("nl", m, k, r), (m, r), dt).dot(rnd(("nr", m, k, r), (r, k), dt)) if r else np.zeros((m, k), dtype=complex if dt == "c" else float)
        A0 = A.copy()
        with Guard("null"):
            N = nsp.nullspace(A)
            rk = nsp.rank(A)
        close(rk, r, "null.rank", 1e-12, 1.)
        need(N.shape == (k, k - r), "null.shape", "%s", N.shape)
        close(A.dot(N), np.zeros((m, k - r)), "null.kernel", 1e-11, max(1., la.norm(A)))
        close(N.conj().T.dot(N), np.eye(k - r), "null.ortho", 1e-11)
        with Guard("null.tol"):
            need(nsp.rank(A * 1e-20 if r else A, rtol=1e-10) in (0,), "null.atol", "absolute tolerance ignored")
            need(nsp.rank(A * 1e5, rtol=1e-9) == r, "null.rtol", "relative tolerance")
            if m == 1 or k == 1:
                v = A.ravel()
                if m == 1:
                    need(nsp.nullspace(v).shape == (k, k - r), "null.vector", "%s", nsp.nullspace(v).shape)
        if r == m:
            with Guard("null.qr"):
                Q = nsp.nullspace_qr(A)
            need(Q.shape == (k, k - m), "null.qr.shape", "%s", Q.shape)
            close(A.dot(Q), np.zeros((m, k - m)), "null.qr.kernel", 1e-11, max(1., la.norm(A)))
            close(Q.conj().T.dot(Q), np.eye(k - m), "null.qr.ortho", 1e-11)
        need(np.array_equal(A, A0), "null.readonly", "the input was modified")

    def c_vsh(self, cfg):
        q, (Dl, Dr), dt = cfg["q"], cfg["D"], cfg["dt"]
        A = rnd(("vsh", q), (q, Dl, Dr), dt)

        def root(D):
            if cfg["x"] == "dense":
                return herm_of("pos", D, dt)[0]
            if cfg["x"] == "diag":
                return mm.simple_diag_matrix(np.linspace(.4, 1.2, D).astype(A.dtype))
            return mm.eyemat(D, dtype=A.dtype)
        for chk in (False, True):
            x = root(Dr)
            with Guard("vsh.right"):
                V = tc.calc_Vsh(A, x, sanity_checks=chk)
            n = q * Dr - Dl
            if n <= 0:
                need(V is None, "vsh.right.none", "expected None")
            else:
                need(V.shape == (q, Dr, n), "vsh.right.shape", "%s", V.shape)
                g = sum(V[s].conj().T.dot(arr(x)).dot(A[s].conj().T) for s in range(q))
                close(g, 0 * g, "vsh.right", 1e-11)
                close(sum(V[s].conj().T.dot(V[s]) for s in range(q)), np.eye(n), "vsh.right.ortho", 1e-11)
            x = root(Dl)
            with Guard("vsh.left"):
                V = tc.calc_Vsh_l(A, x, sanity_checks=chk)
            n = q * Dl - Dr
            if n <= 0:
                need(V is None, "vsh.left.none", "expected None")
            else:
                need(V.shape == (q, n, Dl), "vsh.left.shape", "%s", V.shape)
                g = sum(A[s].conj().T.dot(arr(x)).dot(V[s].conj().T) for s in range(q))
                close(g, 0 * g, "vsh.left", 1e-11)
                close(sum(V[s].dot(V[s].conj().T) for s in range(q)), np.eye(n), "vsh.left.ortho", 1e-11)


class ExpWorld(World):
    """L04: Krylov exponential."""
    name = "low.gexpmv"
    depth = 1

    def configs(self, tier):
        q = tier == "quick"
        ns = (1, 2, 3, 4, 6) if q else (1, 2, 3, 4, 5, 6, 8, 9, 12, 24, 40)
        for n in ns:
            for kind in ("herm", "gen", "diag", "zero", "id", "nilp", "real"):
                for vk in ("rand", "e0", "eig", "null"):
                    for t in (0., 0.3, -0.3, 1.5, 0.3j, -1.2j, 0.4 - 0.3j, -0.2 + 1e-9j):
                        for tol in (1e-6,) if q else (0., 1e-4, 1e-6, 1e-10):
                            yield dict(n=n, kind=kind, v=vk, t=str(t), tol=tol)
        # long times: many steps, with Krylov spaces that become complete on the way
        for n in (4, 5, 6, 8) if q else (3, 4, 5, 6, 8, 10, 16):
            for vk in ("rand", "few", "eig"):
                for t in (1., 10., 100., 3j, 4 - 5j):
                    for tol in (1e-6, 1e-8) if q else (1e-6, 1e-8, 1e-10):
                        yield dict(n=n, kind="decay", v=vk, t=str(t), tol=tol)
        if q:
            for n in (1, 2, 5, 24):
                for t in (0.3, -0.8j):
                    for tol in (0., 1e-10):
                        yield dict(n=n, kind="herm", v="rand", t=str(t), tol=tol)

    def init(self, cfg):
        n, kind, tol = cfg["n"], cfg["kind"], cfg["tol"]
        t = complex(cfg["t"])
        A = {"herm": lambda: herm_of("indef", n, "c")[0] * 3, "gen": lambda: rnd(("ge", n), (n, n)) * .7,
             "diag": lambda: np.diag(np.linspace(-2, 1, n)).astype(complex), "zero": lambda: np.zeros((n, n), dtype=complex),
             "decay": lambda: np.diag(np.append(-.05, -np.linspace(1, 10, n)[1:])).astype(complex),
             "id": lambda: np.eye(n, dtype=complex) * 1.3, "nilp": lambda: np.diag(np.ones(n - 1), 1).astype(complex),
             "real": lambda: rnd(("re", n), (n, n), "r") * .6}[kind]()
        v = rnd(("gv", n), (n,), "r" if kind == "real" else "c")
        if cfg["v"] == "e0":
            v = np.zeros(n, dtype=v.dtype)
            v[-1] = 2.5
        elif cfg["v"] == "few":
            v[3:] = 0
        elif cfg["v"] == "null":
            v = np.zeros(n, dtype=v.dtype)
        elif cfg["v"] == "eig":
            v = la.eig(A)[1][:, 0].astype(complex) * 1.7
        if t.imag == 0:
            t = t.real
        anorm = max(la.norm(A, np.inf), 1e-3)
        v0 = v.copy()
        x = la.expm(t * A).dot(v)
        sc = np.max([la.norm(la.expm(t * A * f).dot(v)) for f in (0, .5, 1)])
        grow = max(la.norm(la.expm(t * A * f), 2) for f in (.25, .5, .75, 1.))
        et = tol if tol > 0 else 1.5e-8
        return dict(cfg=cfg, A=A, v=v, t=t, x=x, sc=sc, grow=grow, anorm=anorm, et=et)

    def actions(self, st):
        n, t = st["cfg"]["n"], st["t"]
        ms = [None]
        # low orders need very many steps at tight tolerances
        if st["et"] > 1e-7:
            ms += [m for m in (1, 2, 3, 5) if m < n and m > (1 if abs(t) > .5 else 0)]
        else:
            ms += [m for m in (3, 5) if m < n]
        if st["cfg"]["kind"] == "decay":
            ms = [m for m in (3, 4, 5, None) if m is None or m < n]
        for m in ms:
            for op in ("array", "linop"):
                yield ("exp", m, op, None)
            yield ("exp", m, "array", "w")          # with work space for the result
            for mx in (1, 2, 3, 10):
                yield ("exp", m, "array", mx)       # few steps allowed
        if st["cfg"]["tol"] == 1e-6:
            for op in ("array", "linop"):
                yield ("default", None, op, None)

    def step(self, st, act):
        cfg, A, v, t, anorm, et = [st[k] for k in ("cfg", "A", "v", "t", "anorm", "et")]
        tol, n, m = cfg["tol"], cfg["n"], act[1]
        v0, A0 = v.copy(), A.copy()
        if act[0] == "default":
            kw, mx, et = {}, 500, 1.5e-8
        else:
            mx = 3000
            kw = dict(m=m, tol=tol, mxstep=mx)
            if act[3] == "w":
                kw["w"] = rnd(("gw", n), (n,))
            elif act[3]:
                mx = kw["mxstep"] = act[3]
        with Guard("exp.gexpmv"):
            w, conv, nstep, brk, mb, err = sx.gexpmv(A if act[2] == "array" else las.aslinearoperator(A), v, t, anorm, **kw)
        need(np.array_equal(v, v0) and np.array_equal(A, A0), "exp.readonly", "v or A was modified")
        if not conv:
            need(nstep >= mx, "exp.conv", "not converged after %s steps", nstep)
            return st
        bound = 40 * abs(t) * max(et, 1e-14 * anorm) * st["grow"] + 1e-12 * st["sc"] * st["grow"] \
            + 6 * abs(t) * anorm * et * st["grow"] * max(1., st["sc"])
        d = la.norm(w - st["x"])
        need(d <= bound, "exp.value", "exp(tA)v off by %g (tol %g, t=%s, m=%s, n=%d, steps %d, breakdown %s)", d, tol, t, m, n, nstep, brk)
        return st


class PinvWorld(World):
    """L03: (pseudo-)inverse of 1 - e^{ip} E."""
    name = "low.pinv"
    depth = 1

    RHS = ("rand", "r", "l", "unit", "zero")

    def configs(self, tier):
        q = tier == "quick"
        for D in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6, 8):
            for d in (1, 2, 3) if q else (1, 2, 3, 4):
                for L in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                    if d == 1 and D > 2:
                        continue
                    for p in (0, np.pi / 3, np.pi / 2, np.pi, -2.1, 1e-3) if q else \
                            (0, np.pi / 3, np.pi / 2, np.pi, -2.1, 1e-3, -np.pi / 2, 2.9, 7.):
                        for kind in ("norm", "skew", "mixed"):
                            for form in ("gauge", "eyediag", "diageye") if kind == "norm" else ("gauge",):
                                yield dict(D=D, q=d, L=L, p=p, kind=kind, form=form)

    def init(self, cfg):
        from . import uref
        D, q, L, p = cfg["D"], cfg["q"], cfg["L"], cfg["p"]
        I = uref.Inf([rnd(("pa", k, L), (q, D, D)) for k in range(L)])
        if I.gap() < 0.05:
            raise Disabled()
        A = I.A
        B = A
        l, r = I.l[-1], I.r[-1]
        lo, ro = l.copy(), r.copy()
        if cfg["kind"] == "mixed":
            B = uref.Inf([rnd(("pb", k, L), (q, D, D)) for k in range(L)]).A
            ev = np.linalg.eigvals(uref.block_E(A, B)[0])
            if np.min(abs(1 - np.exp(1j * p) * ev)) < 1e-2:
                raise Disabled()
        elif cfg["kind"] == "skew":
            # the same state in two gauges: the fixed points of the mixed map are not Hermitian
            g = np.eye(D) + 0.4 * rnd("pg", (D, D))
            gi = la.inv(g)
            B = [g.dot(M).transpose(1, 0, 2) for M in A]
            B[-1] = np.einsum('sab,bc->sac', B[-1], gi)
            for k in range(L - 1):
                B[k] = np.einsum('sab,bc->sac', B[k], gi)
            # sum_s A r' B^H = r',  with B = g A gi:  r' = r gi^-H = r g^H
            ro = r.dot(g.conj().T)
            lo = l.dot(gi)
        elif cfg["form"] != "gauge":
            # right-canonical gauge: r = 1, l diagonal (or the reverse), handed over as structured matrices
            if min(la.eigvalsh(l)[0], la.eigvalsh(r)[0]) < 1e-6:
                raise Disabled()            # no such gauge
            if cfg["form"] == "eyediag":
                g = la.cholesky(r, lower=True)
                w, u = la.eigh(g.conj().T.dot(l).dot(g))
                G = g.dot(u)
                Gi = la.inv(G)
            else:
                g = la.cholesky(l, lower=True).conj().T         # l = g^H g
                w, u = la.eigh(g.dot(r).dot(g.conj().T))
                Gi = u.conj().T.dot(g)
                G = la.inv(Gi)
            A = list(A)
            if L == 1:
                A = [np.einsum('ab,sbc,cd->sad', Gi, A[0], G)]
            else:
                A[0] = np.einsum('ab,sbc->sac', Gi, A[0])
                A[-1] = np.einsum('sab,bc->sac', A[-1], G)
            B = A
            wd = mm.simple_diag_matrix(w.astype(complex))
            e = mm.eyemat(D, dtype=np.complex128)
            lo, ro = (wd, e) if cfg["form"] == "eyediag" else (e, wd)
        E, _ = uref.block_E(A, B)
        ld, rd = np.asarray(lo), np.asarray(ro)
        if cfg["kind"] != "mixed":
            x = rd.ravel()
            assert np.allclose(E.dot(x), x) and np.allclose(E.conj().T.dot(ld.ravel()), ld.ravel())
            assert np.allclose(np.vdot(ld, rd), 1)
        return dict(cfg=cfg, A=list(A), B=list(B), lo=lo, ro=ro, E=E, ld=ld.copy(), rd=rd.copy(),
                    A0=[np.array(M) for M in A], B0=[np.array(M) for M in B])

    def actions(self, st):
        cfg = st["cfg"]
        # 1 - E itself is singular at zero momentum, and nearly so close to it
        small = abs(np.exp(1j * cfg["p"]) - 1) < 1e-2
        if cfg["kind"] == "mixed":
            pss = (False, None)
        else:
            pss = (True,) if small else (True, False)
        for ps in pss:
            for left in (False, True):
                for rhs in self.RHS:
                    for solver in (None, "bicgstab", "lgmres"):
                        for out in (None, "noise", "exact"):
                            yield ("solve", ps, left, rhs, solver, out)
                    if rhs != "zero":
                        yield ("loose", ps, left, rhs)
                    yield ("checks", ps, left, rhs)
                yield ("brute", ps, left)

    def step(self, st, act):
        cfg = st["cfg"]
        D, p = cfg["D"], cfg["p"]
        A, B, lo, ro = st["A"], st["B"], st["lo"], st["ro"]
        ps, left = act[1], act[2]
        nolr = ps is None               # without a projection the fixed points are not needed
        ps = bool(ps)
        if nolr:
            lo = ro = None
        M = st["E"] - np.outer(st["rd"].ravel(), st["ld"].conj().ravel()) if ps else st["E"]
        op = np.eye(D * D) - np.exp(1j * p) * M
        if act[0] == "brute":
            if nolr:
                raise Disabled()
            with Guard("pinv.brute"):
                bi = pv.pinv_1mE_brute(A, B, lo, ro, p=p, pseudo=ps)
                bl = pv.pinv_1mE_brute_LOP(A, B, lo, ro, p=p, pseudo=ps, left=left)
            inv = la.inv(op)
            close(bi, inv, "pinv.brute", 1e-8, la.norm(bi))
            close(bl, inv, "pinv.brute_LOP", 1e-8, la.norm(bi))
            return self.after(st)
        x = {"rand": lambda: rnd("px", (D, D)), "r": lambda: st["rd"] * (1.5 - .5j), "l": lambda: st["ld"] * 1j,
             "unit": lambda: np.outer(np.eye(D)[0], np.eye(D)[-1]) + 0j,
             "zero": lambda: np.zeros((D, D), dtype=complex)}[act[3]]()
        x = np.ascontiguousarray(x)
        x0 = x.copy()
        opm = op.conj().T if left else op
        w = la.solve(opm, x0.ravel()).reshape(D, D)
        inv = la.norm(la.inv(opm), 2)
        kw = dict(p=p, left=left, pseudo=ps)
        if act[0] == "solve":
            out = None if act[5] is None else rnd("pout", (D, D)) if act[5] == "noise" else w.copy()
            with Guard("pinv"):
                y = pv.pinv_1mE(x, A, B, lo, ro, tol=1e-12, out=out, solver=act[4] and getattr(las, act[4]), **kw)
            close(y, w, "pinv.value", 1e-11 * max(1., inv) * 10 + 1e-9, max(1., la.norm(w)), str(act))
            if out is not None:
                need(y is out, "pinv.out", "result not in the output matrix")
        elif act[0] == "loose":
            # default accuracy: relative residual 1e-6
            with Guard("pinv"):
                y = pv.pinv_1mE(x, A, B, lo, ro, **kw)
            res = la.norm(opm.dot(np.asarray(y).ravel()) - x0.ravel())
            need(res <= 3e-6 * la.norm(x0) + 1e-15, "pinv.residual", "residual %g with right-hand side of norm %g", res, la.norm(x0))
        else:
            # the built-in checks do not touch the result
            if nolr:
                raise Disabled()
            with Guard("pinv"):
                y = pv.pinv_1mE(x, A, B, lo, ro, tol=1e-12, sanity_checks=True, brute_check=True, **kw)
            close(y, w, "pinv.value", 1e-11 * max(1., inv) * 10 + 1e-9, max(1., la.norm(w)), str(act))
        need(np.array_equal(x, x0), "pinv.readonly", "the right-hand side was modified")
        return self.after(st)

    def after(self, st):
        for a, b in zip(st["A"] + st["B"], st["A0"] + st["B0"]):
            need(np.array_equal(a, b), "pinv.readonly", "a site tensor was modified")
        need(np.array_equal(np.asarray(st["lo"]), st["ld"]) and np.array_equal(np.asarray(st["ro"]), st["rd"]),
             "pinv.readonly", "a fixed point was modified")
        return st
