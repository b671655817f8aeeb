"""Infinite-chain TDVP worlds."""
import copy
import itertools
import os
import shutil
import tempfile
import numpy as np
import scipy.linalg as la

from .uni_common import *
from .w_uni import UWorld
from . import w_uni2

import evoMPS.tdvp_uniform as tu


def uham(name, q, hs):
    """One Hamiltonian term on hs sites, as a matrix."""
    k = ("uham", name, q, hs)
    if k in OPS:
        return OPS[k]
    qs = [q] * hs
    rng = ref.rng_for("uham", name, q, hs)
    if name in ("herm", "call", "tp"):
        h = ref.rand_herm(ref.rng_for("uham", q, hs), qs)
    elif name == "herm2":
        h = ref.rand_herm(rng, qs)
    elif name == "real":
        h = ref.rand_herm(rng, qs).real
    elif name == "field":
        h = 0
        for i in range(hs):
            h = h + ref.embed(ref.rand_herm(rng, [q]), [i], qs)
    elif name == "zz":
        z = np.diag(np.linspace(1, -1, q)).astype(complex)
        h = ref.embed(np.kron(z, z), [0, 1], qs)
    elif name == "ising":
        z = np.diag(np.linspace(1, -1, q)).astype(complex)
        x = np.zeros((q, q), dtype=complex)
        for i in range(q - 1):
            x[i, i + 1] = x[i + 1, i] = 1
        h = -ref.embed(np.kron(z, z), [0, 1], qs) - 1.4 * ref.embed(x, [0], qs)
    else:
        raise ValueError(name)
    OPS[k] = h
    return h


def opsvd(h, q):
    """Sum of tensor products equal to the two-site operator h."""
    m = h.reshape(q, q, q, q).transpose(0, 2, 1, 3).reshape(q * q, q * q)
    u, s, v = la.svd(m)
    return [[(u[:, i] * s[i]).reshape(q, q), v[i].reshape(q, q)] for i in range(len(s)) if s[i] > 1e-13]


def uham_arg(name, q, hs):
    h = uham(name, q, hs)
    if name == "call":
        return as_callable(h, [q] * hs)
    return h.reshape([q] * (2 * hs))


def ham_kw(name, hs):
    """The range of the Hamiltonian, where it cannot be told from an array or is not the default."""
    return dict(ham_sites=hs) if name == "call" and hs == 3 or name == "herm" and hs == 2 else {}


def set_uham(s, name, hs):
    q = s.q
    s.set_ham(uham_arg(name, q, hs), **ham_kw(name, hs))
    s.ham_tp = opsvd(uham(name, q, hs), q) if name == "tp" else None


def energy_density(inf, h, hs):
    return np.mean([inf.expect(h, k, hs) for k in range(inf.L)])


def term_right(A, r, h, hs, k):
    """D x D: the term on sites k.. contracted with r on its right."""
    L, q = len(A), A[0].shape[0]
    W = ref.dense_open([A[(k + j) % L] for j in range(hs)])
    D = A[0].shape[1]
    W = W.reshape(D, q ** hs, D)
    hW = np.einsum('st,atb->asb', h, W)
    return np.einsum('asb,bc,dsc->ad', hW, r[(k + hs - 1) % L], W.conj())


def term_left(A, l, h, hs, k):
    L, q = len(A), A[0].shape[0]
    W = ref.dense_open([A[(k + j) % L] for j in range(hs)])
    D = A[0].shape[1]
    W = W.reshape(D, q ** hs, D)
    hW = np.einsum('st,atb->asb', h, W)
    # <l|: l' = sum W^dagger l hW
    return np.einsum('dsc,da,asb->cb', W.conj(), l[(k - 1) % L], hW)


def right_map(a, x):
    return sum(a[t].dot(x).dot(a[t].conj().T) for t in range(a.shape[0]))


def left_map(a, x):
    return sum(a[t].conj().T.dot(x).dot(a[t]) for t in range(a.shape[0]))


def check_K(s, h, hs, sig="utdvp.K", tol=1e-7):
    """K[k]: all terms right of bond k-1, i.e. the solution of
    K[k] = E_k K[k+1] + h_k - (energy), with <l|K[0]> = 0."""
    L = s.L
    A = [np.asarray(a) for a in s.A]
    l = [arr(x) for x in s.l]
    r = [arr(x) for x in s.r]
    sc = max(1., max(la.norm(np.asarray(k)) for k in s.K))
    # solve densely
    X = np.zeros((s.D, s.D), dtype=complex)
    for k in range(L):
        y = term_right(A, r, h, hs, k)
        for j in range(k - 1, -1, -1):
            y = right_map(A[j], y)
        X += y
    E, _ = uref.block_E(A)
    P = np.outer(r[-1].ravel(), l[-1].conj().ravel())
    e = np.vdot(l[-1], X)
    K0 = la.solve(np.eye(s.D ** 2) - E + P, (X - e * r[-1]).ravel()).reshape(s.D, s.D)
    close(s.K[0], K0, sig, tol, sc, "K[0]")
    K = K0
    for k in range(L - 1, 0, -1):
        w = right_map(A[k], K) + term_right(A, r, h, hs, k)
        w = w - r[k - 1] * np.vdot(l[k - 1], w)
        # the component along r is a convention
        g = np.asarray(s.K[k])
        g = g - r[k - 1] * np.vdot(l[k - 1], g)
        close(g, w, sig, tol, sc, "K[%d]" % k)
        K = w
    return K0


def check_K_left(s, h, hs, sig="utdvp.K_left", tol=1e-7):
    L = s.L
    A = [np.asarray(a) for a in s.A]
    l = [arr(x) for x in s.l]
    r = [arr(x) for x in s.r]
    with Guard(sig):
        KL, en = s.calc_K_l()
    # terms that end inside the last block
    X = np.zeros((s.D, s.D), dtype=complex)
    for k in range(L - hs + 1 - L, L - hs + 1):
        y = term_left(A, l, h, hs, k % L)
        for j in range(k + hs, L):
            y = left_map(A[j % L], y)
        X += y
    e = np.trace(X.dot(r[-1]))
    close(en, e / L, sig + ".energy", 1e-8, 1.0, "energy density")
    # <K|: K = X - e l + E^dagger-map K; solve as a fixed point
    D = s.D
    M = np.zeros((D * D, D * D), dtype=complex)
    for i in range(D * D):
        v = np.zeros(D * D, dtype=complex)
        v[i] = 1
        y = v.reshape(D, D)
        for j in range(L):
            y = left_map(A[j], y)
        M[:, i] = v - y.ravel() + l[-1].ravel() * np.trace(v.reshape(D, D).dot(r[-1]))
    K = la.solve(M, (X - e * l[-1]).ravel()).reshape(D, D)
    sc = max(1., la.norm(K))
    close(KL[-1], K, sig, tol, sc, "K_left[%d]" % (L - 1))
    for k in range(L - 1):
        w = left_map(A[k], K) + term_left(A, l, h, hs, (k - hs + 1) % L)
        w = w - l[k] * np.trace(w.dot(r[k]))
        g = np.asarray(KL[k])
        g = g - l[k] * np.trace(g.dot(r[k]))
        close(g, w, sig, tol, sc, "K_left[%d]" % k)
        K = w
    return KL


def metric(s, B, C):
    """Overlap per block of tangent vectors (one of them gauge fixed)."""
    x = 0
    for k in range(s.L):
        l, r = arr(s.l[k - 1]), arr(s.r[k])
        x += sum(np.trace(l.dot(B[k][t]).dot(r).dot(C[k][t].conj().T)) for t in range(s.q))
    return x


def energy_slope(A, h, hs, V, step=2e-3):
    """d/de of the energy per block along V."""
    def f(e):
        inf = uref.Inf([a + e * v for a, v in zip(A, V)])
        return (energy_density(inf, h, hs) * inf.L).real
    return (8 * (f(step) - f(-step)) - (f(2 * step) - f(-2 * step))) / (12 * step)


def directions(s, n=2):
    """Generic tangent directions obeying the right gauge condition (every
    tangent vector is equivalent to one of these)."""
    rng = ref.rng_for("udir", s.q, s.D, s.L)
    out = []
    for i in range(n):
        V = [ref.cgauss(rng, a.shape) for a in s.A]
        for k in range(s.L):
            r, a = arr(s.r[k]), np.asarray(s.A[k])
            X = sum(V[k][t].dot(r).dot(a[t].conj().T) for t in range(s.q)).dot(la.inv(arr(s.r[k - 1])))
            V[k] = V[k] - np.einsum('ab,sbc->sac', X, a)
        nn = np.sqrt(sum(la.norm(v) ** 2 for v in V))
        V = [v / nn for v in V]
        out += [V, [1j * v for v in V]]
    return out


def new_tdvp(cfg):
    name, hs = cfg["ham"], cfg["hs"]
    s, A = new_mps(cfg, cls=lambda D, q, do_update, L: tu.EvoMPS_TDVP_Uniform(
        D, q, uham_arg(name, q, hs), do_update=False, **dict(ham_kw(name, hs), **(dict(L=L) if L > 1 else {}))))
    set_uham(s, name, hs)
    s.itr_rtol = 1e-13
    return s, A


def tcfgs(qs=(2, 3), Ds=(1, 2, 3), Ls=(1, 2, 3), hss=(2, 3), kinds=("rand",), hams=("herm",), symms=(True, False), **extra):
    for c in ucfgs(qs=qs, Ds=Ds, Ls=Ls, kinds=kinds, symms=symms, **extra):
        for hs in hss:
            for h in hams:
                if h == "tp" and hs != 2:
                    continue
                yield dict(c, hs=hs, ham=h)


class UTdvpWorld(World):
    """U06: energies, K matrices, tangent vectors after every history."""
    name = "utdvp.proj"
    depth = 1
    min_gap = 0.05

    def configs(self, tier):
        if tier == "quick":
            for c in tcfgs():
                yield c
            for c in tcfgs(Ds=(2, 3), Ls=(1, 2), kinds=("gauge", "near", "aklt"), qs=(2, 3)):
                yield c
            for c in tcfgs(Ds=(1, 2), Ls=(1, 2, 3), hams=("call", "tp", "field"), qs=(2,)):
                yield c
            for c in tcfgs(Ds=(4,), Ls=(1, 2, 3, 4), qs=(2,)):
                yield c
            for c in tcfgs(Ds=(2,), Ls=(4, 5), qs=(2,), kinds=("rand", "per2")):
                yield c
        else:
            for c in tcfgs(kinds=("rand", "gauge", "near", "real", "aklt", "cat"), Ds=(1, 2, 3, 4), Ls=(1, 2, 3, 4)):
                yield dict(c, depth=2 if c["D"] <= 3 and c["L"] <= 2 else 1)
            for c in tcfgs(Ds=(1, 2, 3), Ls=(1, 2, 3), hams=("call", "tp", "field", "real", "ising"), qs=(2, 3)):
                yield c
            for c in tcfgs(Ds=(5, 6), Ls=(1, 2), qs=(2,)):
                yield c

    def depth_for(self, cfg, tier):
        return cfg.get("depth", 2 if cfg["D"] <= 2 and cfg["L"] <= 2 and cfg["q"] == 2 else 1)

    def init(self, cfg):
        s, A = new_tdvp(cfg)
        st = UState(s, A)
        st.cfg = cfg
        seed_for("ut", cfg["q"], cfg["D"], cfg["L"], cfg["kind"])
        st.h, st.hs, st.hname = uham(cfg["ham"], cfg["q"], cfg["hs"]), cfg["hs"], cfg["ham"]
        if st.inf().gap() < self.min_gap:
            raise Disabled()
        with Guard("utdvp.update"):
            s.update()
        st.info = "scf" if s.symm_gauge else "rcf"
        return st

    def key(self, st):
        s = st.s
        return canon(st.info, st.hname, bool(s.symm_gauge), s.D, s.q, s.L, *utens(s))

    def actions(self, st):
        out = [("update", False), ("gauge", False), ("scale",), ("toggle",), ("euler", 0.03), ("euler", -0.01 + 0.03j),
               ("ham", "herm2"), ("lcf",)]
        return out

    def step(self, st, act):
        s = st.s
        k = act[0]
        CF = "scf" if s.symm_gauge else "rcf"
        sig = "utdvp." + k
        if k == "update":
            with Guard(sig):
                s.update(restore_CF=False)
            st.info = "raw"
        elif k == "gauge":
            gauge_u(s, "g", 0.5)
            with Guard(sig):
                s.update(restore_CF=False)
            st.info = "raw"
        elif k == "scale":
            s.A[-1] = s.A[-1] * (0.4 - 0.9j)
            with Guard(sig):
                s.update()
            st.info = CF
        elif k == "toggle":
            s.symm_gauge = not s.symm_gauge
            with Guard(sig):
                s.update()
            st.info = "scf" if s.symm_gauge else "rcf"
        elif k == "lcf":
            with Guard(sig):
                s.restore_LCF()
                s.update(restore_CF=False)
            st.info = "raw"
        elif k == "ham":
            st.hname, st.h = act[1], uham(act[1], s.q, st.hs)
            with Guard(sig):
                set_uham(s, act[1], st.hs)
                s.update(restore_CF=False)
            st.info = "raw"
        elif k == "euler":
            if not self.good(st):
                raise Disabled()
            A0 = utens(s)
            with Guard(sig):
                B = s.calc_B()
                s.take_step(act[1])
            for a, b, c in zip(A0, B, s.A):
                close(c, a - act[1] * b, sig, 1e-9, max(1., la.norm(a)), "tensor after a step")
            st.m = [a - act[1] * b for a, b in zip(A0, B)]
            if st.inf().gap() < self.min_gap:
                raise Disabled()
            with Guard(sig):
                s.update()
            st.info = CF
        return st

    def good(self, st, lo=1e-6):
        """Schmidt weights far enough from zero for inverses to make sense."""
        return all(np.append(st.inf().schmidt_sq(k), np.zeros(st.s.D))[:st.s.D][-1] > lo for k in range(st.s.L))

    def check(self, st):
        s, inf, h, hs = st.s, st.inf(), st.h, st.hs
        J = same_state(s, inf, "utdvp.state", window=3 if s.q == 2 else 2)
        check_fixed_points(s)
        e = energy_density(inf, h, hs)
        close(s.h_expect, e, "utdvp.h_expect", 1e-8, max(1., abs(e)), "energy density")
        for k in range(s.L):
            w = inf.expect(h, k, hs)
            for op in (s.ham, h.reshape([s.q] * (2 * hs))):
                with Guard("utdvp.expect_ham"):
                    x = (s.expect_2s if hs == 2 else s.expect_3s)(op, k)
                close(x, w, "utdvp.expect_ham", 1e-8, 1.0, "energy of term %d" % k)
        if not self.good(st):
            return
        check_K(s, h, hs)
        A0, K0 = utens(s), [np.array(k) for k in s.K]
        with Guard("utdvp.calc_B"):
            B = s.calc_B()
            eta, eta_sq = s.eta, np.array(s.eta_sq)
            s.eta_sq = np.arange(s.L) + 3.5
            s.eta = s.eta_sq.sum() ** 0.5
            B2, x = s.calc_B(set_eta=False, return_x=True)
            need(abs(s.eta ** 2 - s.eta_sq.sum()) < 1e-9 and np.array_equal(s.eta_sq, np.arange(s.L) + 3.5), "utdvp.calc_B.eta", "set_eta=False, yet eta or eta_sq was set")
            s.eta, s.eta_sq = eta, eta_sq.copy()
        for a, b in zip(A0, s.A):
            need(np.array_equal(a, b), "utdvp.calc_B.readonly", "calc_B changed the state")
        sc = max(1., la.norm(h))
        for k in range(s.L):
            close(B2[k], B[k], "utdvp.calc_B.repeat", 1e-10, sc)
            r = arr(s.r[k])
            g = sum(B[k][t].dot(r).dot(A0[k][t].conj().T) for t in range(s.q))
            close(g, 0 * g, "utdvp.gauge", 1e-7, sc, "right gauge condition at %d" % k)
            w = metric_site(s, B, k)
            close(eta_sq[k].real, w, "utdvp.eta_sq", 1e-7, sc ** 2, "eta_sq[%d]" % k)
            close(la.norm(x[k]) ** 2, w, "utdvp.eta_sq.x", 1e-7, sc ** 2, "norm of x[%d]" % k)
        close(np.real(eta) ** 2, sum(metric_site(s, B, k) for k in range(s.L)), "utdvp.eta", 1e-7, sc ** 2, "eta^2")
        for V in directions(s):
            d = energy_slope(A0, h, hs, V)
            g = 2 * metric(s, B, V).real
            close(g, d, "utdvp.projection", 2e-6, sc, "energy slope along a tangent direction")
        check_K_left(s, h, hs)
        for a, b in zip(A0, s.A):
            need(np.array_equal(a, b), "utdvp.calc_K_l.readonly", "calc_K_l changed the state")


def metric_site(s, B, k):
    l, r = arr(s.l[k - 1]), arr(s.r[k])
    return sum(np.trace(l.dot(B[k][t]).dot(r).dot(B[k][t].conj().T)) for t in range(s.q)).real
