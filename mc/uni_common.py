"""Infinite chains: initial states, the (implementation, reference) pair and
shared invariants."""
import itertools
import numpy as np
import scipy.linalg as la

from . import env, ref, uref
from .explore import (attributes, unchanged, World, Violation, Disabled, Guard, need, close, canon,
                      seed_for)
from .gen_common import arr, op1, opk, mpo, as_callable, OPS

import evoMPS.mps_uniform as mu


def tensors_u(cfg):
    """[A_0..A_{L-1}] for dict(q, D, L, kind)."""
    q, D, L, kind = cfg["q"], cfg["D"], cfg["L"], cfg["kind"]
    rng = ref.rng_for("utens", q, D, L, kind, cfg.get("seed", 0))
    A = [ref.cgauss(rng, (q, D, D)) for k in range(L)]
    if kind == "rand":
        return A
    if kind == "real":
        return [a.real.astype(complex) for a in A]
    if kind == "gauge":
        X = []
        for k in range(L):
            u, _ = la.qr(ref.cgauss(rng, (D, D)))
            v, _ = la.qr(ref.cgauss(rng, (D, D)))
            X.append(u.dot(np.diag(np.logspace(-.3, .3, D) if D > 1 else [3.])).dot(v))
        A = [np.einsum('ab,sbc,cd->sad', la.inv(X[k - 1]), A[k], X[k]) for k in range(L)]
        A[0] = A[0] * (5.3 * np.exp(0.7j))
        return A
    if kind in ("cls", "cls2"):
        # basis state on one site, superpositions elsewhere (D = 1)
        out = [np.full((q, 1, 1), q ** -.5, dtype=complex) for k in range(L)]
        k = 0 if kind == "cls" else L - 1
        out[k][:, 0, 0] = np.eye(q)[0]
        return out
    if kind == "low":
        # rank D-1 everywhere, embedded along a random direction
        E = max(1, D - 1)
        A = [ref.cgauss(rng, (q, E, E)) for k in range(L)]
        P = [la.qr(ref.cgauss(rng, (D, D)))[0][:, :E] for k in range(L)]
        return [np.einsum('ab,sbc,dc->sad', P[k - 1], A[k], P[k].conj()) for k in range(L)]
    if kind == "pad":
        # rank D-1, padded with exact zeros
        E = max(1, D - 1)
        A = [ref.cgauss(rng, (q, E, E)) for k in range(L)]
        out = [np.zeros((q, D, D), dtype=complex) for k in range(L)]
        for k in range(L):
            out[k][:, :E, :E] = A[k]
        return out
    if kind in ("kerl", "kerr", "ker"):
        # rank D-1, with the vector of ones in the kernel of l, r or both
        E = max(1, D - 1)
        out = []
        for k in range(L):
            a = np.zeros((q, D, D), dtype=complex)
            a[:, :E, :E] = A[k][:, :E, :E]
            out.append(a)
        g = np.eye(D) + 0.2 * ref.cgauss(rng, (D, D)).real
        g[:, -1] = 1
        if kind == "ker":
            g = la.qr(g[:, ::-1])[0][:, ::-1]
        if kind == "kerr":
            g = la.inv(g).conj().T
        gi = la.inv(g)
        return [np.einsum('ab,sbc,cd->sad', g, a, gi) for a in out]
    if kind == "long":
        # two nearly decoupled sectors: a small but finite gap
        A = [a * 0.03 for a in A]
        for k in range(L):
            A[k][0, 0, 0] += 1
            A[k][1, D - 1, D - 1] += 1
        return A
    if kind in ("eqmod", "eqmodr"):
        # rank one, with fixed points all of whose entries have the same modulus
        b = np.exp(2j * np.pi * rng.rand(D))
        # close to b^*: otherwise the transfer operator is far from normal and
        # its rounding errors are what the eigensolver sees
        a = b.conj() * (1 + 0.4 * ref.cgauss(rng, (D,)))
        a = a / b.dot(a)
        w = np.outer(a, b) if kind == "eqmod" else np.outer(b, a)
        return [np.einsum('s,ab->sab', ref.cgauss(rng, (q,)), w) for k in range(L)]
    if kind == "prod":
        out = [np.zeros((q, D, D), dtype=complex) for k in range(L)]
        for k in range(L):
            out[k][:, 0, 0] = ref.cgauss(rng, (q,))
        return out
    if kind == "near":
        # weakly entangled: product plus a perturbation
        A = [a * 0.4 for a in A]
        for k in range(L):
            A[k][:, 0, 0] += ref.cgauss(rng, (q,)) * 2
        return A
    if kind == "aklt":
        # spin-1 AKLT state, D = 2, q = 3 (any L)
        a = np.zeros((3, 2, 2), dtype=complex)
        a[0] = np.array([[0, np.sqrt(2. / 3)], [0, 0]])
        a[1] = np.array([[-1 / np.sqrt(3), 0], [0, 1 / np.sqrt(3)]])
        a[2] = np.array([[0, 0], [-np.sqrt(2. / 3), 0]])
        return [a.copy() for k in range(L)]
    if kind == "z2":
        # symmetric under prod diag((-1)^s); virtual parities (-1)^a
        for k in range(L):
            for t in range(q):
                for a in range(D):
                    for b in range(D):
                        if (t + a + b) % 2:
                            A[k][t, a, b] = 0
        return A
    if kind == "u1":
        # q = 3, charges (1, 0, -1); virtual charges a mod 2
        for k in range(L):
            for t in range(q):
                for a in range(D):
                    for b in range(D):
                        if (b % 2) - (a % 2) != (1, 0, -1)[t]:
                            A[k][t, a, b] = 0
        return A
    if kind == "cat":
        # the L-site pattern of one random translation-invariant state
        return [A[0].copy() for k in range(L)]
    if kind == "per2":
        # period two, stored in a block of L sites (exactly so for even L)
        return [A[k % 2].copy() for k in range(L)]
    raise ValueError(kind)


def sizes(tier, thorough_extra=()):
    pass


def ucfgs(qs=(2, 3), Ds=(1, 2, 3, 4), Ls=(1, 2, 3), kinds=("rand",), symms=(True, False), **extra):
    for L in Ls:
        for q in qs:
            for D in Ds:
                for kind in kinds:
                    if kind in ("low", "pad", "near", "gauge", "prod", "long", "ker", "kerl", "kerr", "eqmod", "eqmodr") and D == 1:
                        continue
                    if kind == "aklt" and (D != 2 or q != 3):
                        continue
                    if kind == "u1" and (D == 1 or q != 3) or kind == "z2" and D == 1:
                        continue
                    for sy in symms:
                        yield dict(q=q, D=D, L=L, kind=kind, symm=sy, **extra)


class UState(object):
    """s: implementation; m: reference tensors (any gauge)."""

    def __init__(self, s, m):
        self.s = s
        self.m = m
        self.info = None

    _cache = (None, None)

    def inf(self):
        key = tuple(a.tobytes() for a in self.m)
        if self._cache[0] != key:
            self._cache = (key, uref.Inf(self.m))
        return self._cache[1]


def utens(s):
    return [np.array(a) for a in s.A]


def new_mps(cfg, cls=None, **kw):
    A = tensors_u(cfg)
    with Guard("u.construct"):
        if cls is None:
            s = mu.EvoMPS_MPS_Uniform.from_tensors([a.real.copy() for a in A] if cfg["kind"] == "real" else A, do_update=False)
        else:
            s = cls(cfg["D"], cfg["q"], do_update=False, L=cfg["L"], **kw)
            for k in range(cfg["L"]):
                s.A[k][:] = A[k]
    s.symm_gauge = cfg.get("symm", True)
    if cfg["kind"] in ("low", "pad", "prod"):
        # the documented tolerance for recognising zero Schmidt weights; the
        # default (1e-15) is below the rounding errors of any eigensolver
        s.zero_tol = 1e-11
    return s, A


def same_state(s, inf, sig, tol=1e-7, window=None, what="state"):
    """The implementation's tensors describe the reference state."""
    need(all(np.all(np.isfinite(np.asarray(a))) for a in s.A), sig + ".finite", "tensors contain inf or nan")
    J = uref.Inf(s.A)
    f, ev, n = inf.overlap(J)
    need(abs(f - 1) <= 1e-8, sig, "%s changed: fidelity per site %.12g", what, f)
    L = uref.lcm(inf.L, J.L)
    m = window or (3 if inf.q <= 3 else 2)
    for k in range(L):
        close(J.rdm(k % J.L, m), inf.rdm(k % inf.L, m), sig + ".rdm", tol, 1.0,
              "%s: density matrix of %d sites from %d" % (what, m, k))
    return J


def check_fixed_points(s, sig="u.lr", tol=1e-8):
    """l, r are the normalised, positive fixed points of the current tensors."""
    L = s.L
    A = [np.asarray(a) for a in s.A]
    for k in range(L):
        l, r = arr(s.l[k]), arr(s.r[k])
        need(l.shape == (s.D, s.D) and r.shape == (s.D, s.D), sig + ".shape", "l[%d] %s", k, l.shape)
        need(A[k].shape == (s.q, s.D, s.D), sig + ".shape", "A[%d] %s", k, A[k].shape)
        sl, sr = max(1e-300, la.norm(l)), max(1e-300, la.norm(r))
        close(l, l.conj().T, sig + ".herm", tol, sl, "l[%d] not Hermitian" % k)
        close(r, r.conj().T, sig + ".herm", tol, sr, "r[%d] not Hermitian" % k)
        need(la.eigvalsh(l).min() >= -tol * sl, sig + ".pos", "l[%d] not positive: %s", k, la.eigvalsh(l))
        need(la.eigvalsh(r).min() >= -tol * sr, sig + ".pos", "r[%d] not positive: %s", k, la.eigvalsh(r))
        lp, rp = arr(s.l[k - 1]), arr(s.r[k])
        x = sum(a.conj().T.dot(lp).dot(a) for a in A[k])
        close(x, l, sig + ".l", tol, sl, "l[%d] is not the image of l[%d]:" % (k, (k - 1) % L))
        x = sum(a.dot(rp).dot(a.conj().T) for a in A[k])
        close(x, arr(s.r[k - 1]), sig + ".r", tol, max(1e-300, la.norm(arr(s.r[k - 1]))), "r[%d] is not the image of r[%d]:" % ((k - 1) % L, k))
        close(np.trace(l.dot(r)), 1., sig + ".norm", tol, 1.0, "<l[%d]|r[%d]>" % (k, k))


def check_form(s, inf, form, k, sig="u.cf", tol=1e-8):
    l, r = arr(s.l[k]), arr(s.r[k])
    D = s.D
    sch = np.zeros(max(D, inf.D))
    x = inf.schmidt_sq(k % inf.L)
    sch[:len(x)] = x
    need(np.all(sch[D:] < 1e-9), sig, "rank lost")
    sch = sch[:D]

    def isdiag(x, w):
        need(np.max(np.abs(x - np.diag(np.diag(x)))) <= tol, sig + ".diag", "%s[%d] is not diagonal", w, k)

    if form == "scf":
        isdiag(l, "l")
        close(l, r, sig + ".sym", tol, 1.0, "l[%d] vs r[%d]" % (k, k))
        d = np.diag(l).real
        need(np.all(np.diff(d) <= tol), sig + ".order", "Schmidt coefficients not descending: %s", d)
        close(d ** 2, sch, sig + ".schmidt", 1e-7, 1.0, "Schmidt weights at %d" % k)
    elif form in ("rcf", "lcf"):
        o, w = (r, l) if form == "rcf" else (l, r)
        isdiag(w, "weights")
        d = np.diag(w).real
        need(np.all(np.diff(d) >= -tol), sig + ".order", "Schmidt weights not ascending: %s", d)
        close(d, sch[::-1], sig + ".schmidt", 1e-7, 1.0, "Schmidt weights at %d" % k)
        if sch[-1] > 1e-12:
            close(o, np.eye(D), sig + ".ortho", tol, 1.0, "identity side at %d" % k)
    elif form in ("rcf_nd", "lcf_nd"):
        o, w = (r, l) if form == "rcf_nd" else (l, r)
        if sch[-1] > 1e-12:
            close(o, np.eye(D), sig + ".ortho", tol, 1.0, "identity side at %d" % k)
        close(np.sort(la.eigvalsh(w))[::-1], sch, sig + ".schmidt", 1e-7, 1.0, "Schmidt weights at %d" % k)


def gauge_u(s, tag, strength=1.0):
    L = s.L
    rng = ref.rng_for("ugauge", tag, s.D, L)
    X = []
    for k in range(L):
        u, _ = la.qr(ref.cgauss(rng, (s.D, s.D)))
        v, _ = la.qr(ref.cgauss(rng, (s.D, s.D)))
        X.append(u.dot(np.diag(10 ** np.linspace(-.3 * strength, .3 * strength, s.D) if s.D > 1 else [2.])).dot(v))
    for k in range(L):
        s.A[k] = np.einsum('ab,sbc,cd->sad', la.inv(X[k - 1]), s.A[k], X[k])
