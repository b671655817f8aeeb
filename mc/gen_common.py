"""Finite open chains: initial states, the (implementation, vector) pair, and
the invariants shared by several properties."""
import itertools
import numpy as np
import scipy.linalg as la

from . import env, ref
from .explore import (World, Violation, Disabled, Guard, need, close, canon,
                      seed_for)

import evoMPS.mps_gen as mg
import evoMPS.tdvp_gen as tg


def arr(x):
    """Dense array of a possibly special matrix (eye/diag) object."""
    if hasattr(x, "A"):
        return np.asarray(x.A)
    return np.asarray(x)


def d_profiles(q, Dmax):
    """Every bond profile (D_0..D_N) realisable as Schmidt ranks with D<=Dmax."""
    N = len(q)
    cap = [1]
    for x in q:
        cap.append(min(cap[-1] * x, Dmax))
    r = 1
    for n in range(N, -1, -1):
        cap[n] = min(cap[n], r)
        r = min(r * q[n - 1], 10 ** 6) if n > 0 else r
    out = []
    for D in itertools.product(*[range(1, c + 1) for c in cap]):
        if D[0] != 1 or D[N] != 1:
            continue
        ok = all(D[n] <= D[n - 1] * q[n - 1] and D[n - 1] <= D[n] * q[n - 1]
                 for n in range(1, N + 1))
        if ok:
            out.append(list(D))
    return out


def raw_tensors(cfg):
    """List [A_1..A_N] for a configuration dict(q, D, kind, seed)."""
    q, D, kind = cfg["q"], cfg["D"], cfg["kind"]
    rng = ref.rng_for("tens", q, D, kind, cfg.get("seed", 0))
    N = len(q)
    A = [ref.cgauss(rng, (q[n], D[n], D[n + 1])) for n in range(N)]
    if kind == "rand":
        return A
    if kind == "real":
        return [a.real.astype(complex) for a in A]
    if kind == "gauge":
        # strongly non-canonical representation, norm != 1, overall phase
        X = [np.eye(1, dtype=complex)]
        for n in range(1, N):
            u, _ = la.qr(ref.cgauss(rng, (D[n], D[n])))
            v, _ = la.qr(ref.cgauss(rng, (D[n], D[n])))
            X.append(u.dot(np.diag(np.logspace(-1, 1, D[n]) if D[n] > 1 else [3.])).dot(v))
        X.append(np.eye(1, dtype=complex))
        Xi = [la.inv(x) for x in X]
        A = [np.einsum('ab,sbc,cd->sad', Xi[n], A[n], X[n + 1]) for n in range(N)]
        A[N // 2] = A[N // 2] * (3.7 * np.exp(0.9j))
        return A
    if kind == "low":
        # Schmidt ranks strictly below D wherever D > 1
        E = [max(1, d - 1) for d in D]
        A = [ref.cgauss(rng, (q[n], E[n], E[n + 1])) for n in range(N)]
        P = []
        for n in range(N + 1):
            u, _ = la.qr(ref.cgauss(rng, (D[n], D[n])))
            P.append(u[:, :E[n]])
        P[0] = np.eye(1)
        P[N] = np.eye(1)
        return [np.einsum('ab,sbc,dc->sad', P[n], A[n], P[n + 1].conj())
                for n in range(N)]
    if kind == "near":
        # close to a product state: Schmidt weights of very different sizes,
        # none of them negligible
        out = []
        for n in range(N):
            wl = 10. ** (-1.5 * np.arange(D[n]))
            wr = 10. ** (-1.5 * np.arange(D[n + 1]))
            out.append(A[n] * np.sqrt(wl)[None, :, None] * np.sqrt(wr)[None, None, :])
        return out
    if kind == "tiny":
        # all but the largest Schmidt weights are of order 1e-10
        f = [np.where(np.arange(d) > 0, 10 ** -2.5, 1.) for d in D]
        return [a * f[n][None, :, None] * f[n + 1][None, None, :] for n, a in enumerate(A)]
    if kind == "prod":
        out = []
        for n in range(N):
            a = np.zeros((q[n], D[n], D[n + 1]), dtype=complex)
            a[:, 0, 0] = ref.cgauss(rng, (q[n],))
            out.append(a)
        return out
    if kind == "ghz":
        # sum_k c_k |k k k ...>, degenerate Schmidt values
        K = min(min(D[1:N]) if N > 1 else 1, min(q))
        out = []
        for n in range(N):
            a = np.zeros((q[n], D[n], D[n + 1]), dtype=complex)
            for k in range(K):
                a[k, k if n > 0 else 0, k if n < N - 1 else 0] = 1.
            out.append(a)
        return out
    if kind == "init":
        return None
    raise ValueError(kind)


def make_mps(cfg, cls=None, ham=None, hs=None):
    q, D = cfg["q"], cfg["D"]
    N = len(q)
    with Guard("construct"):
        if cls is None:
            s = mg.EvoMPS_MPS_Generic(N, D, [0] + list(q))
        else:
            # the number of sites may be left to the constructor where it can
            # be told from the Hamiltonian (or is the documented default)
            if cfg.get("gauge") != "left" and ham is not None and (hs == 2 if callable(ham) else len(ham) > 1 and ham[1] is not None):
                s = cls(N, D, [0] + list(q), ham)
            else:
                s = cls(N, D, [0] + list(q), ham, ham_sites=hs)
            need(s.ham_sites == hs, "construct.ham_sites", "ham_sites=%s for %s-site terms", s.ham_sites, hs)
    need(list(s.D) == list(D), "construct.D",
         "realisable bond dimensions %s changed to %s", D, list(s.D))
    A = raw_tensors(cfg)
    if A is not None:
        for n in range(1, N + 1):
            s.A[n][:] = A[n - 1]
    return s


def tensors(s):
    return [np.asarray(s.A[n]) for n in range(1, s.N + 1)]


def vec(s):
    return ref.dense(tensors(s))


def check_shapes(s, sig="shape"):
    for n in range(1, s.N + 1):
        want = (int(s.q[n]), int(s.D[n - 1]), int(s.D[n]))
        need(tuple(s.A[n].shape) == want, sig, "A[%d] has shape %s, q/D say %s",
             n, s.A[n].shape, want)
        need(tuple(s.l[n].shape) == (want[2], want[2]), sig, "l[%d] shape %s", n, s.l[n].shape)
        need(tuple(s.r[n - 1].shape) == (want[1], want[1]), sig, "r[%d] shape %s", n - 1, s.r[n - 1].shape)


def env_blocks(A):
    """Exact l[n], r[n] for tensors A_1..A_N by plain contraction."""
    L = [np.eye(A[0].shape[1], dtype=complex)]
    for a in A:
        L.append(np.einsum('sab,ac,scd->bd', a.conj(), L[-1], a))
    R = [np.eye(A[-1].shape[2], dtype=complex)]
    for a in reversed(A):
        R.insert(0, np.einsum('sab,bc,sdc->ad', a, R[0], a.conj()))
    return L, R


def check_lr(s, sig="lr", tol=1e-9):
    """l[n] and r[n] are the environments of the current tensors."""
    L, R = env_blocks(tensors(s))
    for n in range(0, s.N + 1):
        sc = max(1e-300, la.norm(L[n]))
        close(arr(s.l[n]) / sc, L[n] / sc, sig + ".l", tol, 1.0, "l[%d]" % n)
        sc = max(1e-300, la.norm(R[n]))
        close(arr(s.r[n]) / sc, R[n] / sc, sig + ".r", tol, 1.0, "r[%d]" % n)


def check_cf(s, form, norm_sq, diag=True, ortho=True, sig="cf", tol=1e-9):
    """Orthonormality on one side, diagonal sorted positive Schmidt weights on
    the other, with the right trace."""
    A = tensors(s)
    N = s.N
    psi = ref.dense(A)
    for n in range(0, N + 1):
        o = arr(s.r[n] if form == "right" else s.l[n])
        w = arr(s.l[n] if form == "right" else s.r[n])
        inner_bond = 1 <= n <= N - 1
        if ortho:
            if inner_bond or (form == "right" and n == N) or (form == "left" and n == 0):
                close(o, np.eye(o.shape[0]), sig + ".ortho", tol, 1.0,
                      "%s[%d] is not the identity:" % ("r" if form == "right" else "l", n))
        if diag and inner_bond:
            off = w - np.diag(np.diag(w))
            need(np.max(np.abs(off)) <= tol * norm_sq, sig + ".diag",
                 "weights at bond %d not diagonal: off-diagonal %g", n, np.max(np.abs(off)))
            dg = np.diag(w)
            need(np.max(np.abs(dg.imag)) <= tol * norm_sq and dg.real.min() >= -tol * norm_sq,
                 sig + ".pos", "weights at bond %d not positive: %s", n, dg)
            need(abs(dg.sum() - norm_sq) <= tol * max(norm_sq, 1e-300), sig + ".trace",
                 "trace of weights at bond %d is %s, expected %g", n, dg.sum(), norm_sq)
            if ortho:
                lam = ref.schmidt_sq(psi, n)
                k = len(dg)
                full = np.zeros(max(k, len(lam)))
                full[:len(lam)] = lam
                got = np.zeros(max(k, len(lam)))
                got[:k] = np.sort(dg.real)[::-1] / norm_sq
                close(got, full, sig + ".schmidt", tol, 1.0, "Schmidt weights at bond %d" % n)
                need(np.all(np.diff(dg.real) >= -tol * norm_sq), sig + ".order",
                     "weights at bond %d not in ascending order: %s", n, dg.real)


OPS = {}


def op1(name, q):
    """A fixed alphabet of single-site operators in dimension q."""
    k = (name, q)
    if k in OPS:
        return OPS[k]
    if name == "id":
        o = np.eye(q, dtype=complex)
    elif name == "z":
        o = np.diag(np.arange(q) - 0.37 * (q - 1)).astype(complex)
    elif name == "up":                       # not Hermitian, nilpotent
        o = np.diag(np.ones(q - 1), 1).astype(complex)
    elif name == "u":                        # unitary
        o = la.expm(1j * ref.rand_herm(ref.rng_for("u", q), [q]))
    elif name == "h":
        o = ref.rand_herm(ref.rng_for("h", q), [q])
    elif name == "proj":
        o = np.zeros((q, q), dtype=complex)
        o[0, 0] = 1
        o[0, 1] = .5
        o[1, 0] = .5
        o[1, 1] = .25
        o /= 1.25
    elif name == "g":                        # generic
        o = ref.cgauss(ref.rng_for("g", q), (q, q))
    else:
        raise ValueError(name)
    OPS[k] = o
    return o


def opk(name, qs):
    k = (name, tuple(qs))
    if k in OPS:
        return OPS[k]
    d = int(np.prod(qs))
    rng = ref.rng_for("opk", name, tuple(qs))
    if name == "g":
        o = ref.cgauss(rng, (d, d))
    elif name == "h":
        o = ref.rand_herm(rng, qs)
    elif name == "id":
        o = np.eye(d, dtype=complex)
    else:
        raise ValueError(name)
    OPS[k] = o
    return o


def mpo(name, qs):
    """A fixed alphabet of MPOs on consecutive sites with dimensions qs."""
    k = ("mpo", name, tuple(qs))
    if k in OPS:
        return OPS[k]
    rng = ref.rng_for("mpo", name, tuple(qs))
    n = len(qs)
    if name == "g2":
        m = [1] + [2] * (n - 1) + [1]
    elif name == "g3":
        m = [1] + [3] * (n - 1) + [1]
    elif name == "g1":
        m = [1] * (n + 1)
    elif name == "asym":
        m = [1] + [2 + (i % 2) for i in range(n - 1)] + [1]
    else:
        raise ValueError(name)
    W = [ref.cgauss(rng, (m[i], m[i + 1], qs[i], qs[i])) for i in range(n)]
    OPS[k] = W
    return W


def as_callable(op, qs):
    """op(s..., t...) = <s...|op|t...> as a plain function of indices."""
    t = np.asarray(op).reshape(list(qs) * 2)

    def f(*idx):
        return t[tuple(int(i) for i in idx)]
    return f
