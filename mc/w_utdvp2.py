"""Infinite-chain TDVP: two-site error, integrators, searches."""
import copy
import numpy as np
import scipy.linalg as la

from .uni_common import *
from .w_utdvp import *


def msqrt(x):
    """Square root and inverse square root of a positive matrix."""
    w, v = la.eigh((x + x.conj().T) / 2)
    w = np.clip(w, 1e-300, None)
    return (v * np.sqrt(w)).dot(v.conj().T), (v / np.sqrt(w)).dot(v.conj().T)


def complement(M):
    """Projector onto the orthogonal complement of the column space of M."""
    u, s, _ = la.svd(M, full_matrices=False)
    u = u[:, s > 1e-11 * s[0]]
    return np.eye(M.shape[0]) - u.dot(u.conj().T)


def two_site(A, l, r, h, hs, k):
    """The part of H|psi> outside the one-site but inside the two-site tangent
    space at the bond between k and k+1: (D q) x (q D) matrix of coefficients
    with respect to orthonormal Schmidt vectors left of k and right of k+1."""
    L = len(A)
    q, D = A[0].shape[:2]
    n = lambda j: (k + j) % L
    ls, lsi = msqrt(l[n(-1)])
    rs, rsi = msqrt(r[n(1)])
    if hs == 2:
        W = ref.dense_open([A[n(0)], A[n(1)]]).reshape(D, q * q, D)
        T = np.einsum('st,atb->asb', h, W)
        T = np.einsum('ca,asb,bd->csd', ls, T, rs)
    else:
        W = ref.dense_open([A[n(0)], A[n(1)], A[n(2)]]).reshape(D, q ** 3, D)
        T = np.einsum('st,atb->asb', h, W).reshape(D, q * q, q, D)
        T = np.einsum('asub,bc,udc->asd', T, r[n(2)], A[n(2)].conj())
        T = np.einsum('ca,asb,bd->csd', ls, T, rsi)
        W = ref.dense_open([A[n(-1)], A[n(0)], A[n(1)]]).reshape(D, q ** 3, D)
        S = np.einsum('st,atb->asb', h, W).reshape(D, q, q * q, D)
        S = np.einsum('uad,ab,bush->dsh', A[n(-1)].conj(), l[n(-2)], S)
        T = T + np.einsum('ca,asb,bd->csd', lsi, S, rs)
    T = T.reshape(D * q, q * D)
    # columns l^{1/2} A_k and rows A_{k+1} r^{1/2} span the one-site part
    C = np.einsum('ca,sab->csb', ls, A[n(0)]).reshape(D * q, D)
    R = np.einsum('sab,bd->asd', A[n(1)], rs).reshape(D, q * D)
    P = complement(C)
    Q = complement(R.conj().T).conj().T
    T = P.dot(T).dot(Q.conj().T)
    return T, lsi, rsi


def unweight(T, lsi, rsi, q, D):
    return np.einsum('ca,astb,bd->csstd'.replace('csstd', 'cstd'), lsi, T.reshape(D, q, q, D), rsi)


class UTwoSiteWorld(UTdvpWorld):
    """U07: two-site error and dynamical expansion."""
    name = "utdvp.twosite"

    def configs(self, tier):
        if tier == "quick":
            for c in tcfgs():
                yield c
            for c in tcfgs(Ds=(2, 3), Ls=(1, 2), kinds=("gauge", "near"), qs=(2,)):
                yield c
            for c in tcfgs(Ds=(1, 2), Ls=(1, 2, 3), hams=("call", "tp", "field"), qs=(2,)):
                yield c
            for c in tcfgs(Ds=(1,), Ls=(2, 3, 4), kinds=("cls", "cls2"), hams=("zz", "ising"), hss=(2,)):
                yield c
            for c in tcfgs(Ds=(2,), Ls=(4, 5), qs=(2,), kinds=("rand", "per2")):
                yield c
        else:
            for c in tcfgs(Ds=(1,), Ls=(2, 3, 4, 5), kinds=("cls", "cls2"), hams=("zz", "ising")):
                yield c
            for c in tcfgs(kinds=("rand", "gauge", "near", "real", "aklt"), Ds=(1, 2, 3, 4), Ls=(1, 2, 3, 4)):
                yield c
            for c in tcfgs(Ds=(1, 2, 3), hams=("call", "tp", "field", "ising", "real")):
                yield c

    def actions(self, st):
        return [("update", False), ("gauge", False), ("euler", 0.03j), ("toggle",), ("ham", "herm2"),
                ("dynexp", 0.02j, 2), ("dynexp", 0.01 + 0.01j, 16)]

    def step(self, st, act):
        if act[0] != "dynexp":
            return UTdvpWorld.step(self, st, act)
        s = st.s
        if not self.good(st, 1e-4):
            raise Disabled()
        A0 = utens(s)
        with Guard("ubb.dynexp"):
            s.take_step(act[1], dynexp=True, dD_max=act[2])
        st.m = utens(s)
        if st.inf().gap() < self.min_gap or not all(st.inf().schmidt_sq(k)[s.D - 1] > 1e-9 for k in range(s.L)):
            raise Disabled()
        with Guard("ubb.dynexp"):
            s.update()
        return st

    def check(self, st):
        s, inf, h, hs = st.s, st.inf(), st.h, st.hs
        same_state(s, inf, "ubb.state", window=2)
        if not self.good(st, 1e-5):
            return
        L, q, D = s.L, s.q, s.D
        A = utens(s)
        l = [arr(x) for x in s.l]
        r = [arr(x) for x in s.r]
        sc = max(1., la.norm(h))
        c = copy.deepcopy(s)
        with Guard("ubb.calc_B"):
            B = c.calc_B()
            BB1, BB2, esq = c.calc_B_2s(dD_max=10 ** 6)
        tot = 0
        full = D * (q - 1)
        ws, svs, fr = [], [], []
        for k in range(L):
            T, lsi, rsi = two_site(A, l, r, h, hs, k)
            x = la.norm(T) ** 2
            tot += x
            close(np.real(c.etaBB_sq[k]), x, "ubb.etaBB_sq", 1e-7, sc ** 2, "etaBB_sq[%d]" % k)
            close(np.real(esq[k]), x, "ubb.etaBB_sq", 1e-7, sc ** 2, "returned etaBB_sq[%d]" % k)
            ws.append(T)
            fr.append((lsi, rsi))
            svs.append(la.svdvals(T))
        close(np.real(c.etaBB) ** 2, tot, "ubb.etaBB", 1e-7, sc ** 2, "etaBB^2")
        close(0., max(x[full] if len(x) > full else 0. for x in svs), "harness.rank", 1e-7, sc)
        nrm = max(la.norm(f) for x in fr for f in x) ** 2
        # the documented defaults
        x, y = copy.deepcopy(s), copy.deepcopy(s)
        with Guard("ubb.take_step"):
            x.take_step(0.01, dynexp=True)
            y.take_step(0.01, B=None, dynexp=True, D_max=128, dD_max=16, sv_tol=1e-14)
        need(x.D == y.D, "ubb.defaults", "D=%s with the defaults, %s with the documented values", x.D, y.D)
        for k in range(L):
            close(x.A[k], y.A[k], "ubb.defaults", 1e-10, max(1., la.norm(y.A[k])))
        for (dD_max, D_max) in ((1, 128), (2, 128), (full, 128), (16, D + 1), (16, D), (16, 128)):
            n = min(full, dD_max, D_max - D)
            if all(x[0] < 1e-9 for x in svs):
                continue     # nothing to capture: only rounding noise would be expanded into
            few = max(sum(x > 1e-9) for x in svs)
            nmin = min(n, few)
            for dt in (1e-2, 1e-2j):
                d = copy.deepcopy(s)
                with Guard("ubb.take_step"):
                    d.take_step(dt, dynexp=True, D_max=D_max, dD_max=dD_max, sv_tol=1e-10)
                need(D + nmin <= d.D <= D + n, "ubb.dynexp.D", "D grew from %d to %d, expected %d (dD_max=%d, D_max=%d, q=%d)",
                     D, d.D, D + n, dD_max, D_max, q)
                need(all(a.shape == (q, d.D, d.D) for a in d.A), "ubb.dynexp.shape", "%s", [a.shape for a in d.A])
                for k in range(L):
                    a1, a2 = d.A[k], d.A[(k + 1) % L]
                    b1 = A[k] - dt * B[k]
                    b2 = A[(k + 1) % L] - dt * B[(k + 1) % L]
                    close(a1[:, :D, :D], b1, "ubb.dynexp.A", 1e-8, max(1., la.norm(b1)), "one-site part at %d" % k)
                    close(a1[:, D:, D:], 0 * a1[:, D:, D:], "ubb.dynexp.corner", 1e-12, 1., "new corner of A[%d]" % k)
                    if not n:
                        continue
                    if n < full and svs[k][0] > 1e-9 and svs[k][n - 1] - svs[k][n] < 1e-6 * svs[k][0]:
                        continue
                    u, x, v = la.svd(ws[k])
                    W = (u[:, :n] * x[:n]).dot(v[:n])
                    W = unweight(W, fr[k][0], fr[k][1], q, D)
                    X = np.einsum('sab,tbc->astc', a1[:, :D, D:], a2[:, D:, :D])
                    close(X, -dt * W, "ubb.dynexp.BB", 1e-7, abs(dt) * sc * max(1., nrm), "two-site part at %d" % k)
        # a given pair is used as it is
        if svs[0][0] > 1e-9:
            d, e = copy.deepcopy(c), copy.deepcopy(s)
            with Guard("ubb.given"):
                d.take_step(0.01j, B=B, BB=c.calc_B_2s(dD_max=1), dynexp=True, dD_max=1)
                e.take_step(0.01j, dynexp=True, dD_max=1)
            need(d.D == e.D, "ubb.given", "D %d vs %d", d.D, e.D)
            for k in range(L):
                X = np.einsum('sab,tbc->astc', d.A[k], d.A[(k + 1) % L])
                Y = np.einsum('sab,tbc->astc', e.A[k], e.A[(k + 1) % L])
                close(X[:D, :, :, :D], Y[:D, :, :, :D], "ubb.given", 1e-8, max(1., la.norm(Y)), "given versus computed tangent vectors")


def full_update(s):
    s.update(restore_CF=False)


def flow_u(s, t, n):
    """Tensors after following dA/dt = -B(A) for parameter t (classical RK4
    with n small steps on copies of the state)."""
    c = copy.deepcopy(s)
    u = t / n

    def F(A):
        for k in range(c.L):
            c.A[k] = A[k].copy()
        full_update(c)
        return [-b for b in c.calc_B()]
    A = utens(s)
    ax = lambda A, x, K: [a + x * k for a, k in zip(A, K)]
    for i in range(n):
        k1 = F(A)
        k2 = F(ax(A, u / 2, k1))
        k3 = F(ax(A, u / 2, k2))
        k4 = F(ax(A, u, k3))
        A = [a + u / 6 * (p + 2 * q_ + 2 * r_ + s_) for a, p, q_, r_, s_ in zip(A, k1, k2, k3, k4)]
    return A


def tdist(A, B):
    return np.sqrt(sum(la.norm(a - b) ** 2 for a, b in zip(A, B)))


# what a step may change: the tensors, what it reports, and (RK4) what is derived from the tensors
DERIVED = ("A", "eta", "eta_sq", "etaBB", "etaBB_sq", "l", "r", "AA", "AAA", "C", "K", "K_left", "K0_init", "h_expect",
           "itr_l", "itr_r", "lL_before_CF", "rL_before_CF", "Vsh", "l_sqrt", "l_sqrt_i", "r_sqrt", "r_sqrt_i")


class UIntegWorld(UTdvpWorld):
    """U08: integrators."""
    name = "utdvp.integ"
    depth = 0

    def configs(self, tier):
        if tier == "quick":
            for c in tcfgs(qs=(2,), Ls=(1, 2)):
                yield dict(c, depth=2 if c["D"] <= 2 and c["L"] == 1 else 1)
            for c in tcfgs(qs=(2, 3), Ds=(1, 2), Ls=(1, 2, 3)):
                yield dict(c, depth=1 if c["L"] <= 2 else 0)
        else:
            for c in tcfgs(kinds=("rand", "gauge", "real", "near"), Ls=(1, 2, 3), hams=("herm",)):
                yield dict(c, depth=1)
            for c in tcfgs(hams=("call", "tp", "ising"), Ds=(1, 2, 3)):
                yield dict(c, depth=1)

    def actions(self, st):
        return [("euler", 0.03j), ("rk4", 0.05), ("update", False), ("gauge", False)]

    def step(self, st, act):
        if act[0] == "rk4":
            with Guard("uinteg.rk4"):
                st.s.take_step_RK4(act[1])
            st.m = utens(st.s)
            with Guard("uinteg.update"):
                st.s.update()
            return st
        return UTdvpWorld.step(self, st, act)

    def check(self, st):
        s, h, hs = st.s, st.h, st.hs
        if not self.good(st, 1e-2):
            return
        E0 = energy_density(st.inf(), h, hs).real
        with Guard("uinteg.calc_B"):
            B = s.calc_B()
        eta2 = float(np.real(s.eta)) ** 2
        mn = min(st.inf().schmidt_sq(k)[s.D - 1] for k in range(s.L))
        hh0 = 0.02 * min(1., np.sqrt(mn / 0.05)) * min(1., 3. / max(1., la.norm(h, 2)))
        sc = max(1., max(la.norm(a) for a in s.A))
        floor = 1e-10 * sc
        A0 = utens(s)
        for u, nm in ((1, "imaginary"), (1j, "real"), (np.exp(0.7j), "complex")):
            want = {}
            for integ, p in (("euler", 1), ("rk4", 4)):
                e, dE = [], []
                for hh in (hh0, hh0 / 2):
                    c = copy.deepcopy(s)
                    old = attributes(c, DERIVED if integ == "rk4" else DERIVED[:5])
                    with Guard("uinteg." + integ):
                        if integ == "euler":
                            c.take_step(hh * u)
                        else:
                            c.take_step_RK4(hh * u)
                    unchanged(c, old, "uinteg.only_state." + integ)
                    if hh not in want:
                        want[hh] = flow_u(s, hh * u, 8)
                    e.append(tdist(utens(c), want[hh]))
                    dE.append(energy_density(uref.Inf(c.A), h, hs).real - E0)
                need(e[1] <= floor or e[0] / e[1] >= 2 ** (p + 1) * 0.6, "uinteg.order." + integ,
                     "%s time: one-step errors %g (h=%g) and %g (h/2): not of order h^%d", nm, e[0], hh0, e[1], p + 1)
                if integ == "rk4":
                    # Euler is off by h^2/2 |A''|; RK4 must be far below that
                    need(e[0] <= max(floor, 0.05 * eul), "uinteg.size.rk4", "%s time: error %g versus Euler's %g", nm, e[0], eul)
                else:
                    eul = e[0]
                if nm == "real" and integ == "rk4":
                    for j in (0, 1):
                        need(abs(dE[j]) <= 1e-11 + 20 * sc * max(1., la.norm(h, 2)) * e[j],
                             "uinteg.energy." + integ, "energy drifts by %g in a step with error %g", dE[j], e[j])
                if nm == "imaginary":
                    need(dE[0] <= 1e-11 and dE[1] <= 1e-11, "uinteg.descent", "energy rises by %g / %g", dE[0], dE[1])
                    for d, hh in zip(dE, (hh0, hh0 / 2)):
                        w = -2 * hh * eta2 / s.L
                        need(abs(d - w) <= 0.5 * abs(w) + 1e-9, "uinteg.rate." + integ,
                             "energy density changes by %g, expected about -2 h eta^2 / L = %g", d, w)
        Bc = copy.deepcopy(B)
        a, b, d = copy.deepcopy(s), copy.deepcopy(s), copy.deepcopy(s)
        with Guard("uinteg.B_i"):
            a.take_step_RK4(0.02 + 0.02j, B_i=B)
            b.take_step_RK4(0.02 + 0.02j)
            d.take_step(0.02 + 0.02j, B=B)
        for k in range(s.L):
            close(a.A[k], b.A[k], "uinteg.B_i", 1e-8, sc, "RK4 step with and without a given tangent vector")
            close(d.A[k], A0[k] - (0.02 + 0.02j) * Bc[k], "uinteg.B", 1e-9, sc, "step along a given tangent vector")
            need(np.array_equal(B[k], Bc[k]), "uinteg.B_i.readonly", "the caller's B[%d] was modified", k)
