"""U10: excitation energies from momentum tangent vectors, and expectation
values in tangent-vector states.

Reference: the matrix elements <Phi_p(B')| H - E |Phi_p(B)> per site, summed
position by position over a window long enough for everything connected to
have decayed (Hamiltonian as a matrix product operator, no inverses), in an
orthonormal basis of right-gauge-fixed tangent vectors constructed here."""
import copy
import itertools
import numpy as np
import scipy.linalg as la
import scipy.sparse.linalg as las

from .uni_common import *
from .w_utdvp import *

import evoMPS.tdvp_uniform as tu
from evoMPS.mps_uniform import EvoMPSNoConvergence


def sym_ham(q, hs):
    """A term invariant under reversing the local basis on every site."""
    h = ref.rand_herm(ref.rng_for("symham", q, hs), [q] * hs)
    X = np.eye(q)[::-1]
    U = X
    for i in range(hs - 1):
        U = np.kron(U, X)
    return (h + U.dot(h).dot(U)) / 2


def exc_ham(name, q, hs):
    if name == "sym":
        k = ("uham", "sym", q, hs)
        if k not in OPS:
            OPS[k] = sym_ham(q, hs)
    if name == "symtp":
        k = ("uham", "symtp", q, hs)
        if k not in OPS:
            OPS[k] = sym_ham(q, hs)
    return uham(name, q, hs)


def set_exc_ham(s, name, hs):
    h = exc_ham(name, s.q, hs)
    s.set_ham(uham_arg(name, s.q, hs), ham_sites=hs)
    s.ham_tp = opsvd(h, s.q) if name in ("tp", "symtp") else None


def ham_mpo(h, q, hs, e):
    """W[a, b, s, t] (operator <s|.|t>): 0 before, last after the term h - e."""
    def split(m, left):
        # m: (left dim, q, q, rest)
        a, rest = m.shape[0], m.shape[3]
        u, sv, v = la.svd(m.reshape(a * q * q, rest), full_matrices=False)
        k = max(1, int(np.sum(sv > 1e-14 * max(sv[0], 1e-300))))
        return (u[:, :k] * sv[:k]).reshape(a, q, q, k), v[:k]
    h = (h - e * np.eye(q ** hs)).reshape([q] * (2 * hs))
    perm = []
    for i in range(hs):
        perm += [i, hs + i]
    m = h.transpose(perm).reshape(1, -1)
    fac = []
    for i in range(hs - 1):
        m = m.reshape(m.shape[0], q, q, -1)
        f, m = split(m, i)
        fac.append(f)
    fac.append(m.reshape(m.shape[0], q, q, 1))
    dims = [f.shape[3] for f in fac[:-1]]
    w = 2 + sum(dims)
    W = np.zeros((w, w, q, q), dtype=complex)
    W[0, 0] = W[-1, -1] = np.eye(q)
    off = [0]
    o = 1
    for d in dims:
        off.append(o)
        o += d
    off.append(w - 1)
    for i, f in enumerate(fac):
        a, b = f.shape[0], f.shape[3]
        W[off[i]:off[i] + a, off[i + 1]:off[i + 1] + b] += f.transpose(0, 3, 1, 2)
    return W


def tmat(W, A, B):
    """Transfer matrix on (mpo, ket, bra) with ket A and bra B."""
    M = np.einsum('wvst,tab,scd->wacvbd', W, A, B.conj(), optimize=True)
    n = W.shape[0] * A.shape[1] * B.shape[1]
    return M.reshape(n, -1)


def tangent_basis(A2, l, r):
    """Orthonormal B_i with sum_s B_i^s r A2^s+ = 0."""
    q, D = A2.shape[:2]
    dim = q * D * D
    ls, lsi = msqrt_(l)
    rs, rsi = msqrt_(r)
    # B = lsi Y rsi;  condition: sum_s Y_s (rs A2_s^+) = 0
    V = np.concatenate([rs.dot(A2[s].conj().T) for s in range(q)], axis=0)   # (qD, D)
    N = la.null_space(V.T).T                # rows n with n V = 0
    out = []
    for a in range(D):
        for n in N:
            Y = np.zeros((q, D, D), dtype=complex)
            Y[:, a, :] = n.reshape(q, D)
            out.append(np.einsum('ab,sbc,cd->sad', lsi, Y, rsi))
    return out


def msqrt_(x):
    w, v = la.eigh((x + x.conj().T) / 2)
    w = np.clip(w, 1e-300, None)
    return (v * np.sqrt(w)).dot(v.conj().T), (v / np.sqrt(w)).dot(v.conj().T)


def effective_H(A1, A2, l, r, h, hs, e, p, Bs, N):
    """<Phi(B_i)|H - E|Phi(B_j)> per site; left half A1, right half A2."""
    q, D = A1.shape[:2]
    W = ham_mpo(h, q, hs, e)
    w = W.shape[0]
    nB = len(Bs)
    R0 = np.zeros((w, D, D), dtype=complex)
    R0[-1] = r
    R0 = R0.ravel()
    # r as a map: sum A r A^+  ->  vec index (ket, bra) = r[ket, bra]
    L0 = np.zeros((w, D, D), dtype=complex)
    L0[0] = l.T                      # index (ket, bra): tr(l r) = sum l[bra, ket] r[ket, bra]
    L0 = L0.ravel()
    M22, M12 = tmat(W, A2, A2), tmat(W, A1, A2)
    M11, M21 = tmat(W, A1, A1), tmat(W, A2, A1)
    MB2 = [tmat(W, B, A2) for B in Bs]
    MB1 = [tmat(W, B, A1) for B in Bs]
    R1 = np.zeros((nB, len(R0)), dtype=complex)
    for n in range(N, 0, -1):
        ph = np.exp(1j * p * n)
        R1 = R1.dot(M12.T)
        for i in range(nB):
            R1[i] += ph * MB2[i].dot(R0)
        R0 = M22.dot(R0)
    L1 = np.zeros((nB, len(L0)), dtype=complex)
    for n in range(-N, 0):
        ph = np.exp(1j * p * n)
        L1 = L1.dot(M21)
        for i in range(nB):
            L1[i] += ph * L0.dot(MB1[i])
        L0 = L0.dot(M11)
    H = np.zeros((nB, nB), dtype=complex)
    for i in range(nB):
        C1, C2 = tmat(W, A1, Bs[i]), tmat(W, A2, Bs[i])
        a = L0.dot(C1)
        b = C2.dot(R0)
        for j in range(nB):
            H[i, j] = a.dot(R1[j]) + L1[j].dot(b) + L0.dot(tmat(W, Bs[j], Bs[i])).dot(R0)
    return H


def decay(A1, A2):
    """Modulus of the leading mixed eigenvalue."""
    return np.max(np.abs(la.eigvals(uref.mixed_E(A1, A2))))


def env_lr(A):
    inf = uref.Inf([A])
    need(abs(decay(A, A) - 1) < 1e-7, "exc.norm", "state not normalised")
    return inf.l[0], inf.r[0], inf


class ExcWorld(World):
    name = "uni.excite"
    depth = 1

    def configs(self, tier):
        P4 = (0., np.pi, 0.7, -2.1)
        if tier == "quick":
            for c in ucfgs(qs=(2, 3), Ds=(1, 2, 3), Ls=(1,), kinds=("rand", "gauge")):
                for hs in (2, 3):
                    if c["q"] == 3 and c["D"] == 3 and (c["kind"] == "gauge" or hs == 3):
                        continue
                    for ham in ("herm", "sym"):
                        yield dict(c, hs=hs, ham=ham, ps=P4)
            for c in ucfgs(qs=(2, 3), Ds=(1, 2), Ls=(1,)):
                for hs, ham in ((2, "call"), (3, "call"), (2, "tp"), (2, "symtp"), (2, "real")):
                    yield dict(c, hs=hs, ham=ham, ps=P4)
        else:
            P = (0., np.pi, 0.7, -2.1, np.pi / 2, 3.0)
            for c in ucfgs(qs=(2, 3), Ds=(1, 2, 3), Ls=(1,), kinds=("rand", "gauge", "near", "real")):
                for hs in (2, 3):
                    for ham in ("herm", "sym", "real"):
                        yield dict(c, hs=hs, ham=ham, ps=P, depth=2 if c["D"] <= 2 and ham == "herm" else 1)
            for c in ucfgs(qs=(2, 3), Ds=(1, 2, 3), Ls=(1,), kinds=("rand", "gauge")):
                for hs, ham in ((2, "call"), (3, "call"), (2, "tp"), (2, "symtp")):
                    yield dict(c, hs=hs, ham=ham, ps=P)
            for c in ucfgs(qs=(2,), Ds=(4, 5), Ls=(1,)):
                yield dict(c, hs=2, ham="sym", ps=P)

    def depth_for(self, cfg, tier):
        return cfg.get("depth", 1)

    def init(self, cfg):
        exc_ham(cfg["ham"], cfg["q"], cfg["hs"])
        s, A = new_tdvp(cfg)
        set_exc_ham(s, cfg["ham"], cfg["hs"])
        st = UState(s, A)
        st.cfg = cfg
        seed_for("ex", cfg["q"], cfg["D"], cfg["kind"])
        st.h, st.hs, st.hname = exc_ham(cfg["ham"], cfg["q"], cfg["hs"]), cfg["hs"], cfg["ham"]
        self.usable(st)
        with Guard("exc.update"):
            s.update()
        return st

    def usable(self, st):
        inf = st.inf()
        if inf.gap() < 0.1:
            raise Disabled()
        if st.s.D > 1 and np.append(inf.schmidt_sq(0), np.zeros(st.s.D))[:st.s.D][-1] < 1e-5:
            raise Disabled()

    def key(self, st):
        return canon(st.hname, bool(st.s.symm_gauge), *utens(st.s))

    def actions(self, st):
        return [("call",), ("gauge",), ("euler", 0.04), ("ham", "herm2"), ("toggle",), ("lcf",)]

    def step(self, st, act):
        s, k = st.s, act[0]
        sig = "exc." + k
        if k == "call":
            # excitation calculations must not disturb the next one
            with Guard(sig):
                s.excite_top_triv_brute(0.3)
        elif k == "gauge":
            gauge_u(s, "x", 0.5)
            with Guard(sig):
                s.update(restore_CF=False)
        elif k == "euler":
            with Guard(sig):
                B = s.calc_B()
                st.m = [np.asarray(a) - act[1] * b for a, b in zip(s.A, B)]
                s.take_step(act[1], B=B)
            self.usable(st)
            with Guard(sig):
                s.update()
        elif k == "ham":
            st.hname, st.h = act[1], uham(act[1], s.q, st.hs)
            with Guard(sig):
                set_uham(s, act[1], st.hs)
                s.update(restore_CF=False)
        elif k == "toggle":
            s.symm_gauge = not s.symm_gauge
            with Guard(sig):
                s.update()
        elif k == "lcf":
            with Guard(sig):
                s.restore_LCF()
                s.update(restore_CF=False)
        return st

    # ------------------------------------------------------------------
    def compare(self, st, s1, s2, p, res, H, sig, phys=True):
        """res = (energies, vectors) of the ansatz with s1 left, s2 right."""
        A1, A2 = np.array(s1.A[0]), np.array(s2.A[0])
        l, _, i1 = env_lr(A1)
        _, r, i2 = env_lr(A2)
        e = i1.expect(st.h, 0, st.hs).real
        rho = max(1 - i1.gap(), 1 - i2.gap())
        if s1 is not s2:
            d = decay(A1, A2)
            if d < 1 - 1e-9:
                rho = max(rho, d)
        N = int(np.ceil(np.log(1e-11) / np.log(max(rho, 1e-3)))) + 4
        Bs = tangent_basis(A2, l, r)
        Hr = effective_H(A1, A2, l, r, st.h, st.hs, e, p, Bs, N)
        sc = max(1., np.max(np.abs(Hr)))
        # sanity of the reference itself
        close(Hr, Hr.conj().T, "ref.hermitian", 1e-8, sc, "reference effective Hamiltonian")
        w = la.eigvalsh((Hr + Hr.conj().T) / 2)
        ev, vec = res
        if H is not None:
            close(H, np.conj(H).T, sig + ".herm", 1e-7, sc, "effective Hamiltonian at p = %.3f not Hermitian:" % p)
        if len(ev) == len(w):
            close(np.sort(ev), w, sig + ".energies", 1e-7, sc, "excitation energies at p = %.3f" % p)
        else:
            sel = np.sort(w[np.argsort(np.abs(w))[:len(ev)]])
            a = np.sort(np.abs(w))
            if a[len(ev)] - a[len(ev) - 1] > 1e-6:
                close(np.sort(ev), sel, sig + ".energies", 1e-7, sc, "lowest excitation energies at p = %.3f" % p)
        if vec is None:
            return w
        # the vectors describe tangent vectors with these energies
        D, q = s1.D, s1.q
        with Guard(sig + ".vec"):
            XB = [np.array(s2.get_B_from_x(np.ascontiguousarray(vec[:, i].reshape(D, (q - 1) * D)), s2.Vsh[0],
                                           s1.l_sqrt_i[0], s2.r_sqrt_i[0])) for i in range(vec.shape[1])]
        G = np.array([[sum(np.trace(l.dot(b[t]).dot(r).dot(a[t].conj().T)) for t in range(q)) for b in XB] for a in XB])
        # the relative scale of the two halves is a convention if they differ
        f = G[0, 0].real
        need(f > 0 and (s1 is not s2 or abs(f - 1) < 1e-7), sig + ".ortho", "norm %g of a returned tangent vector", f)
        close(G / f, np.eye(len(XB)), sig + ".ortho", 1e-7, 1., "Gram matrix of the returned tangent vectors")
        O = np.array([[sum(np.trace(l.dot(b[t]).dot(r).dot(a[t].conj().T)) for t in range(q)) for b in XB] for a in Bs])
        close(O.conj().T.dot(Hr).dot(O) / f, np.diag(ev), sig + ".vectors", 1e-6, sc,
              "matrix elements between the returned vectors at p = %.3f" % p)
        return w

    def check(self, st):
        s, q, D = st.s, st.s.q, st.s.D
        ps = st.cfg["ps"]
        dim = (q - 1) * D * D
        for p in ps:
            with Guard("exc.triv"):
                res, H = s.excite_top_triv_brute(p, return_eigenvectors=True, return_H=True)
            self.compare(st, s, s, p, res, H, "exc.triv")
        # default return value and the other sign of the momentum
        with Guard("exc.triv"):
            e1 = s.excite_top_triv_brute(ps[-1])
        close(e1, res[0], "exc.triv.energies", 1e-8, None, "energies without eigenvectors")
        if dim > 3:
            p = 0.7
            nev = min(3, dim - 2)
            with Guard("exc.eigsh"):
                a = s.excite_top_triv(p, nev=nev, ncv=dim)
                b = s.excite_top_triv(p, nev=nev, ncv=dim, return_eigenvectors=True)
            self.compare(st, s, s, p, (a, None), None, "exc.eigsh")
            self.compare(st, s, s, p, b, None, "exc.eigsh")
        same_state(s, st.inf(), "exc.state", what="state after excitations")
        self.nontriv(st)

    def nontriv(self, st):
        s, q, D = st.s, st.s.q, st.s.D
        dim = (q - 1) * D * D
        # a gauge-equivalent donor with another phase: same energies
        s1 = copy.deepcopy(s)
        d = copy.deepcopy(s)
        gauge_u(d, "donor", 0.4)
        d.A[0] = d.A[0] * np.exp(0.6j)
        with Guard("exc.donor"):
            d.update(restore_CF=False)
        for p in (0.4, np.pi):
            with Guard("exc.same"):
                res, H = s1.excite_top_nontriv_brute(d, p, return_eigenvectors=True, force_pseudo=True, return_H=True)
                a = s1.excite_top_triv_brute(p)
            self.compare(st, s1, d, p, res, H, "exc.same")
            close(res[0], a, "exc.same.energies", 1e-7, None, "gauge-equivalent donor at p = %.2f" % p)
        same_state(s1, st.inf(), "exc.state", what="state after excitations")
        if not st.hname.startswith("sym"):
            return
        s1 = copy.deepcopy(s)
        d = copy.deepcopy(s)
        d.A[0] = np.ascontiguousarray(np.asarray(d.A[0])[::-1])
        with Guard("exc.donor"):
            d.update()
        if decay(np.array(s1.A[0]), np.array(d.A[0])) > 0.93:
            return
        dt = [np.array(a) for a in d.A]
        for al in (True, False):
            for p in (0.7, np.pi):
                with Guard("exc.kink"):
                    res, H = s1.excite_top_nontriv_brute(d, p, return_eigenvectors=True, return_H=True, phase_align=al)
                self.compare(st, s1, d, p, res, H, "exc.kink")
        if dim > 3:
            with Guard("exc.kink_eigsh"):
                b = s1.excite_top_nontriv(d, 0.7, nev=2, ncv=dim, return_eigenvectors=True)
            self.compare(st, s1, d, 0.7, b, None, "exc.kink_eigsh")
        same_state(s1, st.inf(), "exc.state", what="state after excitations")
        same_state(d, uref.Inf(dt), "exc.state", what="donor after excitations")


class TangentExpWorld(World):
    """U10: expectation values in states with a tangent vector at one site."""
    name = "uni.tangent_expect"
    depth = 0

    def configs(self, tier):
        for c in ucfgs(qs=(2, 3), Ds=(1, 2, 3), Ls=(1,), kinds=("rand", "gauge")):
            for d in ((1, 2) if c["q"] == 2 else (1,)):
                yield dict(c, d=d)
        if tier != "quick":
            for c in ucfgs(qs=(2,), Ds=(1, 2, 3, 4), Ls=(1,), kinds=("rand", "gauge", "near")):
                for d in (1, 2, 3, 4):
                    yield dict(c, d=d)

    def init(self, cfg):
        s, A = new_tdvp(dict(cfg, ham="herm", hs=2))
        st = UState(s, A)
        st.cfg = cfg
        if st.inf().gap() < 0.05:
            raise Disabled()
        with Guard("tex.update"):
            s.update()
        return st

    def key(self, st):
        return canon(*utens(st.s))

    def actions(self, st):
        return []

    def window(self, st, nb, d, B, s2):
        """Reduced (unnormalised) density matrix of sites 1..2d+1, <i|rho|j>."""
        s = st.s
        A, A2 = np.array(s.A[0]), np.array((s2 or s).A[0])
        l = uref.Inf([A]).l[0]
        r = uref.Inf([A2]).r[0]
        As = ([A] * nb + [B] + [A2] * (2 * d + 1 - nb))[1:]
        W = ref.dense_open(As)
        D, q = A.shape[1], A.shape[0]
        W = W.reshape(D, q ** (2 * d + 1), D)
        return np.einsum('da,asb,bc,dtc->st', l, W, r, W.conj())

    def check(self, st):
        s, q, D, d = st.s, st.s.q, st.s.D, st.cfg["d"]
        n = 2 * d + 1
        rng = ref.rng_for("tex", q, D)
        dn = copy.deepcopy(s)
        dn.A[0] = np.ascontiguousarray(np.asarray(dn.A[0])[::-1])
        with Guard("tex.update"):
            dn.update()
        tests = [ref.cgauss(rng, (q, D, D))]
        with Guard("tex.calc_B"):
            tests.append(np.array(s.calc_B()[0]))
        for B in tests:
            for s2 in (None, dn):
                for nb in [None] + list(range(1, n + 1)):
                    nbv = d + 1 if nb is None else nb
                    rho = self.window(st, nbv, d, B, s2)
                    sc = max(1e-3, np.trace(rho).real)
                    qs = [q] * n

                    def ex(op, site, m=1):
                        return np.trace(rho.dot(ref.embed(op, list(range(site, site + m)), qs)))
                    for oname in ("gen", "herm"):
                        o1, o2 = ref.cgauss(rng, (q, q)), ref.cgauss(rng, (q, q))
                        if oname == "herm":
                            o1, o2 = o1 + o1.conj().T, o2 + o2.conj().T
                        with Guard("tex.1s"):
                            a = s.expect_tangent_1s(B, o1, d, nb=nb, s2=s2)
                        close(a, [ex(o1, i) for i in range(n)], "tex.1s", 1e-8, sc * 10, "one-site expectation values")
                        with Guard("tex.corr"):
                            c, g = s.correlation_tangent_1s_1s(B, o1, o2, d, nb=nb, s2=s2)
                        want = [np.trace(rho.dot(ref.embed(o1, [0], qs)).dot(ref.embed(o2, [i], qs))) for i in range(n)]
                        close(g, want, "tex.corr", 1e-8, sc * 30, "correlations")
                        conn = [w - ex(o1, 0) * ex(o2, i) for i, w in enumerate(want)]
                        close(c, conn, "tex.conn", 1e-8, sc * 30, "connected correlations")
                    if nb is None and s2 is None:
                        o = ref.rand_herm(ref.rng_for("tex2", q), [q, q])
                        with Guard("tex.2s"):
                            a = s.expect_tangent_2s(B, o.reshape([q] * 4), d)
                        close(a, [ex(o, i, 2) for i in range(2 * d)], "tex.2s", 1e-8, sc * 10, "two-site expectation values")


class RetryWorld(World):
    """U10: every pattern of eigensolver failures."""
    name = "uni.excite_faults"
    depth = 0

    def configs(self, tier):
        for mr in (1, 2, 3, 4) if tier != "quick" else (1, 2, 3):
            for pat in itertools.product((0, 1), repeat=mr):
                for which in ("triv", "nontriv"):
                    yield dict(q=2, D=2, L=1, kind="rand", symm=True, ham="sym", hs=2, pat=list(pat), which=which)

    def init(self, cfg):
        exc_ham("sym", 2, 2)
        s, A = new_tdvp(cfg)
        st = UState(s, A)
        st.cfg = cfg
        with Guard("exf.update"):
            s.update()
        return st

    def key(self, st):
        return canon(str(st.cfg))

    def actions(self, st):
        return []

    def check(self, st):
        s, pat = st.s, st.cfg["pat"]
        d = copy.deepcopy(s)
        d.A[0] = np.ascontiguousarray(np.asarray(d.A[0])[::-1])
        with Guard("exf.update"):
            d.update()
        if st.cfg["which"] == "triv":
            call = lambda **kw: s.excite_top_triv(0.7, nev=2, ncv=4, **kw)
            with Guard("exf.brute"):
                w = s.excite_top_triv_brute(0.7)
        else:
            call = lambda **kw: s.excite_top_nontriv(d, 0.7, nev=2, ncv=4, **kw)
            with Guard("exf.brute"):
                w = s.excite_top_nontriv_brute(d, 0.7)
        want = np.sort(w[np.argsort(np.abs(w))[:2]])
        real = las.eigsh
        calls = []

        def faulty(A, *a, **kw):
            i = len(calls)
            calls.append(i)
            if i >= len(pat) or pat[i]:
                raise las.ArpackNoConvergence("injected", np.zeros(0), np.zeros((4, 0)))
            kw["ncv"] = 4              # a retry may ask for more vectors than this small space has
            return real(A, *a, **kw)
        tl = tu.las
        las.eigsh = faulty
        try:
            got = call(max_retries=len(pat))
        except EvoMPSNoConvergence:
            got = None
        except Exception as e:
            raise Violation("exf.raise", "failures %s: %s: %s" % (pat, type(e).__name__, e))
        finally:
            las.eigsh = real
        if all(pat):
            need(got is None, "exf.silent", "every attempt failed but a result was returned")
        else:
            need(got is not None, "exf.lost", "attempt %d succeeded but EvoMPSNoConvergence was raised (failures %s)", pat.index(0), pat)
            close(np.sort(got), want, "exf.energies", 1e-7, None, "energies after failures %s" % pat)
