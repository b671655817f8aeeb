"""Finite-chain TDVP worlds: tangent-space projection, two-site errors and
expansion, integrators, conjugate gradients."""
import copy
import itertools
import numpy as np
import scipy.linalg as la

from . import env, ref
from .explore import (attributes, unchanged, World, Violation, Disabled, Guard, need, close, canon,
                      seed_for)
from .gen_common import *
from .w_gen import GenState, random_gauge

import evoMPS.tdvp_gen as tg


def ham_terms(name, q, hs):
    """[None, h_1, ..., h_{N-hs+1}] as matrices (None: no term)."""
    N = len(q)
    k = ("ham", name, tuple(q), hs)
    if k in OPS:
        return OPS[k]
    out = [None]
    for n in range(1, N - hs + 2):
        qs = q[n - 1:n - 1 + hs]
        rng = ref.rng_for("ham", n, tuple(qs))
        h = ref.rand_herm(rng, qs)
        if name == "real":
            h = h.real
        if name == "one" and n != (N - hs + 2) // 2:
            h = None
        if name == "odd" and n % 2 == 1:
            h = None
        if name == "even" and n % 2 == 0:
            h = None
        if name == "local":
            # single-site fields only
            h = 0
            for i in range(hs):
                h = h + ref.embed(ref.rand_herm(ref.rng_for("loc", n + i), [qs[i]]), [i], qs)
        out.append(h)
    OPS[k] = out
    return out


def ham_arg(terms, q, hs, enc):
    if enc == "callable":
        def f(n, *idx):
            if terms[n] is None:
                return 0.
            t = terms[n].reshape(q[n - 1:n - 1 + hs] * 2)
            return t[tuple(int(i) for i in idx)]
        return f
    out = [None]
    for n in range(1, len(terms)):
        out.append(None if terms[n] is None else terms[n].reshape(q[n - 1:n - 1 + hs] * 2))
    return out


class TState(GenState):
    pass


def tdvp_cfgs(Ns, hss=(2, 3), kinds=("rand", "gauge", "low"), hams=("herm",), gauges=("right", "left"),
              forms=("right", "left"), qalpha=(2, 3), Dmax=3, enc=("array",), qfilter=None, Dfilter=None):
    for N in Ns:
        for q in itertools.product(qalpha, repeat=N):
            if qfilter and not qfilter(q):
                continue
            for D in d_profiles(q, Dmax):
                if Dfilter and not Dfilter(D):
                    continue
                for hs in hss:
                    for kind in kinds:
                        if kind == "low" and max(D) == 1:
                            continue
                        for h in hams:
                            for g in gauges:
                                for f in forms:
                                    for e in enc:
                                        yield dict(q=list(q), D=D, kind=kind, form=f, gauge=g,
                                                   hs=hs, ham=h, enc=e)


def make_tdvp(cfg):
    q, hs = cfg["q"], cfg["hs"]
    terms = ham_terms(cfg["ham"], q, hs)
    s = make_mps(cfg, cls=tg.EvoMPS_TDVP_Generic, ham=ham_arg(terms, q, hs, cfg["enc"]), hs=hs)
    s.canonical_form = cfg["form"]
    s.gauge_fixing = cfg["gauge"]
    return s, terms


def restricted(B, s):
    return [None if B[n] is None else np.asarray(B[n]) for n in range(1, s.N + 1)]


class TdvpWorld(World):
    """F06: the tangent vector after every history of representation changes
    and steps."""
    name = "tdvp.proj"
    depth = 1
    twosite = False

    def configs(self, tier):
        if tier == "quick":
            for c in tdvp_cfgs([1, 2, 3], kinds=("rand",), forms=("right",)):
                yield c
            for c in tdvp_cfgs([2, 3], kinds=("gauge", "low"), Dmax=2):
                yield c
            for c in tdvp_cfgs([3, 4], kinds=("rand",), hams=("odd", "even", "one"), forms=("right",), qalpha=(2,), Dmax=2):
                yield c
            for c in tdvp_cfgs([3], kinds=("rand",), hams=("herm", "odd"), forms=("right",), enc=("callable",), qalpha=(2, 3), Dmax=2):
                yield c
            for c in tdvp_cfgs([4], kinds=("gauge",), Dmax=4, qfilter=lambda q: q in ((2, 2, 2, 2), (2, 3, 2, 3))):
                yield c
            for c in tdvp_cfgs([5], kinds=("rand",), Dmax=2, forms=("right",), qalpha=(2,)):
                yield c
        else:
            for c in tdvp_cfgs([1, 2, 3], kinds=("rand", "gauge", "low")):
                yield dict(c, depth=2)
            for c in tdvp_cfgs([4], kinds=("rand", "gauge"), Dmax=3):
                yield c
            for c in tdvp_cfgs([3, 4], kinds=("rand",), hams=("odd", "even", "one", "local", "real")):
                yield c
            for c in tdvp_cfgs([3, 4], kinds=("rand",), hams=("herm", "odd"), enc=("callable",), Dmax=2):
                yield c
            for c in tdvp_cfgs([5, 6], kinds=("gauge",), Dmax=3, qalpha=(2,), Dfilter=lambda D: max(D) > 1):
                yield c

    def depth_for(self, cfg, tier):
        if "depth" in cfg:
            return cfg["depth"]
        return 2 if len(cfg["q"]) <= 3 and max(cfg["q"]) == 2 or tier != "quick" else 1

    def init(self, cfg):
        s, terms = make_tdvp(cfg)
        st = TState(s, vec(s))
        st.cfg = cfg
        st.H = ref.ham_dense(terms, cfg["hs"], cfg["q"])
        st.terms = terms
        st.enc = cfg["enc"]
        with Guard("tdvp.update"):
            s.update()
        st.psi = st.psi / la.norm(st.psi)
        close(vec(s), st.psi, "tdvp.update.state", 1e-8, 1.0)
        st.fresh = True
        st.info = "cf"
        return st

    def key(self, st):
        s = st.s
        return canon(st.fresh, st.info, s.canonical_form, s.gauge_fixing, st.enc, st.H, *tensors(s))

    def actions(self, st):
        out = [("update", False), ("gauge", False), ("scale",), ("euler", 0.03), ("euler", 0.03j),
               ("rk4", 0.03), ("rk4", -0.02 - 0.03j), ("toggle",), ("flip",)]
        if st.s.N > 1:
            out.append(("trunc",))
            out.append(("dynexp", 0.02j))
        if st.s.N >= st.cfg["hs"]:
            out += [("quench", "odd", "array"), ("quench", "real", "callable")]
        return out

    def step(self, st, act):
        s = st.s
        k = act[0]
        if k == "trunc" and st.info != "cf":
            raise Disabled()                   # asks for canonical form
        st.info = "cf"
        if k in ("update", "gauge", "toggle", "flip"):
            st.psi = st.psi / la.norm(st.psi)  # update() normalises
        if k == "update":
            with Guard("tdvp.update"):
                s.update(restore_CF=act[1])
        elif k == "gauge":
            random_gauge(s, "t")
            with Guard("tdvp.update"):
                s.update(restore_CF=False)
            st.info = "raw"
        elif k == "scale":
            # stale norm: calc_B on an unnormalised, non-canonical state
            random_gauge(s, "t", 0.2)
            n = (s.N + 1) // 2
            s.A[n] = s.A[n] * 1.2
            with Guard("tdvp.update"):
                s.update(restore_CF=False, normalize=False)
            st.info = "unnorm"
            st.psi = st.psi * 1.2
        elif k == "quench":
            # another Hamiltonian, possibly with missing terms or in another encoding
            st.terms = ham_terms(act[1], st.cfg["q"], st.cfg["hs"])
            st.enc = act[2]
            st.H = ref.ham_dense(st.terms, st.cfg["hs"], st.cfg["q"])
            s.ham = ham_arg(st.terms, st.cfg["q"], st.cfg["hs"], st.enc)
            with Guard("tdvp.quench"):
                s.update()
            st.psi = st.psi / la.norm(st.psi)
        elif k == "toggle":
            s.gauge_fixing = "left" if s.gauge_fixing == "right" else "right"
            with Guard("tdvp.toggle"):
                s.update()
        elif k == "flip":
            s.canonical_form = "left" if s.canonical_form == "right" else "right"
            with Guard("tdvp.flip"):
                s.update()
        elif k == "trunc":
            D = np.array(s.D)
            if D.max() == 1:
                raise Disabled()
            n = int(np.argmax(D))
            D[n] -= 1
            q = s.q
            if not all(D[n] <= D[n - 1] * q[n] and D[n - 1] <= D[n] * q[n] for n in range(1, s.N + 1)):
                raise Disabled()
            with Guard("tdvp.trunc"):
                s.truncate(D)
            st.psi = vec(s)
        else:
            if not self.conditioned(st):
                raise Disabled()
            with Guard("tdvp." + k):
                if k == "euler":
                    s.take_step(act[1])
                elif k == "rk4":
                    s.take_step_RK4(act[1])
                elif k == "dynexp":
                    s.take_step(act[1], dynexp=True, dD_max=1)
                s.update()
            st.psi = vec(s)
        return st

    def conditioned(self, st, lo=1e-4):
        for n in range(1, st.s.N):
            lam = ref.schmidt_sq(st.psi, n)[:st.s.D[n]]
            if lam[-1] < lo:
                return False
        return True

    def exact_rank_ok(self, st):
        """Either full rank, or rank-deficient with the deficient side
        invertible by the gauge choice (canonical form on the same side)."""
        s = st.s
        full = True
        for n in range(1, s.N):
            lam = ref.schmidt_sq(st.psi, n)
            lam = np.concatenate([lam, np.zeros(int(s.D[n]))])[:s.D[n]]
            if lam[-1] < 1e-20:
                full = False
            elif lam[-1] < 1e-5:
                return None
        if full:
            return True
        # Canonical form on the side of the gauge: the deficient environments
        # only multiply null directions.
        return True if st.info == "cf" and s.canonical_form == s.gauge_fixing else None

    def check(self, st):
        s = st.s
        psi = st.psi
        got = vec(s)
        nrm = la.norm(psi)
        close(got, psi, "tdvp.state", 1e-8, nrm, "state vector")
        N = s.N
        hs = st.cfg["hs"]
        # energies
        v = psi.ravel()
        e = np.vdot(v, st.H.dot(v)) / nrm ** 2
        if st.info != "unnorm":
            close(s.H_expect, e, "tdvp.H_expect", 1e-8, max(1, abs(e)), "total energy")
            close(s.H_expect.imag, 0., "tdvp.H_expect.real", 1e-8)
            for n in range(1, N - hs + 2):
                w = 0. if st.terms[n] is None else ref.expect(psi, st.terms[n], list(range(n - 1, n - 1 + hs)))
                idx = n
                close(s.h_expect[idx], w, "tdvp.h_expect", 1e-8, 1.0, "energy of term %d" % n)
                if st.terms[n] is not None and st.enc == "array":
                    op = s.ham[n]
                    # the same object measured where it is not the term of the Hamiltonian
                    for j in range(1, N - hs + 2):
                        if j != n and st.cfg["q"][j - 1:j - 1 + hs] == st.cfg["q"][n - 1:n - 1 + hs]:
                            with Guard("tdvp.expect_ham"):
                                x = (s.expect_2s if hs == 2 else s.expect_3s)(op, j)
                            close(x, ref.expect(psi, st.terms[n], list(range(j - 1, j - 1 + hs))), "tdvp.expect_ham", 1e-8, 1.0, "term %d measured at site %d" % (n, j))
                    with Guard("tdvp.expect_ham"):
                        x = (s.expect_2s if hs == 2 else s.expect_3s)(op, n)
                        y = (s.expect_2s if hs == 2 else s.expect_3s)(op.copy(), n)
                    close(x, w, "tdvp.expect_ham", 1e-8, 1.0, "measured energy of term %d" % n)
                    close(y, w, "tdvp.expect_ham", 1e-8, 1.0, "measured energy of term %d" % n)
        # operators other than the Hamiltonian's
        for k in (2, 3):
            if k <= N and st.info != "unnorm":
                n = N - k + 1
                op = opk("g", st.cfg["q"][n - 1:n - 1 + k])
                with Guard("tdvp.expect"):
                    x = (s.expect_2s if k == 2 else s.expect_3s)(op.reshape(st.cfg["q"][n - 1:n - 1 + k] * 2), n)
                close(x, ref.expect(psi, op, list(range(n - 1, n - 1 + k))), "tdvp.expect", 1e-8, 1.0, "expectation value of a %d-site operator" % k)
        rk = self.exact_rank_ok(st)
        A0 = [a.copy() for a in tensors(s)]
        with Guard("tdvp.calc_B"):
            B = s.calc_B()
        for n in range(1, N + 1):
            need(np.array_equal(A0[n - 1], s.A[n]), "tdvp.calc_B.readonly", "A[%d] changed", n)
        t = ref.tangent_vector(A0, restricted(B, s)).ravel()
        hv = st.H.dot(v)
        if rk is None:
            # tiny but non-zero weights: conditioning is not part of the property
            return
        T = ref.tangent_basis(A0)
        p, k = ref.projector_apply(T, hv)
        want = p - v * np.vdot(v, p) / nrm ** 2
        sc = max(1., la.norm(hv))
        close(t, want, "tdvp.projection", 1e-7, sc, "tangent vector")
        close(s.eta, la.norm(want), "tdvp.eta", 1e-7, sc, "eta")
        close(abs(np.sum(s.eta_sq)), la.norm(want) ** 2, "tdvp.eta_sq", 1e-7, sc ** 2, "sum of eta_sq")
        # per-site contributions: the norm of each site's tangent vector
        for n in range(1, N + 1):
            if B[n] is None:
                w = 0.
            else:
                w = la.norm(ref.tangent_vector(A0, [B[j] if j == n else None for j in range(1, N + 1)])) ** 2
            close(np.real(s.eta_sq[n]), w, "tdvp.eta_sq.site", 1e-7, sc ** 2, "eta_sq[%d]" % n)
            # gauge condition: no overlap with the state
        # a step is exactly A - dtau B
        c = copy.deepcopy(s)
        with Guard("tdvp.take_step"):
            c.take_step(0.07 + 0.02j, B=B)
        for n in range(1, N + 1):
            w = A0[n - 1] if B[n] is None else A0[n - 1] - (0.07 + 0.02j) * B[n]
            close(c.A[n], w, "tdvp.euler", 1e-10, max(1., la.norm(w)), "A[%d] after a step along B" % n)
        for kw in (dict(), dict(save_memory=True), dict(calc_Y_2s=True)):
            if N == 1 and kw.get("calc_Y_2s"):
                continue
            d = copy.deepcopy(s)
            with Guard("tdvp.take_step"):
                d.take_step(0.07 + 0.02j, **kw)
            close(ref.dense(tensors(d)), ref.dense(tensors(c)), "tdvp.euler.%s" % "".join(kw), 1e-8, nrm, "state after a step")


def two_site_basis(A, n):
    """Columns spanning L_{n-1} x q_n x q_{n+1} x R_{n+1} (n is 1-based)."""
    N = len(A)
    L = np.ones((1, 1), dtype=complex)
    for a in A[:n - 1]:
        L = np.tensordot(L, a, axes=([-1], [1])).reshape(-1, a.shape[2])
    R = np.ones((1, 1), dtype=complex)
    for a in reversed(A[n + 1:]):
        R = np.tensordot(a, R, axes=([2], [0])).transpose((1, 0, 2)).reshape(a.shape[1], -1)
    q1, q2 = A[n - 1].shape[0], A[n].shape[0]
    T = np.einsum('ia,bj,st,uv->isujatvb', L, R, np.eye(q1), np.eye(q2))
    return T.reshape(L.shape[0] * q1 * q2 * R.shape[1], -1)


class TwoSiteWorld(TdvpWorld):
    """F07: projection error and dynamical expansion at every bond."""
    name = "tdvp.twosite"

    def configs(self, tier):
        if tier == "quick":
            for c in tdvp_cfgs([2, 3], kinds=("rand", "low"), forms=("right",)):
                yield c
            for c in tdvp_cfgs([2, 3], kinds=("rand",), forms=("left",), Dmax=2):
                yield c
            for c in tdvp_cfgs([3, 4], kinds=("rand",), hams=("odd", "even", "one"), forms=("right",), qalpha=(2,), Dmax=2):
                yield c
            for c in tdvp_cfgs([4], kinds=("rand",), Dmax=2, forms=("right",), qfilter=lambda q: q in ((2, 2, 2, 2), (2, 3, 2, 3))):
                yield c
        else:
            for c in tdvp_cfgs([2, 3], kinds=("rand", "gauge", "low")):
                yield c
            for c in tdvp_cfgs([4], kinds=("rand", "low"), hams=("herm", "odd"), Dmax=3):
                yield c
            for c in tdvp_cfgs([3, 4], kinds=("rand",), hams=("even", "one", "real"), Dmax=2):
                yield c
            for c in tdvp_cfgs([5], kinds=("rand",), Dmax=2, qalpha=(2,)):
                yield c

    def actions(self, st):
        out = [("update", False), ("gauge", False), ("euler", 0.03j), ("trunc",), ("toggle",)]
        out.append(("dynexp", 0.02j))
        return out

    def check(self, st):
        s, psi = st.s, st.psi
        close(vec(s), psi, "bb.state", 1e-8, 1.0)
        N, hs = s.N, st.cfg["hs"]
        A = [a.copy() for a in tensors(s)]
        v = psi.ravel()
        hv = st.H.dot(v)
        sc = max(1., la.norm(hv))
        full = True
        for n in range(1, N):
            lam = ref.schmidt_sq(psi, n)
            lam = np.concatenate([lam, np.zeros(int(s.D[n]))])[:s.D[n]]
            if lam[-1] < 1e-5:
                full = False
        c = copy.deepcopy(s)
        with Guard("bb.take_step"):
            c.take_step(0., calc_Y_2s=True)
        close(vec(c), psi, "bb.zero_step", 1e-8, 1.0, "state after a vanishing step")
        q = [int(x) for x in s.q[1:]]
        for Dm in (1, 2, 3, 5, 64):
            lim = feas(q, [1] + [Dm] * (N - 1) + [1])
            w = any(int(s.D[n]) < lim[n] for n in range(N + 1))
            with Guard("bb.maxD"):
                g = s.maxD_is_less_than(Dm)
            need(bool(g) == w, "bb.maxD", "maxD_is_less_than(%d)=%s with D=%s, q=%s", Dm, g, list(s.D), q)
        if not full:
            for k in (1, 16):
                d = copy.deepcopy(s)
                with Guard("bb.dynexp"):
                    d.take_step(0.01j, dynexp=True, dD_max=k)
                    d.update(auto_truncate=True)
                close(la.norm(vec(d)), 1., "bb.dynexp.norm", 1e-8)
            return
        T = ref.tangent_basis(A)
        p1, _ = ref.projector_apply(T, hv)
        w = hv - p1
        wn, sv = {}, {}
        tot = 0.
        for n in range(1, N):
            T2 = two_site_basis(A, n)
            wn[n], _ = ref.projector_apply(T2, w)
            sv[n] = la.svdvals(wn[n].reshape(int(np.prod(q[:n])), -1))
            x = la.norm(wn[n]) ** 2
            tot += x
            close(np.real(c.etaBB_sq[n]), x, "bb.etaBB_sq", 1e-7, sc ** 2, "etaBB_sq[%d]" % n)
        close(np.real(c.etaBB) ** 2, tot, "bb.etaBB", 1e-7, sc ** 2, "etaBB^2")
        if hs == 2:
            close(tot, la.norm(w) ** 2, "harness.bb", 1e-7, sc ** 2)
        g1 = p1 - v * np.vdot(v, p1)
        D0 = [int(x) for x in s.D]
        # the documented defaults
        x, y = copy.deepcopy(s), copy.deepcopy(s)
        with Guard("bb.dynexp"):
            x.take_step(1e-3, dynexp=True)
            y.take_step(1e-3, B=None, save_memory=False, calc_Y_2s=False, dynexp=True, dD_max=16, D_max=0, sv_tol=1e-14)
        need(list(x.D) == list(y.D), "bb.dynexp.defaults", "dimensions %s with the defaults, %s with the documented values", list(x.D), list(y.D))
        close(vec(x), vec(y), "bb.dynexp.defaults", 1e-10, 1.0)
        for k, Dmax, u in ((1, 0, 1), (2, 0, 1j), (16, 0, np.exp(0.7j)), (16, max(D0) + 1, 1), (16, 2, 1j)):
            h = 1e-3
            f = []
            for hh in (h, h / 2, h / 4):
                d = copy.deepcopy(s)
                with Guard("bb.dynexp"):
                    d.take_step(hh * u, dynexp=True, dD_max=k, D_max=Dmax, sv_tol=1e-10)
                f.append((ref.dense(tensors(d)).ravel() - v) / (-hh * u))
                check_shapes(d, "bb.shapes")
                # the step reports the norms belonging to the state it started from
                for nm in ("eta", "etaBB"):
                    close(getattr(d, nm), getattr(c, nm), "bb.dynexp." + nm, 1e-9, sc, nm + " reported by an expanding step")
                for nm in ("eta_sq", "etaBB_sq"):
                    close(getattr(d, nm), getattr(c, nm), "bb.dynexp." + nm, 1e-9, sc ** 2, nm + " reported by an expanding step")
            g = (8 * f[2] - 6 * f[1] + f[0]) / 3
            dl = g - g1
            tol = 1e-4
            acc = 0
            for n in range(1, N):
                lim = k if Dmax == 0 else min(k, Dmax - D0[n])
                lim = max(0, lim)
                want = min(int((sv[n] > 1e-10).sum()), lim)
                amb = np.any(np.abs(np.log10(np.maximum(sv[n], 1e-300)) + 10) < 2.5)
                if not amb:
                    need(int(d.D[n]) - D0[n] == want, "bb.dynexp.D", "bond %d grew by %d, expected %d (dD_max=%d, D_max=%d)",
                         n, int(d.D[n]) - D0[n], want, k, Dmax)
                T2 = two_site_basis(A, n)
                dn, _ = ref.projector_apply(T2, dl)
                sn = la.svdvals(dn.reshape(int(np.prod(q[:n])), -1))
                need(np.all(sn[lim:] <= tol * sc), "bb.dynexp.rank", "bond %d: more than %d directions added", n, lim)
                best = np.sqrt((sv[n][lim:] ** 2).sum())
                close(la.norm(wn[n] - dn), best, "bb.dynexp.optimal", tol, sc, "remaining error at bond %d" % n)
                acc = acc + dn
            close(dl, acc, "bb.dynexp.only", tol, sc, "directions outside the two-site plane")


def feas(q, D):
    D = list(D)
    N = len(q)
    for n in range(1, N + 1):
        D[n] = min(D[n], D[n - 1] * q[n - 1])
    for n in range(N - 1, -1, -1):
        D[n] = min(D[n], D[n + 1] * q[n])
    return D


def herm_mpo(name, q):
    """A Hermitian MPO: generic W plus its adjoint, as a direct sum."""
    W = mpo(name, q)
    N = len(q)
    out = []
    for n in range(N):
        a = W[n]
        b = np.transpose(a.conj(), (0, 1, 3, 2))
        mL, mR = a.shape[:2]
        z = np.zeros((2 * mL if n > 0 else 1, 2 * mR if n < N - 1 else 1) + a.shape[2:], dtype=complex)
        z[:mL, :mR] = a
        if N == 1:
            z = z + b
        else:
            z[-mL:, -mR:] = b
        out.append(z)
    return out


class MpoWorld(TdvpWorld):
    """F06 for Hamiltonians given as matrix product operators."""
    name = "tdvp.mpo"

    def configs(self, tier):
        if tier == "quick":
            for c in tdvp_cfgs([1, 2, 3], hss=(2,), kinds=("rand",), gauges=("right",)):
                yield c
            for c in tdvp_cfgs([4], hss=(2,), kinds=("gauge",), gauges=("right",), qalpha=(2,), forms=("right",)):
                yield c
        else:
            for c in tdvp_cfgs([1, 2, 3, 4], hss=(2,), kinds=("rand", "gauge"), gauges=("right",)):
                yield c

    def actions(self, st):
        return [("update", False), ("gauge", False), ("euler", 0.03j)]

    def check(self, st):
        s, psi = st.s, st.psi
        close(vec(s), psi, "mpo.state", 1e-8, 1.0)
        if not self.exact_rank_ok(st):
            return
        q = [int(x) for x in s.q[1:]]
        A = [a.copy() for a in tensors(s)]
        v = psi.ravel()
        for nm in ("g1", "g2", "asym"):
            W = herm_mpo(nm, q)
            H = ref.mpo_dense(W)
            with Guard("mpo.calc_B_MPO"):
                B = s.calc_B_MPO([None] + W)
            hv = H.dot(v)
            sc = max(1., la.norm(hv))
            close(s.H_expect, np.vdot(v, hv), "mpo.H_expect", 1e-7, sc, "energy")
            p, _ = ref.projector_apply(ref.tangent_basis(A), hv)
            want = p - v * np.vdot(v, p)
            t = ref.tangent_vector(A, restricted(B, s)).ravel()
            close(t, want, "mpo.projection", 1e-7, sc, "tangent vector for MPO " + nm)
            close(s.eta, la.norm(want), "mpo.eta", 1e-7, sc, "eta for MPO " + nm)


class IntegWorld(TdvpWorld):
    """F08: order, conservation and descent of the explicit integrators."""
    name = "tdvp.integ"

    def configs(self, tier):
        kw = dict(kinds=("rand",), forms=("right",))
        if tier == "quick":
            for c in tdvp_cfgs([1, 2], **kw):
                yield dict(c, depth=2)
            for c in tdvp_cfgs([3], **kw):
                yield dict(c, depth=1)
            for c in tdvp_cfgs([3], Dmax=2, kinds=("gauge",), forms=("left", "right"), qalpha=(2,)):
                yield dict(c, depth=1)
            for c in tdvp_cfgs([4], Dmax=2, qalpha=(2,), hams=("herm", "odd"), gauges=("right",), **kw):
                yield dict(c, depth=1)
        else:
            for c in tdvp_cfgs([1, 2, 3], kinds=("rand", "gauge")):
                yield dict(c, depth=1)
            for c in tdvp_cfgs([4], Dmax=3, qalpha=(2,), hams=("herm", "odd", "one", "real"), **kw):
                yield dict(c, depth=1)

    def actions(self, st):
        return [("euler", 0.03j), ("rk4", 0.05), ("gauge", False), ("update", False)]

    def init(self, cfg):
        st = TdvpWorld.init(self, cfg)
        if not self.conditioned(st, 1e-2):
            raise Disabled()
        return st

    def run(self, st, integ, u, h, n=1, **kw):
        c = copy.deepcopy(st.s)
        # what a step may change: the tensors, what it reports, and (RK4) what is derived from the tensors
        leave = ("A", "eta", "eta_sq", "etaBB", "etaBB_sq")
        if integ == "rk4":
            leave += ("l", "r", "AA", "AAA", "C", "K", "K_l", "h_expect", "H_expect", "Vsh", "l_sqrt", "l_sqrt_i", "r_sqrt", "r_sqrt_i")
        with Guard("integ." + integ):
            for i in range(n):
                old = attributes(c, leave)
                if integ == "euler":
                    c.take_step(h / n * u)
                else:
                    c.take_step_RK4(h / n * u)
                unchanged(c, old, "integ.only_state." + integ)
                if i < n - 1:
                    c.update(**kw)
        nrm = la.norm(vec(c))
        with Guard("integ.update"):
            c.update()
        return c, nrm

    def check(self, st):
        s = st.s
        if not self.conditioned(st, 1e-2):
            return
        N = s.N
        D = [int(x) for x in s.D]
        v = st.psi.ravel()
        E0 = np.vdot(v, st.H.dot(v)).real
        with Guard("integ.calc_B"):
            s.calc_B()
        eta2 = float(np.real(s.eta)) ** 2
        # step size in the asymptotic regime: the flow's rate grows with the
        # inverse square root of the smallest Schmidt weight
        mn = min([1.] + [ref.schmidt_sq(st.psi, n)[D[n] - 1] for n in range(1, N)])
        h = 0.0125 * min(1., np.sqrt(mn / 0.03)) * min(1., 3. / max(1., la.norm(st.H, 2)))
        from . import flow
        for u, nm in ((1, "imaginary"), (1j, "real"), (np.exp(0.7j), "complex")):
            err = {}
            for integ, p in (("euler", 1), ("rk4", 4)):
                e, dn, dE = [], [], []
                for hh in (h, h / 2):
                    c, nrm = self.run(st, integ, u, hh)
                    if (hh, u) not in err:
                        err[hh, u] = flow.flow(st.psi, st.H, D, hh * u, 6)[0]
                    r = err[hh, u]
                    e.append(ref.phase_dist(vec(c), r))
                    dn.append(abs(nrm - 1))
                    w = vec(c).ravel()
                    dE.append(np.vdot(w, st.H.dot(w)).real - E0)
                floor = 3e-12
                need(e[1] <= floor or e[0] / e[1] >= 2 ** (p + 1) * 0.68, "integ.order." + integ,
                     "%s time: one-step errors %g (h=%g) and %g (h/2): not of order h^%d", nm, e[0], h, e[1], p + 1)
                # absolute size: C h^(p+1) with a generous constant
                need(e[0] <= 5e4 * (h ** (p + 1)) / mn ** (p / 2. ) + floor, "integ.size." + integ,
                     "%s time: one-step error %g at h=%g", nm, e[0], h)
                if nm == "real" and integ == "rk4":
                    need(abs(dE[1]) <= floor or abs(dE[0] / dE[1]) >= 2 ** (p + 1) * 0.6,
                         "integ.energy." + integ, "energy drifts by %g (h=%g) and %g (h/2)", dE[0], h, dE[1])
                    need(dn[1] <= floor or dn[0] / dn[1] >= 2 ** (p + 1) * 0.6,
                         "integ.norm." + integ, "norm drifts by %g (h=%g) and %g (h/2)", dn[0], h, dn[1])
                if nm == "imaginary":
                    need(dE[0] <= 1e-12 and dE[1] <= 1e-12, "integ.descent", "energy rises by %g / %g", dE[0], dE[1])
                    for d, hh in zip(dE, (h, h / 2)):
                        need(abs(d + 2 * hh * eta2) <= 0.5 * hh * eta2 + 1e-10, "integ.rate." + integ,
                             "energy changes by %g, expected about -2 h eta^2 = %g", d, -2 * hh * eta2)
                for kw in (dict(), dict(restore_CF=False)):
                    c, nrm = self.run(st, integ, u, h, 2, **kw)
                    e4 = ref.phase_dist(vec(c), err[h, u])
                    need(e4 <= floor or e4 <= e[0] * (2. ** -p) / 0.6, "integ.multi." + integ,
                         "two half steps have error %g, one step has %g", e4, e[0])
        # a tangent vector passed in is used and left alone
        with Guard("integ.B_i"):
            B = s.calc_B()
        Bc = copy.deepcopy(B)
        a, b = copy.deepcopy(s), copy.deepcopy(s)
        with Guard("integ.B_i"):
            a.take_step_RK4(0.05 + 0.02j, B_i=B)
            b.take_step_RK4(0.05 + 0.02j)
        close(vec(a), vec(b), "integ.B_i", 1e-9, 1.0, "RK4 step with and without a given tangent vector")
        for n in range(1, N + 1):
            need((B[n] is None) == (Bc[n] is None) and (B[n] is None or np.array_equal(B[n], Bc[n])),
                 "integ.B_i.readonly", "the caller's B[%d] was modified", n)


class CgWorld(TdvpWorld):
    """F10: conjugate-gradient steps."""
    name = "tdvp.cg"
    depth = 2

    def configs(self, tier):
        if tier == "quick":
            for c in tdvp_cfgs([2, 3], kinds=("rand",), forms=("right",), Dmax=2):
                yield dict(c, depth=2)
            for c in tdvp_cfgs([4], kinds=("rand",), forms=("right",), gauges=("right",), hams=("herm", "odd"), enc=("array", "callable"), Dmax=2, qalpha=(2,)):
                yield dict(c, depth=1)
        else:
            for c in tdvp_cfgs([2, 3], kinds=("rand", "gauge"), Dmax=3):
                yield dict(c, depth=3)
            for c in tdvp_cfgs([4], kinds=("rand",), hams=("herm", "odd"), enc=("array", "callable"), Dmax=2):
                yield dict(c, depth=2)

    def init(self, cfg):
        st = TdvpWorld.init(self, cfg)
        if not self.conditioned(st, 1e-3):
            raise Disabled()
        st.B = None
        st.eta = None
        st.relaxed = False
        return st

    def actions(self, st):
        out = [("cg", True, 0.1, 1e-6), ("brent", 0.1), ("brent", 1e-3)]
        if st.relaxed:
            out.append(("cg", True, 0.05, 10.))
        else:
            out.append(("relax",))
        if st.B is not None:
            out += [("cg", False, 0.1, 1e-6), ("cg", False, 0.02, 1e-6)]
        return out

    def energy(self, st, B, tau):
        c = [a if B[n + 1] is None else a - tau * B[n + 1] for n, a in enumerate(tensors(st.s))]
        w = ref.dense(c).ravel()
        return (np.vdot(w, st.H.dot(w)) / np.vdot(w, w)).real

    def step(self, st, act):
        s = st.s
        if act[0] == "relax":
            with Guard("cg.relax"):
                for i in range(60):
                    s.take_step_RK4(0.05)
                    s.update()
            st.psi = vec(s)
            st.B = st.eta = None
            st.relaxed = True
            if not self.conditioned(st, 1e-4):
                raise Disabled()
            return st
        before = [a.copy() for a in tensors(s)]
        E0 = s.H_expect.real
        with Guard("cg.calc_B"):
            B0 = s.calc_B()
        everything = attributes(s, ("eta", "eta_sq", "etaBB", "etaBB_sq"))
        eta0 = float(np.real(s.eta))
        B0 = copy.deepcopy(B0)
        if eta0 < 1e-4:
            raise Disabled()
        if act[0] == "brent":
            with Guard("cg.line_search"):
                tau, hmin = s.find_min_h_brent(B0, act[1])
            BCG = B0
        else:
            _, reset, dtau, thr = act
            Bp, ep = copy.deepcopy(st.B), st.eta
            with Guard("cg.calc_B_CG"):
                kw = {}
                if reset:
                    kw["reset"] = True
                if thr != 1e-6:                # the documented default
                    kw["switch_threshold_eta"] = thr
                BCG, Bg, eta, tau = s.calc_B_CG(Bp, ep, dtau, **kw)
            close(eta, eta0, "cg.eta", 1e-8, 1.0)
            beta = 0. if reset else eta0 ** 2 / ep ** 2
            alt = True
            for n in range(1, s.N + 1):
                need((Bg[n] is None) == (B0[n] is None), "cg.grad", "B[%d]", n)
                if Bg[n] is None:
                    continue
                close(Bg[n], B0[n], "cg.grad", 1e-8, max(1., la.norm(B0[n])), "gradient B[%d]" % n)
                w = B0[n] if reset else B0[n] + beta * st.B[n]
                if not np.allclose(BCG[n], w, atol=1e-7 * max(1., la.norm(w))):
                    alt = False
            if not alt:
                # the only admissible alternative is a reset to the gradient
                for n in range(1, s.N + 1):
                    if Bg[n] is not None:
                        close(BCG[n], B0[n], "cg.direction", 1e-8, max(1., la.norm(B0[n])), "search direction B[%d]" % n)
        for n in range(1, s.N + 1):
            close(s.A[n], before[n - 1], "cg.restore", 1e-12, 1.0, "A[%d] after the search" % n)
        unchanged(s, everything, "cg.restore.all")
        with Guard("cg.restore"):
            B1 = s.calc_B()
        for n in range(1, s.N + 1):
            if B1[n] is not None:
                close(B1[n], B0[n], "cg.restore.B", 1e-8, max(1., la.norm(B0[n])), "tangent vector after the search")
        close(s.H_expect, E0, "cg.restore.H", 1e-9, 1.0)
        # (a tiny negative root is what bracketing within tolerance may give)
        need(np.isreal(tau) and tau >= -1e-8, "cg.tau", "step %s", tau)
        tau = max(float(np.real(tau)), 0.)
        gradient_only = act[0] == "cg" and act[3] > 1
        E1 = self.energy(st, BCG, tau)
        need(E1 <= E0 + 1e-9, "cg.energy",
             "the proposed step raises the energy from %g to %g (tau=%g)", E0, E1, tau)
        dt0 = act[1] if act[0] == "brent" else act[2]
        # (bracketing is limited to a few expansions by design)
        if not gradient_only and self.energy(st, BCG, dt0) < E0 - 1e-6 and self.energy(st, BCG, 2.5 * dt0) > self.energy(st, BCG, dt0) + 1e-6:
            need(tau > 0 and E1 < E0, "cg.progress", "no progress although the energy drops at the initial step (eta=%g, tau=%g)", eta0, tau)
        if tau > 0 and not gradient_only:
            if act[0] == "brent":
                close(hmin, E1, "cg.h_min", 1e-8, 1.0, "reported minimum")
            dE = max(E0 - E1, 1e-12)
            for f in (0.6, 1.6):
                need(self.energy(st, BCG, f * tau) >= E1 - 0.02 * dE - 1e-10, "cg.minimum",
                     "energy at %g tau is %g, at tau=%g it is %g (start %g)", f, self.energy(st, BCG, f * tau), tau, E1, E0)
        st.B = BCG
        st.eta = eta0
        with Guard("cg.step"):
            s.take_step(tau, B=BCG)
            s.update(restore_CF=False)
        st.psi = vec(s)
        close(s.H_expect, E1, "cg.step.H", 1e-8, 1.0, "energy after the step")
        st.info = "raw"
        return st

    def key(self, st):
        return None

    def check(self, st):
        s, psi = st.s, st.psi
        v = psi.ravel()
        close(s.H_expect, np.vdot(v, st.H.dot(v)), "cg.H_expect", 1e-8, 1.0)
