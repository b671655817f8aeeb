"""Finite chains: split-step integrator, DMRG sweeps (tdvp_gen.take_step_split,
vari_opt_ss_sweep, split_step.evolve_split)."""
import contextlib
import copy
import io
import itertools
import numpy as np
import scipy.linalg as la

from . import ref
from .w_tdvp import *

import evoMPS.split_step as sps
import evoMPS.sexpmv as sexpmv


def is_unpack_error(e):
    """The known finding: take_step_split() expects five values of gexpmv()."""
    t = str(e)
    return isinstance(e, ValueError) and ("to unpack" in t or "expected length" in t)


def call_split(s, z, **kw):
    s.take_step_split(z, print_progress=False, **kw)


_adapt = []


def split(s, z, **kw):
    """take_step_split().  While the known finding stands (see known_findings.json
    and SplitCallWorld), everything else about the method is checked with a
    stand-in for gexpmv() that drops the sixth value."""
    if not _adapt:
        t = copy.deepcopy(s)
        try:
            call_split(t, 1e-3)
            _adapt.append(False)
        except Exception as e:
            if not is_unpack_error(e):
                raise
            _adapt.append(True)
    if not _adapt[0]:
        return call_split(s, z, **kw)
    real = sexpmv.gexpmv
    sexpmv.gexpmv = lambda *a, **k: real(*a, **k)[:5]
    try:
        call_split(s, z, **kw)
    finally:
        sexpmv.gexpmv = real


class Ambiguous(Exception):
    pass


class Sweeper(object):
    """Projector-splitting sweeps on a dense vector.  All bases come from
    singular value decompositions of the dense state."""

    def __init__(self, psi, D, H, q, lo=1, hi=None):
        """Sites lo..hi are swept; the others are left alone."""
        self.q, self.N, self.H = list(q), len(q), H
        self.lo, self.hi = lo, hi or len(q)
        self.D = [int(d) for d in D]
        self.psi = psi.reshape([int(np.prod(q))]).astype(complex)
        self.minsv = 1.
        self.mingap = np.inf
        self.terr = []
        self.L = [np.eye(1, dtype=complex)] + [None] * self.N
        self.R = [None] * self.N + [np.eye(1, dtype=complex)]
        for n in range(self.N - 1, 0, -1):
            P = int(np.prod(q[:n]))
            u, s, v = la.svd(self.psi.reshape(P, -1), full_matrices=False)
            d = self.D[n]
            self.minsv = min(self.minsv, s[d - 1])
            self.R[n] = v[:d].T
        for n in range(1, lo):
            self.L[n] = np.eye(int(np.prod(self.q[:n])), dtype=complex)

    def V(self, n, k):
        """Embedding of the centre with k sites starting at n (k=0: bond n-1)."""
        q = int(np.prod(self.q[n - 1:n - 1 + k])) if k else 1
        return np.kron(self.L[n - 1], np.kron(np.eye(q), self.R[n - 1 + k]))

    def local(self, n, k, c, z, dmrg=False):
        V = self.V(n, k)
        He = V.conj().T.dot(self.H.dot(V))
        if dmrg:
            w, v = la.eigh((He + He.conj().T) / 2)
            if len(w) > 1:
                self.mingap = min(self.mingap, w[1] - w[0])
                if abs(np.vdot(v[:, 0], c)) < 1e-3:
                    self.mingap = 0.      # Krylov space of c may miss it
            return v[:, 0]
        c = la.expm(-z * He).dot(c)
        return c

    def unit(self, c):
        return c / la.norm(c)

    def centre(self, n, k):
        V = self.V(n, k)
        return V.conj().T.dot(self.psi)

    def set(self, n, k, c):
        self.psi = self.V(n, k).dot(c)

    def one(self, n, z, right, dmrg=False):
        """One-site update at n, then move the centre."""
        c = self.unit(self.local(n, 1, self.centre(n, 1), z, dmrg))
        self.set(n, 1, c)
        Dl, Dr, q = self.D[n - 1], self.D[n], self.q[n - 1]
        if right and n < self.hi:
            u, s, v = la.svd(c.reshape(Dl * q, Dr), full_matrices=False)
            if len(s) < Dr:
                raise Ambiguous()
            self.minsv = min(self.minsv, s[-1])
            self.L[n] = np.kron(self.L[n - 1], np.eye(q)).dot(u)
            g = (s[:, None] * v).ravel()
            if not dmrg:
                # the bond matrix is expressed in the old right basis
                g = self.unit(self.local(n + 1, 0, g, -z))
            self.set(n + 1, 0, g)
        if not right and n > self.lo:
            u, s, v = la.svd(c.reshape(Dl, q * Dr), full_matrices=False)
            if len(s) < Dl:
                raise Ambiguous()
            self.minsv = min(self.minsv, s[-1])
            self.R[n - 1] = np.kron(np.eye(q), self.R[n]).dot(v.T)
            g = (u * s).ravel()
            if not dmrg:
                g = self.unit(self.local(n, 0, g, -z))
            self.set(n, 0, g)

    def two(self, n, z, right, D_max, min_s, dmrg=False):
        """Two-site update at n, n + 1; truncate the bond between."""
        c = self.local(n, 2, self.centre(n, 2), z, dmrg)
        q1, q2 = self.q[n - 1], self.q[n]
        u, s, v = la.svd(c.reshape(self.D[n - 1] * q1, q2 * self.D[n + 1]), full_matrices=False)
        k = min(D_max, len(s), int(sum(s >= min_s)))
        # too close to call: values next to the threshold, or equal ones cut apart
        if any(abs(s - min_s) < 0.5 * min_s) or k == 0:
            raise Ambiguous()
        if k < len(s) and s[k - 1] - s[k] < 1e-6:
            raise Ambiguous()
        self.minsv = min(self.minsv, s[k - 1])
        self.terr.append(la.norm(s[k:]))
        self.D[n] = k
        u, s, v = u[:, :k], self.unit(s[:k]), v[:k]
        L = np.kron(self.L[n - 1], np.eye(q1)).dot(u)
        R = np.kron(np.eye(q2), self.R[n + 1]).dot(v.T)
        self.psi = L.dot(np.diag(s)).dot(R.T).ravel()
        if right:
            self.L[n] = L
            if n < self.hi - 1 and not dmrg:
                self.set(n + 1, 1, self.unit(self.local(n + 1, 1, self.centre(n + 1, 1), -z)))
        else:
            self.R[n] = R
            if n > self.lo and not dmrg:
                self.set(n, 1, self.unit(self.local(n, 1, self.centre(n, 1), -z)))

    def can(self, n, D_max):
        return self.D[n] < min(D_max, self.D[n - 1] * self.q[n - 1], self.D[n + 1] * self.q[n])

    def sweep(self, z, dmrg=False, two=False, D_max=10 ** 6, min_s=0., switch=False):
        for n in range(self.lo, self.hi + 1):
            if two and n < self.hi and (self.can(n, D_max) or not switch):
                self.two(n, z / 2., True, D_max, min_s, dmrg)
                if n == self.hi - 1:
                    break
            else:
                self.one(n, z / 2., True, dmrg)
        for n in range(self.hi, self.lo - 1, -1):
            if two and n > self.lo and (self.can(n - 1, D_max) or not switch):
                self.two(n - 1, z / 2., False, D_max, min_s, dmrg)
                if n == self.lo + 1:
                    break
            else:
                self.one(n, z / 2., False, dmrg)
        return self

    def energy(self):
        return np.vdot(self.psi, self.H.dot(self.psi)).real


class SplitWorld(TdvpWorld):
    """F09."""
    name = "split"

    def configs(self, tier):
        kw = dict(forms=("right",), gauges=("right",))
        if tier == "quick":
            for c in tdvp_cfgs([1, 2], kinds=("rand",), **kw):
                yield dict(c, depth=1)
            for c in tdvp_cfgs([3], kinds=("rand",), **kw):
                yield dict(c, depth=1 if max(c["q"]) == 2 else 0)
            for c in tdvp_cfgs([3, 4], kinds=("rand",), hams=("odd", "one", "local"), qalpha=(2,), Dmax=2, **kw):
                yield dict(c, depth=0)
            for c in tdvp_cfgs([3], kinds=("rand",), hams=("herm", "odd"), enc=("callable",), qalpha=(2,), Dmax=2, **kw):
                yield dict(c, depth=0)
            for c in tdvp_cfgs([4], kinds=("gauge",), qalpha=(2,), Dmax=3, **kw):
                yield dict(c, depth=0)
            for c in tdvp_cfgs([5], kinds=("rand",), hss=(3,), hams=("even", "odd"), Dmax=2, qfilter=lambda q: q == (2, 2, 2, 2, 3), Dfilter=lambda D: list(D) in ([1, 2, 2, 2, 2, 1], [1, 1, 2, 2, 1, 1]), **kw):
                yield dict(c, depth=0)
        else:
            for c in tdvp_cfgs([1, 2, 3], kinds=("rand", "gauge"), **kw):
                yield dict(c, depth=1)
            for c in tdvp_cfgs([3, 4], kinds=("rand",), hams=("odd", "even", "one", "local", "real"), **kw):
                yield dict(c, depth=0)
            for c in tdvp_cfgs([3, 4], kinds=("rand",), hams=("herm", "odd"), enc=("callable",), qalpha=(2,), **kw):
                yield dict(c, depth=1)
            for c in tdvp_cfgs([4, 5], kinds=("gauge",), qalpha=(2,), Dmax=4, **kw):
                yield dict(c, depth=1)

    def init(self, cfg):
        st = TdvpWorld.init(self, cfg)
        if not self.conditioned(st, 1e-4):
            raise Disabled()
        return st

    def actions(self, st):
        return [("gauge", False), ("split", 0.1j), ("split", 0.07 + 0.05j), ("dmrg",), ("two", 0.05j, 2), ("flip2",)]

    def quiet(self):
        return contextlib.redirect_stdout(io.StringIO())

    def step(self, st, act):
        s = st.s
        k = act[0]
        if k == "split":
            if not self.conditioned(st):
                raise Disabled()
            with Guard("split.step"):
                split(s, act[1])
        elif k == "dmrg":
            with Guard("split.dmrg"), self.quiet():
                s.vari_opt_ss_sweep()
        elif k == "two":
            with Guard("split.two"):
                sps.evolve_split(s, s.ham if not callable(s.ham) else ham_arg(st.terms, list(s.q[1:]), s.ham_sites, "array"), s.ham_sites,
                                 act[1], 1, two_site=True, D_max=act[2], min_schmidt=1e-8, print_progress=False)
        elif k == "flip2":
            # through the other canonical form and back
            s.canonical_form = "left"
            with Guard("split.flip"):
                s.update()
                s.canonical_form = "right"
        else:
            return TdvpWorld.step(self, st, act)
        with Guard("split.update"):
            s.update()
        st.psi = vec(s)
        st.info = "cf"
        return st

    def fresh(self, st):
        c = copy.deepcopy(st.s)
        with Guard("split.update"):
            c.update()
        return c

    def after(self, st, c, sig, H, D=None):
        """Invariants of every sweep; returns the vector."""
        v = vec(c).ravel()
        need(np.all(np.isfinite(v)), sig + ".finite", "inf or nan in the state")
        close(la.norm(v), 1., sig + ".norm", 1e-8)
        for n in range(1, c.N + 1):
            need(c.A[n].shape == (c.q[n], c.D[n - 1], c.D[n]), sig + ".shape", "A[%d] has shape %s, D=%s", n, c.A[n].shape, list(c.D))
        if D is not None:
            need([int(x) for x in c.D] == D, sig + ".D", "bond dimensions %s", list(c.D))
        for n in range(2, c.N + 1):
            t = sum(a.dot(a.conj().T) for a in c.A[n])
            # rank-deficient bonds may leave a projector
            close(t.dot(t), t, sig + ".form", 1e-7, 1., "right canonical form at %d" % n)
        d = copy.deepcopy(c)
        with Guard(sig + ".update"):
            d.update()
        w = vec(d).ravel()
        need(ref.phase_dist(v, w) <= 1e-7, sig + ".update", "updating afterwards changes the state by %g", ref.phase_dist(v, w))
        return v

    def variants(self, st):
        """(name, keyword arguments of take_step_split, dense Hamiltonian)."""
        s = st.s
        q = [int(x) for x in s.q[1:]]
        out = [("local", {}, st.H), ("ncv", dict(ncv=9, tol=1e-12, norm_est=10.), st.H)]
        W = herm_mpo("g1", q)
        M = ref.mpo_dense(W)
        out.append(("mpo", dict(HMPO=[None] + W, use_local_ham=False), M))
        out.append(("both", dict(HMPO=[None] + W), M + st.H))
        return out

    def check(self, st):
        s, N = st.s, st.s.N
        q = [int(x) for x in s.q[1:]]
        D = [int(x) for x in s.D]
        hn = max(1., la.norm(st.H, 2))
        E0 = np.vdot(st.psi.ravel(), st.H.dot(st.psi.ravel())).real
        good = self.conditioned(st, 1e-6)
        sc = min(1., 3. / hn)
        for nm, kw, H in self.variants(st):
            hh = max(1., la.norm(H, 2))
            e0 = np.vdot(st.psi.ravel(), H.dot(st.psi.ravel())).real
            for z in (0.1 * sc, 0.1j * sc, -0.1j * sc, (0.05 + 0.08j) * sc):
                if not good:
                    break
                c = self.fresh(st)
                with Guard("split." + nm):
                    split(c, z, **kw)
                sig = "split." + nm
                v = self.after(st, c, sig, H, D)
                E = np.vdot(v, H.dot(v)).real
                close(np.real(c.H_expect), E, sig + ".H_expect", 1e-7, hh, "reported energy")
                S = Sweeper(st.psi, D, H, q).sweep(z)
                if S.minsv > 1e-4:
                    e = ref.phase_dist(v, S.psi)
                    need(e <= 1e-7 * max(1., 1e-3 / S.minsv), sig + ".state", "step %s: off by %g from the split-step flow (moved %g)", z, e, ref.phase_dist(st.psi.ravel(), S.psi))
                    if z.real == 0:
                        close(E, e0, sig + ".conserve", 1e-8, hh, "energy after a real-time step")
                        with Guard(sig):
                            split(c, -z, **kw)
                        e = ref.phase_dist(vec(c), st.psi)
                        need(e <= 1e-7 * max(1., 1e-3 / S.minsv), sig + ".reverse", "a step forward and one back change the state by %g", e)
            # DMRG
            c = self.fresh(st)
            sig = "split.dmrg." + nm
            with Guard(sig), self.quiet():
                if nm in ("local", "ncv"):
                    c.vari_opt_ss_sweep()
                else:
                    c.vari_opt_ss_sweep(**kw)
            v = self.after(st, c, sig, H, D)
            E = np.vdot(v, H.dot(v)).real
            close(np.real(c.H_expect), E, sig + ".H_expect", 1e-7, hh, "reported energy")
            need(E <= e0 + 1e-9 * hh, sig + ".descent", "energy rose from %.10g to %.10g", e0, E)
            need(E >= la.eigvalsh(H)[0] - 1e-9 * hh, sig + ".variational", "energy %.10g below the ground state's", E)
            if good:
                try:
                    S = Sweeper(st.psi, D, H, q).sweep(0., dmrg=True)
                except Ambiguous:
                    continue
                if S.minsv > 1e-4 and S.mingap > 1e-4:
                    e = ref.phase_dist(v, S.psi)
                    need(e <= 1e-6 * max(1., 1e-3 / S.minsv), sig + ".state", "sweep: off by %g from the sweep of local ground states", e)
        if good:
            self.general(st, q, D, hn, E0, sc)

    def general(self, st, q, D, hn, E0, sc):
        """split_step.evolve_split"""
        s, N = st.s, st.s.N
        ham = ham_arg(st.terms, q, s.ham_sites, "array")
        if any(t is None for t in st.terms[1:]):
            ham = [None] + [h if h is not None else np.zeros(q[n:n + s.ham_sites] * 2) for n, h in enumerate(ham[1:])]
        W = herm_mpo("g1", q)
        M = ref.mpo_dense(W)
        full = max(feas_max(q))
        runs = []
        for z in (0.1 * sc, 0.1j * sc, (0.05 + 0.08j) * sc, None):
            runs.append((z, 2, {}, st.H, {}))
            if N > 1:
                for D_max, switch in ((1, False), (2, False), (full, False), (max(D), True), (full, True), (None, False)):
                    runs.append((z, 2, dict(two_site=True, D_max=D_max, switch_to_1site=switch, min_schmidt=1e-7), st.H,
                                 dict(two=True, D_max=D_max or 10 ** 6, min_s=1e-7, switch=switch)))
                runs.append((z, 1, dict(two_site=True, D_max=full, min_schmidt=3e-2), st.H, dict(two=True, D_max=full, min_s=3e-2)))
        runs.append((0.1j * sc, 1, dict(HMPO=[None] + W, use_local_ham=False), M, {}))
        runs.append((0.1 * sc, 1, dict(HMPO=[None] + W), M + st.H, {}))
        runs.append((None, 1, dict(HMPO=[None] + W), M + st.H, {}))
        for z, k, kw, H, rk in runs:
            sig = "esplit." + ("two" if rk else "one") + (".dmrg" if z is None else "")
            S = Sweeper(st.psi, D, H, q)
            want = []
            amb = False
            for j in range(k):
                try:
                    S.sweep(z or 0., dmrg=z is None, **rk)
                except Ambiguous:
                    amb = True
                    break
                want.append((S.psi.copy(), list(S.D), S.minsv, S.mingap, sum(x ** 2 for x in S.terr)))
                S.terr = []
            got = []

            def cb(m, i, **info):
                got.append((i, vec(m).ravel().copy(), [int(x) for x in m.D], info, [arr(x) for x in m.r]))
            c = self.fresh(st)
            with Guard(sig):
                r = sps.evolve_split(c, ham, s.ham_sites, z or 0., k, DMRG=z is None, print_progress=False, cb_func=cb, **kw)
            need(r is c, sig + ".return", "another object was returned")
            need([g[0] for g in got] == list(range(k)), sig + ".callbacks", "callback numbers %s", [g[0] for g in got])
            v = self.after(st, c, sig, H)
            need(ref.phase_dist(v, got[-1][1]) <= 1e-10, sig + ".callbacks", "last callback does not see the final state")
            if rk:
                need(max(c.D) <= max(rk["D_max"], 1 if not rk.get("switch") else max(D)), sig + ".D_max", "bond dimensions %s with D_max=%s", list(c.D), rk["D_max"])
            if amb:
                continue
            for (i, w, Dk, info, rs), (psi, Dw, minsv, gap, terr) in zip(got, want):
                if minsv < 1e-4 or z is None and gap < 1e-4:
                    break
                need(Dk == Dw, sig + ".D", "bond dimensions %s after %d steps, expected %s", Dk, i + 1, Dw)
                e = ref.phase_dist(w, psi)
                need(e <= (1e-7 if z is not None else 1e-6) * max(1., 1e-3 / minsv), sig + ".state", "%s: state after %d steps off by %g", kw and sorted(kw.items(), key=str)[-2:], i + 1, e)
                t = sum(np.nansum(np.abs(info[x]) ** 2) for x in ("truncerr_lr", "truncerr_rl"))
                close(t, terr, sig + ".truncerr", 1e-7, 1., "squared truncation errors")


class SplitCallWorld(TdvpWorld):
    """F09: take_step_split() as a user calls it."""
    name = "split.call"

    def configs(self, tier):
        for c in tdvp_cfgs([1, 2, 3], kinds=("rand",), forms=("right",), gauges=("right",), qalpha=(2,), Dmax=2):
            yield dict(c, depth=0)

    def check(self, st):
        c = copy.deepcopy(st.s)
        try:
            with env.quiet():
                call_split(c, 0.1)
        except Exception as e:
            if is_unpack_error(e):
                raise Violation("split.call.unpack", "take_step_split() raised %s" % e)
            raise Violation("split.call", "take_step_split() raised %r" % e)


def feas_max(q):
    return flow.maxranks(q)


from . import flow
