"""TDVP on sandwich states (S03 energies and tangent vectors, S04 integrators).

Weighted with the square roots of the bulk fixed points, the window together
with its two virtual end indices is a finite chain
    (D_0) x q x ... x q x (D_N)
whose Hamiltonian is evaluated densely (both bulks summed to infinity), so the
finite-chain references (tangent projection, flow, two-site directions) apply."""
import copy
import itertools
import os
import shutil
import tempfile
import numpy as np
import scipy.linalg as la

from .w_sand import *
from .w_utdvp import uham, uham_arg
from . import uref, flow
from .w_tdvp import two_site_basis
from .w_split import Sweeper, Ambiguous

import evoMPS.tdvp_sandwich as ts
import evoMPS.tdvp_uniform as tu
import evoMPS.split_step as sps


def msqrt(x):
    w, v = la.eigh((x + x.conj().T) / 2)
    s = np.sqrt(np.clip(w, 0, None))
    return (v * s).dot(v.conj().T), (v / s).dot(v.conj().T)


def tl_(As, l, h):
    """<l| and the term h on tensors As: [bra, ket]."""
    W = ref.dense_open(As)
    W = W.reshape(W.shape[0], -1, W.shape[-1])
    return np.einsum('dsc,da,asb->cb', W.conj(), l, np.einsum('st,atb->asb', h, W))


def tr_(As, r, h):
    """The term and |r>: [ket, bra]."""
    W = ref.dense_open(As)
    W = W.reshape(W.shape[0], -1, W.shape[-1])
    return np.einsum('asb,bc,dsc->ad', np.einsum('st,atb->asb', h, W), r, W.conj())


class AncH(object):
    def __init__(self, sr, hL, hC, hR, hs):
        """hL, hR: bulk terms (matrices); hC[n], n = 0..N: window terms."""
        self.sr, self.hs = sr, hs
        N, q = sr.N, sr.q
        D0, DN = sr.left.D, sr.right.D
        l0, rN = sr.left.l[-1], sr.right.r[-1]
        lsq, lsi = msqrt(l0)
        rsq, rsi = msqrt(rN.T)
        self.lsq, self.rsq = lsq, rsq.T
        self.qs = [D0] + [q] * N + [DN]
        self.D = [1, D0] + [a.shape[2] for a in sr.C] + [1]
        self.tens = [lsq.reshape(D0, 1, D0)] + [a for a in sr.C] + [self.rsq.T.reshape(DN, DN, 1)]
        self.psi = ref.dense(self.tens)
        H = 0
        I = lambda n: np.eye(n, dtype=complex)
        eL = lambda n: sr.left.expect(hL, (n - 1) % sr.LL, hs)
        # left bulk
        f = 0
        for j in range(-sr.LL + 1, 1):           # last site of the term
            n = j - hs + 1
            x = tl_([sr.A(n + i) for i in range(hs)], sr.l(n - 1), hL)
            for m in range(j + 1, 1):
                x = sr._el(x, sr.A(m))
            f = f + x
        E, _ = uref.block_E(sr.left.A)
        r_ = sr.left.r[-1]
        y = f - l0 * np.trace(f.dot(r_))
        k = la.solve(np.eye(D0 ** 2) - E.T + np.outer(l0.T.ravel(), r_.ravel()), y.T.ravel()).reshape(D0, D0).T
        self.KL = k
        H = H + ref.embed(lsi.dot(k).dot(lsi), [0], self.qs)
        # right bulk
        f = 0
        for j in range(1, sr.LR + 1):
            n = N + j
            x = tr_([sr.A(n + i) for i in range(hs)], sr.r(n + hs - 1), hR)
            for m in range(j - 1, 0, -1):
                x = sr._er(x, sr.A(N + m))
            f = f + x
        E, _ = uref.block_E(sr.right.A)
        l_ = sr.right.l[-1]
        y = f - rN * np.trace(l_.dot(f))
        k = la.solve(np.eye(DN ** 2) - E + np.outer(rN.ravel(), l_.T.ravel()), y.ravel()).reshape(DN, DN)
        self.KR = k
        H = H + ref.embed(rsi.dot(k.T).dot(rsi), [N + 1], self.qs)
        self.base = 0
        self.terms = {}
        for n in range(2 - hs, N + 1):
            h = hL if n < 0 else hC[n]
            self.base = self.base + eL(n)
            self.terms[n] = sr.expect(h, n, hs)
            if n <= 0 and n + hs - 1 > N:
                nl, nr = 1 - n, n + hs - 1 - N
                WL = ref.dense_open([sr.A(n + i) for i in range(nl)]).reshape(-1, q ** nl, D0)
                WR = ref.dense_open([sr.A(N + 1 + i) for i in range(nr)]).reshape(DN, q ** nr, -1)
                hh = h.reshape((q ** nl, q ** N, q ** nr) * 2)
                X = np.einsum('abc,ad,def,bxteyu,gtk,jk,iuj->cxgfyi', WL.conj(), sr.l(n - 1), WL, hh, WR.conj(), sr.r(n + hs - 1), WR, optimize=True)
                X = np.einsum('ac,cxgfyi,fb,mg,in->axmbyn', lsi, X, lsi, rsi, rsi, optimize=True)
                d = D0 * q ** N * DN
                H = H + ref.embed(X.reshape(d, d), list(range(N + 2)), self.qs)
            elif n <= 0:
                nb = 1 - n
                W = ref.dense_open([sr.A(n + i) for i in range(nb)]).reshape(-1, q ** nb, D0)
                hh = h.reshape(q ** nb, q ** (hs - nb), q ** nb, q ** (hs - nb))
                X = np.einsum('abc,ad,bxey,def->cxfy', W.conj(), sr.l(n - 1), hh, W)
                X = np.einsum('ac,cxfy,fb->axby', lsi, X, lsi)
                d = D0 * q ** (hs - nb)
                H = H + ref.embed(X.reshape(d, d), list(range(0, hs - nb + 1)), self.qs)
            elif n + hs - 1 > N:
                nw = N - n + 1
                nb = hs - nw
                W = ref.dense_open([sr.A(N + 1 + i) for i in range(nb)]).reshape(DN, q ** nb, -1)
                hh = h.reshape(q ** nw, q ** nb, q ** nw, q ** nb)
                X = np.einsum('cba,da,xbye,fed->xcyf', W.conj(), sr.r(n + hs - 1), hh, W)
                X = np.einsum('ac,xcyf,fb->xayb', rsi, X, rsi)
                d = DN * q ** nw
                H = H + ref.embed(X.reshape(d, d), list(range(N - nw + 1, N + 2)), self.qs)
            else:
                H = H + ref.embed(h, list(range(n, n + hs)), self.qs)
        self.H = H
        self.E = np.vdot(self.psi, H.dot(self.psi.ravel())) / np.vdot(self.psi, self.psi)

    def dense(self, As):
        """Weighted vector of other window tensors with the same bulks."""
        return ref.dense([self.tens[0]] + list(As) + [self.tens[-1]])


def win_terms(name, q, hs, N, hL):
    """hC[0..N]"""
    if name == "bulk":
        return [hL] * (N + 1)
    if name in ("imp", "call"):
        return [hL if n not in (0, N // 2 + 1, N) else ref.rand_herm(ref.rng_for("imp", q, hs, n), [q] * hs) for n in range(N + 1)]
    raise ValueError(name)


def stcfgs(tier, sel=None):
    out = []
    for hs in (2, 3):
        for L in (1, 2):
            for N in (1, 2, 3, 4):
                if N % L:
                    continue
                for D in (1, 2, 3):
                    if N == 4 and D == 3 and L == 1:
                        continue
                    for bulk in ("rand", "gauge"):
                        if bulk == "gauge" and (D == 1 or N > 2):
                            continue
                        for ctor, right in (("uni", "same"), ("win", "same"), ("win", "diff"), ("mps", "diff")):
                            for ham in ("bulk", "imp", "call"):
                                if ham == "call" and (D == 3 or N == 4 or ctor != "win") or bulk == "gauge" and ham != "imp":
                                    continue
                                out.append(dict(q=2, D=D, L=L, N=N, bulk=bulk, ctor=ctor, right=right, hs=hs, ham=ham, symm=(N + D) % 2 == 0))
        for N in (1, 2, 3):
            for Dw in (1, 2, 4):
                out.append(dict(q=2, D=2, L=1, N=N, bulk="rand", ctor="mps", right="diff", Dw=Dw, hs=hs, ham="imp"))
            if N == 3:
                out.append(dict(q=2, D=2, L=1, N=N, bulk="rand", ctor="mps", right="diff", Dw=[2, 4], hs=hs, ham="imp"))
            out.append(dict(q=2, D=2, DR=3, L=1, LR=2, N=N, bulk="rand", ctor="mps", right="diff", Dw=2, hs=hs, ham="imp"))
            out.append(dict(q=2, D=3, DR=1, L=2, LR=1, N=N, bulk="rand", ctor="mps", right="diff", Dw=2, hs=hs, ham="imp"))
            out.append(dict(q=3, D=2, L=1, N=N, bulk="rand", ctor="win", right="diff", hs=hs, ham="imp"))
            # more virtual dimensions than the window can use
            out.append(dict(q=2, D=1, L=1, N=N, bulk="rand", ctor="mps", right="diff", Dw=4, tol=1e-11, hs=hs, ham="imp"))
        out.append(dict(q=2, D=2, L=3, N=3, bulk="rand", ctor="win", right="diff", hs=hs, ham="imp"))
        out.append(dict(q=2, D=2, L=1, N=5, bulk="rand", ctor="win", right="diff", hs=hs, ham="imp"))
        if tier != "quick":
            for L in (1, 2):
                for N in (2, 4, 6):
                    for D in (2, 3, 4):
                        if D * D * 2 ** N > 300:
                            continue
                        for ctor, right in (("uni", "same"), ("win", "diff"), ("mps", "diff")):
                            for ham in ("imp", "bulk"):
                                out.append(dict(q=2, D=D, L=L, N=N, bulk="gauge", ctor=ctor, right=right, hs=hs, ham=ham, symm=False))
            for L in (1, 2):
                for D in (1, 2, 3):
                    for right in ("same", "diff"):
                        out.append(dict(q=3, D=D, L=L, N=2, bulk="rand", ctor="win", right=right, hs=hs, ham="imp"))
    return out


class STState(SState):
    def anc(self):
        return AncH(SandRef(*stens(self.s)), self.hL, self.hC, self.hR, self.hs)


class STWorld(SWorld):
    """S03"""
    name = "st.tdvp"

    def configs(self, tier):
        for c in stcfgs(tier):
            yield c

    def depth_for(self, cfg, tier):
        small = cfg["D"] <= 2 and cfg["N"] <= 3
        return 2 if small and (tier != "quick" or cfg["L"] == 1) else 1

    def init(self, cfg):
        seed_for("st", cfg["q"], cfg["D"], cfg["L"], cfg["N"])
        q, hs, N = cfg["q"], cfg["hs"], cfg["N"]
        hL = uham("herm", q, hs)
        hR = hL if cfg["right"] == "same" or cfg["ctor"] == "uni" else uham("herm2", q, hs)
        hC = win_terms(cfg["ham"], q, hs, N, hL)
        shp = [q] * (2 * hs)

        def win_arg():
            if cfg["ham"] == "call":
                fs = [as_callable(h, [q] * hs) for h in hC]
                fL = as_callable(hL, [q] * hs)
                return lambda n, *a: (fs[n] if n >= 0 else fL)(*a)
            return [h.reshape(shp) for h in hC]
        if cfg["ctor"] == "mps":
            base, m = sand_state(dict(cfg, ctor="tensors"))
            base.zero_tol = cfg.get("tol", base.zero_tol)
            with Guard("st.from_mps"):
                base.update()
                s = ts.EvoMPS_TDVP_Sandwich.from_mps(base, hL.reshape(shp), [h.reshape(shp) for h in hC], hR.reshape(shp), ham_sites=hs)
        else:
            cur = {"h": [hL, hR]}
            cfg2 = cfg

            def mk(D, q, L, do_update):
                h = cur["h"].pop(0)
                return tu.EvoMPS_TDVP_Uniform(D, q, h.reshape(shp), ham_sites=hs, L=L, do_update=False)
            s, m = sand_state(cfg2, sandwich=ts.EvoMPS_TDVP_Sandwich, unicls=mk)
            if cfg["ham"] != "bulk":
                s.ham = win_arg()
        st = STState(s, m)
        s.zero_tol = cfg.get("tol", s.zero_tol)
        for u in (s.uni_l, s.uni_r):
            u.itr_rtol = 1e-13
        st.cfg, st.hs, st.hL, st.hR, st.hC = cfg, hs, hL, hR, hC
        st.normed = True
        st.cf = True
        for n in range(0, N + 1):
            w = st.sr().schmidt_sq(n)
            if np.any((w > 1e-13) & (w < 1e-5)):
                raise Disabled()
        with Guard("st.update"):
            s.update()
        return st

    def key(self, st):
        return SWorld.key(self, st) + str(len(st.hC))

    def actions(self, st):
        s = st.s
        out = [("update", False), ("gauge", False, False), ("gauge", True, True), ("euler", 0.03j), ("save",), ("ham",)]
        for nc in range(1, s.N + 1):
            if nc != s.N_centre:
                out.append(("centre", nc))
        if st.cfg["ham"] != "call" and s.N + max(len(st.m[0]), len(st.m[2])) <= 5 and s.D[0] * s.D[s.N] * s.q[1] ** s.N <= 80:
            out += [("grow", "l", 1), ("grow", "r", 1)]
        return out

    def step(self, st, act):
        s = st.s
        k = act[0]
        sig = "st." + k
        if k == "grow":
            st = SGaugeWorld.__dict__["step"](self, st, act)
            LL = len(st.m[0]) if act[1] == "l" else len(st.m[2])
            if act[1] == "l":
                st.hC = [st.hL] * LL + list(st.hC)
            else:
                st.hC = list(st.hC) + [st.hR] * LL
            return st
        if k == "euler":
            with Guard(sig):
                s.take_step(act[1])
            st.m = stens(s)
            with Guard(sig + ".update"):
                s.update()
            st.cf = True
            return st
        if k == "ham":
            q, hs = st.cfg["q"], st.hs
            st.hC = [ref.rand_herm(ref.rng_for("quench", q, hs, n), [q] * hs) for n in range(s.N + 1)]
            s.ham = [h.reshape([q] * (2 * hs)) for h in st.hC]
            with Guard(sig):
                s.update()
            st.cf = True
            return st
        if k == "gauge" and act[1]:
            gauge_s(s, True, .2)
            with Guard(sig):
                s.update()
            st.cf = True
            return st
        return SGaugeWorld.__dict__["step"](self, st, act)

    def check(self, st):
        s, hs = st.s, st.hs
        same_sand(s, st.sr(), "st.state")
        check_lr(s, sig="st.lr")
        a = st.anc()
        sr, N, q = a.sr, s.N, int(s.q[1])
        close(la.norm(a.psi), 1., "harness.norm", 1e-8)
        close(a.H, a.H.conj().T, "harness.herm", 1e-7, max(1., la.norm(a.H, 2)))
        sc = max(1., la.norm(a.H, 2))
        for n in range(0, N + 1):
            close(s.h_expect[n], a.terms[n], "st.h_expect", 1e-7, sc, "energy of term %d (N=%d, centre %d)" % (n, N, s.N_centre))
        close(s.dH_expect, a.E - a.base, "st.dH_expect", 1e-6, sc, "energy above the bulk")
        w = min([1.] + [sr.schmidt_sq(n)[int(s.D[n]) - 1] for n in range(0, N + 1)])
        c = copy.deepcopy(s)
        with Guard("st.calc_B"):
            B = c.calc_B()
        for n in range(1, N + 1):
            if B[n] is None:
                continue
            need(np.all(np.isfinite(B[n])), "st.B.finite", "B[%d]", n)
            nb = la.norm(B[n])
            if n < s.N_centre:
                x = sum(s.A[n][t].conj().T.dot(arr(s.l[n - 1])).dot(B[n][t]) for t in range(q))
                close(x, 0 * x, "st.B.gauge", 1e-7, max(1., nb), "left gauge condition on B[%d]" % n)
            elif n > s.N_centre:
                x = sum(B[n][t].dot(arr(s.r[n])).dot(s.A[n][t].conj().T) for t in range(q))
                close(x, 0 * x, "st.B.gauge", 1e-7, max(1., nb), "right gauge condition on B[%d]" % n)
        v = a.psi.ravel()
        hv = a.H.dot(v)
        if w > 1e-5:
            got = self.dpsi(a, s, B).ravel()
            T = ref.tangent_basis(a.tens)
            p, _ = ref.projector_apply(T, hv)
            p = p - v * np.vdot(v, p)
            close(got, p, "st.B", 1e-6, sc, "tangent vector (centre %d of %d)" % (s.N_centre, N))
            close(np.real(c.eta) ** 2, la.norm(p) ** 2, "st.eta", 1e-6, sc ** 2, "eta^2")
            close(np.sum(c.eta_sq), la.norm(p) ** 2, "st.eta", 1e-6, sc ** 2, "sum of eta_sq")
            with Guard("st.projerr"):
                e = c.compute_projection_error()
            rest = hv - v * np.vdot(v, hv) - p
            for n in range(1, N):
                T2 = two_site_basis(a.tens, n + 1)
                x, _ = ref.projector_apply(T2, rest)
                close(np.real(e[n]), la.norm(x) ** 2, "st.projerr", 1e-6, sc ** 2, "two-site error at bond %d" % n)
        # Euler step
        d = copy.deepcopy(s)
        with Guard("st.take_step"):
            d.take_step(0.02 + 0.01j)
            e = copy.deepcopy(s)
            e.take_step(0.02 + 0.01j, B=[None if b is None else b.copy() for b in B])
        for n in range(1, N + 1):
            x = s.A[n] if B[n] is None else s.A[n] - (0.02 + 0.01j) * B[n]
            close(d.A[n], x, "st.take_step", 1e-8, max(1., la.norm(x)), "A[%d] after a step" % n)
            close(e.A[n], x, "st.take_step", 1e-8, max(1., la.norm(x)), "A[%d] after a step along a given vector" % n)

    @staticmethod
    def dpsi(a, s, B):
        AC = [np.asarray(s.A[n]) for n in range(1, s.N + 1)]
        f = 1. / np.sqrt(a.sr.norm)
        out = 0
        for n in range(1, s.N + 1):
            if B[n] is None:
                continue
            As = list(AC)
            As[n - 1] = B[n]
            out = out + a.dense(As) * f
        return out if not np.isscalar(out) else 0 * a.psi


class STIntegWorld(STWorld):
    """S04: integrators and dynamical expansion against the exact flow."""
    name = "st.integ"

    def configs(self, tier):
        for c in stcfgs(tier):
            if tier == "quick" and (c["N"] > 3 or c["D"] ** 2 * c["q"] ** c["N"] > 40 or c["ham"] == "call"):
                continue
            if c["D"] ** 2 * c["q"] ** c["N"] > 80:
                continue
            yield c

    def depth_for(self, cfg, tier):
        return 0 if tier == "quick" and (cfg["D"] > 2 or cfg["L"] > 1 or cfg["ham"] != "imp") else 1

    def actions(self, st):
        s = st.s
        out = [("update", False), ("gauge", False, False), ("euler", 0.03j)]
        for nc in range(1, s.N + 1):
            if nc != s.N_centre:
                out.append(("centre", nc))
        return out

    def weight(self, s, sr):
        return min([1.] + [sr.schmidt_sq(n)[int(s.D[n]) - 1] for n in range(0, s.N + 1)])

    def vec(self, a, c):
        return a.dense([np.asarray(c.A[n]) for n in range(1, c.N + 1)])

    def check(self, st):
        s = st.s
        same_sand(s, st.sr(), "sti.state")
        a = st.anc()
        mn = self.weight(s, a.sr)
        if mn < 1e-2:
            return
        N = s.N
        nH = max(1., la.norm(a.H - a.E.real * np.eye(len(a.H)), 2))
        E0 = a.E.real
        v0 = self.vec(a, s)
        f0 = la.norm(v0)
        with Guard("sti.calc_B"):
            B = s.calc_B()
        eta2 = float(np.real(s.eta)) ** 2
        h = 0.0125 * min(1., np.sqrt(mn / 0.03)) * min(1., 3. / nH)
        prof = [d for d in a.D]
        for u, nm in ((1, "imaginary"), (1j, "real"), (np.exp(0.7j), "complex")):
            refs = {}
            for integ, p in (("euler", 1), ("rk4", 4)):
                e, dE = [], []
                for hh in (h, h / 2):
                    c = copy.deepcopy(s)
                    with Guard("sti." + integ):
                        if integ == "euler":
                            c.take_step(hh * u)
                        else:
                            c.take_step_RK4(hh * u)
                    x = self.vec(a, c)
                    if hh not in refs:
                        refs[hh] = flow.flow(a.psi, a.H, prof, hh * u, 6)[0]
                    e.append(ref.phase_dist(x / la.norm(x), refs[hh]))
                    w = x.ravel() / la.norm(x)
                    dE.append(np.vdot(w, a.H.dot(w)).real - E0)
                floor = 3e-12 + 1e-15 / mn
                need(e[1] <= floor or e[0] / e[1] >= 2 ** (p + 1) * 0.68, "sti.order." + integ,
                     "%s time: one-step errors %g (h=%g) and %g (h/2): not of order h^%d", nm, e[0], h, e[1], p + 1)
                need(e[0] <= 5e4 * (h ** (p + 1)) / mn ** (p / 2.) + floor, "sti.size." + integ,
                     "%s time: one-step error %g at h=%g", nm, e[0], h)
                if nm == "real" and integ == "rk4":
                    need(abs(dE[1]) <= 10 * floor * nH or abs(dE[0] / dE[1]) >= 2 ** (p + 1) * 0.6, "sti.energy",
                         "energy drifts by %g (h=%g) and %g (h/2)", dE[0], h, dE[1])
                if nm == "imaginary":
                    for d, hh in zip(dE, (h, h / 2)):
                        need(d <= 1e-12 * nH, "sti.descent", "energy rises by %g", d)
                        need(abs(d + 2 * hh * eta2) <= 0.5 * hh * eta2 + 1e-10, "sti.rate." + integ,
                             "energy changes by %g, expected about -2 h eta^2 = %g", d, -2 * hh * eta2)
                # two half steps
                c = copy.deepcopy(s)
                with Guard("sti.multi." + integ):
                    for i in range(2):
                        (c.take_step if integ == "euler" else c.take_step_RK4)(h / 2 * u)
                        if i == 0:
                            c.update(restore_CF=False)
                x = self.vec(a, c)
                e4 = ref.phase_dist(x / la.norm(x), refs[h])
                need(e4 <= floor or e4 <= e[0] * (2. ** -p) / 0.6, "sti.multi." + integ,
                     "two half steps have error %g, one step has %g", e4, e[0])
                # canonical form in between: compare physically
                d = copy.deepcopy(s)
                with Guard("sti.cf." + integ):
                    for i in range(2):
                        (d.take_step if integ == "euler" else d.take_step_RK4)(h / 2 * u)
                        d.update(restore_CF=(i == 0))
                R1, R2 = SandRef(*stens(d)), SandRef(*stens(c))
                m = min(N + 2, 5)
                tolr = max(1e-8, 4 * e[0])
                close(R1.rdm(0, m), R2.rdm(0, m), "sti.cf." + integ, tolr, 1., "canonical form between two steps changes the evolution")
        Bc = copy.deepcopy(B)
        x, y = copy.deepcopy(s), copy.deepcopy(s)
        z = 0.02 + 0.02j
        for name, given, plain in (("rk4", lambda c: c.take_step_RK4(z, B_i=B), lambda c: c.take_step_RK4(z)),
                                   ("euler", lambda c: c.take_step(z, B=B), lambda c: c.take_step(z)),
                                   ("dynexp", lambda c: c.take_step(z, B=B, dynexp=True, dD_max=2, D_max=64), lambda c: c.take_step(z, dynexp=True, dD_max=2, D_max=64))):
            x, y = copy.deepcopy(s), copy.deepcopy(s)
            with Guard("sti.B_i." + name):
                given(x)
                plain(y)
            close(self.vec(a, x), self.vec(a, y), "sti.B_i." + name, 1e-9, f0, "step with and without a given tangent vector")
            for n in range(1, N + 1):
                need((B[n] is None) == (Bc[n] is None) and (B[n] is None or np.array_equal(B[n], Bc[n])),
                     "sti.B_i.readonly", "the caller's B[%d] was modified (%s)", n, name)
            # another vector than the state's own is used as given
            if name == "euler":
                V = [None if b is None else -0.7j * b for b in Bc]
                x = copy.deepcopy(s)
                with Guard("sti.B_i.other"):
                    x.take_step(z, B=V)
                for n in range(1, N + 1):
                    w = s.A[n] if Bc[n] is None else s.A[n] + 0.7j * z * Bc[n]
                    close(x.A[n], w, "sti.B_i.other", 1e-9, max(1., la.norm(w)), "A[%d] after a step along another vector" % n)
        self.dynexp(st, a, Bc, nH)

    def dynexp(self, st, a, B, nH):
        s = st.s
        N, q = s.N, int(s.q[1])
        D0 = [int(x) for x in s.D]
        v = a.psi.ravel()
        hv = a.H.dot(v)
        T = ref.tangent_basis(a.tens)
        p1, _ = ref.projector_apply(T, hv)
        w = hv - p1
        g1 = p1 - v * np.vdot(v, p1)
        sc = max(1., la.norm(hv))
        f0 = la.norm(self.vec(a, s))
        wn, sv = {}, {}
        if N == 1:
            return
        for n in range(1, N):
            T2 = two_site_basis(a.tens, n + 1)
            wn[n], _ = ref.projector_apply(T2, w)
            sv[n] = la.svdvals(wn[n].reshape(int(np.prod(a.qs[:n + 1])), -1))
        for k, Dmax, u in ((1, 64, 1), (2, 64, 1j), (16, 64, np.exp(0.7j)), (16, max(D0) + 1, 1), (16, max(D0), 1j)):
            hh = 1e-3
            f = []
            for z in (hh * u, hh * u / 2, hh * u / 4):
                d = copy.deepcopy(s)
                with Guard("sti.dynexp"):
                    dD = d.take_step(z, dynexp=True, dD_max=k, D_max=Dmax, sv_tol=1e-10)
                f.append((self.vec(a, d).ravel() / f0 - v) / (-z))
            for n in range(1, N + 1):
                need(np.asarray(d.A[n]).shape == (q, d.D[n - 1], d.D[n]), "sti.dynexp.shape", "A[%d] has shape %s, D = %s", n, np.asarray(d.A[n]).shape, list(d.D))
                need(int(d.D[n]) - D0[n] == int(dD[n]), "sti.dynexp.ret", "returned %s, D = %s -> %s", dD, D0, list(d.D))
            dl = (8 * f[2] - 6 * f[1] + f[0]) / 3 - g1
            tol = 1e-4
            acc = 0
            for n in range(1, N):
                lim = max(0, min(k, Dmax - D0[n]))
                want = min(int((sv[n] > 1e-10).sum()), lim)
                if not np.any(np.abs(np.log10(np.maximum(sv[n], 1e-300)) + 10) < 2.5):
                    need(int(d.D[n]) - D0[n] == want, "sti.dynexp.D", "bond %d grew by %d, expected %d (dD_max=%d, D_max=%d)",
                         n, int(d.D[n]) - D0[n], want, k, Dmax)
                T2 = two_site_basis(a.tens, n + 1)
                dn, _ = ref.projector_apply(T2, dl)
                sn = la.svdvals(dn.reshape(int(np.prod(a.qs[:n + 1])), -1))
                need(np.all(sn[lim:] <= tol * sc), "sti.dynexp.rank", "bond %d: more than %d directions added", n, lim)
                best = np.sqrt((sv[n][lim:] ** 2).sum())
                close(la.norm(wn[n] - dn), best, "sti.dynexp.optimal", tol, sc, "remaining error at bond %d" % n)
                acc = acc + dn
            close(dl, acc, "sti.dynexp.only", tol, sc, "directions outside the two-site plane")
            # the expanded state can be evolved further
            d = copy.deepcopy(s)
            with Guard("sti.dynexp.update"):
                d.take_step(hh * 1j, dynexp=True, dD_max=k, D_max=Dmax, sv_tol=1e-10)
                x = self.vec(a, d)
                d.update()
                d.calc_B()
            b = AncH(SandRef(*stens(d)), st.hL, st.hC, st.hR, st.hs)
            e = np.vdot(x, a.H.dot(x.ravel())) / np.vdot(x, x)
            close(b.E, e, "sti.dynexp.state", 1e-6, nH, "energy after restoring the canonical form of an expanded state")
            close(d.dH_expect, b.E - b.base, "sti.dynexp.energy", 1e-6, nH, "energy of an expanded state")


class STSplitWorld(STWorld):
    """S05: split-step evolution and DMRG sweeps of the window between bulks."""
    name = "st.split"

    def configs(self, tier):
        for c in stcfgs(tier):
            if tier == "quick" and (c["N"] > 3 or c["D"] ** 2 * c["q"] ** c["N"] > 40):
                continue
            if c["D"] ** 2 * c["q"] ** c["N"] > 80 or c["ham"] == "call":
                continue
            yield c

    def depth_for(self, cfg, tier):
        return 0 if tier == "quick" and cfg["D"] > 2 else 1

    def actions(self, st):
        return [("gauge", False, False), ("euler", 0.03j), ("split", 0.08j, 1), ("split", 0.05, 2)]

    def step(self, st, act):
        if act[0] != "split":
            return STWorld.step(self, st, act)
        with Guard("sts.split"):
            c = self.run(st, act[1], act[2], {})
            c.update()
        st.s = c
        st.m = stens(c)
        st.cf = True
        return st

    def run(self, st, z, k, kw, cb=None):
        c = copy.deepcopy(st.s)
        c.N_centre = 1
        c.update()
        q, hs = int(c.q[1]), st.hs
        ham = dict((n, (st.hC[n] if n >= 0 else st.hL).reshape([q] * (2 * hs))) for n in range(2 - hs, c.N + 1))
        if hs == 2:
            ham = [ham[n] for n in range(c.N + 1)]
        st.a0 = AncH(SandRef(*stens(c)), st.hL, st.hC, st.hR, hs)
        st.f0 = la.norm(st.a0.dense([np.asarray(c.A[n]) for n in range(1, c.N + 1)]))
        r = sps.evolve_split(c, ham, hs, z or 0., k, DMRG=z is None, print_progress=False,
                             KL_bulk=c.K_l[0].copy(), KR_bulk=c.K[c.N + 1].copy(), cb_func=cb, **kw)
        need(r is c, "sts.return", "another object was returned")
        return c

    def check(self, st):
        s = st.s
        same_sand(s, st.sr(), "sts.state")
        sr = st.sr()
        w = min([1.] + [sr.schmidt_sq(n)[int(s.D[n]) - 1] for n in range(0, s.N + 1)])
        if w < 1e-4:
            return
        a = st.anc()
        nH = max(1., la.norm(a.H - a.E.real * np.eye(len(a.H)), 2))
        sc = min(1., 3. / nH)
        big = 8
        runs = []
        for z in (0.1 * sc, 0.1j * sc, (0.05 + 0.08j) * sc, None):
            runs.append((z, 2, {}, {}))
            for D_max in (int(max(s.D)), big):
                runs.append((z, 1, dict(two_site=True, D_max=D_max, min_schmidt=1e-7), dict(two=True, D_max=D_max, min_s=1e-7)))
            runs.append((z, 2, dict(two_site=True, D_max=big, min_schmidt=1e-7, switch_to_1site=True), dict(two=True, D_max=big, min_s=1e-7, switch=True)))
        for z, k, kw, rk in runs:
            sig = "sts." + ("two" if rk else "one") + (".dmrg" if z is None else "")
            got = []

            def cb(m, i, **info):
                got.append(st.a0.dense([np.asarray(m.A[n]) for n in range(1, m.N + 1)]) / st.f0)
            with Guard(sig):
                c = self.run(st, z, k, kw, cb)
            b = st.a0
            need(len(got) == k, sig + ".callbacks", "%d callbacks in %d steps", len(got), k)
            for n in range(1, c.N + 1):
                need(np.asarray(c.A[n]).shape == (c.q[n], c.D[n - 1], c.D[n]), sig + ".shape", "A[%d] has shape %s, D=%s", n, np.asarray(c.A[n]).shape, list(c.D))
            E = []
            for g in got:
                close(la.norm(g), 1., sig + ".norm", 1e-7, 1., "norm")
                E.append((np.vdot(g, b.H.dot(g.ravel())) / np.vdot(g, g)).real)
            if z is None:
                for e0, e1 in zip([b.E.real] + E, E):
                    need(rk and rk["D_max"] < max(c.D) or e1 <= e0 + 1e-8 * nH or bool(rk), sig + ".descent", "energy rises from %.10g to %.10g", e0, e1)
                need(E[-1] >= la.eigvalsh(b.H)[0] - 1e-8 * nH, sig + ".variational", "energy below the ground state")
            S = Sweeper(b.psi, b.D, b.H, b.qs, lo=2, hi=s.N + 1)
            for j in range(k):
                try:
                    S.sweep(z or 0., dmrg=z is None, **rk)
                except Ambiguous:
                    break
                if S.minsv < 1e-3 or z is None and S.mingap < 1e-3:
                    break
                e = ref.phase_dist(got[j], S.psi)
                need(e <= (1e-6 if z is not None else 1e-5) * max(1., 1e-3 / S.minsv), sig + ".state", "step %s, %s: state after %d steps off by %g (moved %g)", z, kw, j + 1, e, ref.phase_dist(b.psi.ravel(), S.psi))
                if z is not None and z.real == 0 and not rk:
                    close(E[j], b.E.real, sig + ".conserve", 1e-7, nH, "energy after a real-time step")
            with Guard(sig + ".update"):
                c.update()
            d = AncH(SandRef(*stens(c)), st.hL, st.hC, st.hR, st.hs)
            close(d.E, E[-1], sig + ".update", 1e-6, nH, "energy after updating")
