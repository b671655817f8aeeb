"""Sandwich states: a finite nonuniform window between two infinite bulks
(S01 representation, S02 observables).

Reference: the tensors of the two unit cells and of the window, in whatever
gauge they happen to be, evaluated densely.  Site numbers follow the library:
window 1..N, left bulk ..0, right bulk N+1.. ."""
import contextlib
import copy
import io
import itertools
import os
import shutil
import tempfile
import numpy as np
import scipy.linalg as la

from .uni_common import *
from . import uref

import evoMPS.mps_sandwich as ms


class SandRef(object):
    """Dense reference of a sandwich state."""

    def __init__(self, AL, AC, AR):
        self.left = uref.Inf(AL)
        self.right = uref.Inf(AR)
        self.C = [np.array(a, dtype=complex) for a in AC]
        self.N = len(self.C)
        self.q = self.left.q
        self.LL, self.LR = self.left.L, self.right.L
        v = self.l(0)
        for n in range(1, self.N + 1):
            v = self._el(v, self.A(n))
        nrm = np.trace(v.dot(self.right.r[-1])).real
        self.norm = nrm
        self.C[0] = self.C[0] / np.sqrt(nrm)
        self._c = {}

    def A(self, n):
        if n < 1:
            return self.left.A[(n - 1) % self.LL]
        if n > self.N:
            return self.right.A[(n - self.N - 1) % self.LR]
        return self.C[n - 1]

    @staticmethod
    def _el(l, a):
        return sum(x.conj().T.dot(l).dot(x) for x in a)

    @staticmethod
    def _er(r, a):
        return sum(x.dot(r).dot(x.conj().T) for x in a)

    def l(self, n):
        """Left environment of bond n (between sites n and n+1)."""
        if n < 1:
            return self.left.l[(n - 1) % self.LL]
        l = self.left.l[-1]
        for m in range(1, n + 1):
            l = self._el(l, self.A(m))
        return l

    def r(self, n):
        if n >= self.N:
            return self.right.r[(n - self.N - 1) % self.LR]
        r = self.right.r[-1]
        for m in range(self.N, n, -1):
            r = self._er(r, self.A(m))
        return r

    def rdm(self, n, m):
        """Density matrix of sites n..n+m-1; <op> = tr(op rho)."""
        key = (n, m)
        if key not in self._c:
            W = ref.dense_open([self.A(n + j) for j in range(m)])
            d = self.q ** m
            W = W.reshape(W.shape[0], d, W.shape[-1])
            X = np.einsum('ca,asb->csb', self.l(n - 1), W)
            X = np.einsum('csb,bd->csd', X, self.r(n + m - 1))
            self._c[key] = np.einsum('csd,ctd->st', X, W.conj())
        return self._c[key]

    def expect(self, op, n, m):
        d = self.q ** m
        return np.trace(np.asarray(op).reshape(d, d).dot(self.rdm(n, m)))

    def string(self, ops, n):
        """<prod ops> on consecutive sites from n (None: identity)."""
        l = self.l(n - 1)
        for j, o in enumerate(ops):
            a = self.A(n + j)
            if o is None:
                l = self._el(l, a)
            else:
                l = sum(o[s, t] * a[s].conj().T.dot(l).dot(a[t]) for s in range(self.q) for t in range(self.q))
        return np.trace(l.dot(self.r(n + len(ops) - 1)))

    def schmidt_sq(self, n):
        w = la.eigvals(self.l(n).dot(self.r(n))).real
        return np.sort(np.clip(w, 0, None))[::-1]

    def gap(self):
        return min(self.left.gap(), self.right.gap())


def grow_ref(st, side):
    """The same physical state with one more bulk block in the window."""
    AL, AC, AR = st.m
    if side == "l":
        st.m = (AL, [a.copy() for a in uref.normalise(AL)] + list(AC), AR)
    else:
        st.m = (AL, list(AC) + [a.copy() for a in uref.normalise(AR)], AR)


class SState(object):
    def __init__(self, s, m):
        self.s = s
        self.m = m
        self.cf = False

    _cache = (None, None)

    def sr(self):
        key = tuple(a.tobytes() for t in self.m for a in t)
        if self._cache[0] != key:
            self._cache = (key, SandRef(*self.m))
        return self._cache[1]


def bulk_cfg(cfg, side):
    kind = cfg["bulk"]
    return dict(q=cfg["q"], D=cfg["D"], L=cfg["L"], kind=kind, symm=cfg.get("symm", True),
                seed=cfg.get("seed", 0) + (100 if side == "r" else 0))


def window_Ds(cfg):
    """Bond dimensions 0..N of the window."""
    D, DR, N = cfg["D"], cfg.get("DR", cfg["D"]), cfg["N"]
    if cfg.get("Dw") is None:
        return [D] * N + [DR] if N else [D]
    if isinstance(cfg["Dw"], list):
        return [D] + cfg["Dw"] + [DR]
    return [D] + [cfg["Dw"]] * (N - 1) + [DR]


def window_tensors(cfg):
    Ds = window_Ds(cfg)
    rng = ref.rng_for("swin", cfg["q"], Ds, cfg["N"])
    A = [ref.cgauss(rng, (cfg["q"], Ds[n], Ds[n + 1])) for n in range(cfg["N"])]
    return [a.real.astype(complex) for a in A] if cfg["bulk"] == "real" else A


def right_tensors(cfg):
    if cfg.get("right", "same") == "same":
        return tensors_u(bulk_cfg(cfg, "l"))
    c = bulk_cfg(cfg, "r")
    c["D"] = cfg.get("DR", cfg["D"])
    c["L"] = cfg.get("LR", cfg["L"])
    return tensors_u(c)


def uni_obj(A, cfg, cls=None, upd=True, **kw):
    if cls is None:
        u = mu.EvoMPS_MPS_Uniform.from_tensors([a.copy() for a in A], do_update=False)
    else:
        u = cls(A[0].shape[1], A[0].shape[0], L=len(A), do_update=False, **kw)
        for k in range(len(A)):
            u.A[k][:] = A[k]
    u.symm_gauge = cfg.get("symm", True)
    if upd:
        u.update()
    return u


def sand_state(cfg, cls=None, unicls=None, sandwich=None, **kw):
    """(object, model) according to cfg['ctor']:
      uni      window filled from the bulk by the constructor
      uni2     the same with a different right bulk
      nobulk   update_bulks=False
      win      uni2 with random window tensors assigned afterwards
      tensors  from_tensors() (own bond dimensions, right bulk, block sizes)
      func     sandwich_from_tensors()"""
    S = ms.EvoMPS_MPS_Sandwich if sandwich is None else sandwich
    AL = tensors_u(bulk_cfg(cfg, "l"))
    AR = right_tensors(cfg)
    c = cfg["ctor"]
    N = cfg["N"]
    if uref.Inf(AL).gap() < 0.05 or uref.Inf(AR).gap() < 0.05:
        raise Disabled()
    for A in (AL, AR):
        I = uref.Inf(A)
        for k in range(I.L):
            if I.schmidt_sq(k)[-1] < 1e-6:
                raise Disabled()
    with Guard("s.construct"):
        if c in ("tensors", "func"):
            AC = window_tensors(cfg)
            sr = SandRef(AL, AC, AR)
            f = S.from_tensors if c == "tensors" else ms.sandwich_from_tensors
            # real tensors are passed as real arrays; one list may serve for both bulks
            cp = (lambda a: a.real.copy()) if cfg["bulk"] == "real" else (lambda a: a.copy())
            SL, SC = [cp(a) for a in AL], [cp(a) for a in AC]
            SR = SL if cfg.get("right", "same") == "same" else [cp(a) for a in AR]
            s = f(SL, SC, SR)
            for src, A in ((SL, AL), (SC, AC), (SR, AR)):
                for a, b in zip(src, A):
                    need(np.array_equal(a, b), "s.construct.source", "the tensors passed in were modified")
            own = list(s.uni_l.A) + [s.A[n] for n in range(1, N + 1)] + list(s.uni_r.A)
            for a in own:
                for b in SL + SC + SR:
                    need(not np.shares_memory(a, b), "s.construct.alias", "the state shares memory with the tensors passed in")
            for i, a in enumerate(own):
                for b in own[:i]:
                    need(not np.shares_memory(a, b), "s.construct.alias", "tensors of the state share memory")
            return s, (AL, AC, AR)
        ul = uni_obj(AL, cfg, unicls, **kw)
        ur = uni_obj(AR, cfg, unicls, **kw) if cfg.get("right", "same") != "same" else None
        s = S(N, ul, uni_right=ur, update_bulks=(c != "nobulk"))
    AL = utens(s.uni_l)
    AR = utens(s.uni_r)
    if c == "win":
        AC = window_tensors(cfg)
        for n in range(1, N + 1):
            s.A[n] = AC[n - 1].copy()
        s.D = np.array(window_Ds(cfg) + [AR[0].shape[2]])
    else:
        for n in range(1, N + 1):
            close(s.A[n], AL[(n - 1) % len(AL)], "s.construct.A", 1e-12, 1., "window tensor %d" % n)
        AC = [np.array(s.A[n]) for n in range(1, N + 1)]
    return s, (AL, AC, AR)


def stens(s):
    return utens(s.uni_l), [np.array(s.A[n]) for n in range(1, s.N + 1)], utens(s.uni_r)


def same_sand(s, sr, sig, tol=1e-7, normed=True):
    """The object's tensors describe the reference state (including tails)."""
    t = stens(s)
    need(s.N == sr.N, sig + ".N", "N = %d, expected %d", s.N, sr.N)
    for part in t:
        for a in part:
            need(np.all(np.isfinite(a)), sig + ".finite", "tensors contain inf or nan")
    Ds = [a.shape for a in t[1]]
    for n in range(s.N):
        need(Ds[n][1] == s.D[n] and Ds[n][2] == s.D[n + 1], sig + ".D", "A[%d] has shape %s, D = %s", n + 1, Ds[n], list(s.D))
    need(s.uni_l.D == s.D[0] and s.uni_r.D == s.D[s.N], sig + ".D", "bulk bond dimensions vs D = %s", list(s.D))
    J = SandRef(*t)
    m = sr.N + 2
    if sr.q ** m > 128:
        m = min(m, 6 if sr.q == 2 else 4)
    for n in sorted(set((0, sr.N + 1 - m + 1, -1))):
        close(J.rdm(n, m), sr.rdm(n, m), sig, tol, 1.0, "density matrix of sites %d..%d" % (n, n + m - 1))
    # the tails
    close(J.rdm(-3, 3), sr.rdm(-3, 3), sig + ".tail", tol, 1., "left bulk")
    close(J.rdm(sr.N + 2, 3), sr.rdm(sr.N + 2, 3), sig + ".tail", tol, 1., "right bulk")
    return J


def check_lr(s, normed=True, tol=1e-8, sig="s.lr"):
    """l[n], r[n] are the environments of the current tensors."""
    N = s.N
    for u, w in ((s.uni_l, "left bulk"), (s.uni_r, "right bulk")):
        check_fixed_points(u, "s.bulk." + w[:4].strip())
    l, r = arr(s.uni_l.l[-1]), arr(s.uni_r.r[-1])
    close(arr(s.l[0]), l, sig + ".l0", tol, la.norm(l), "l[0] is not the fixed point of the left bulk")
    close(arr(s.r[N]), r, sig + ".rN", tol, la.norm(r), "r[N] is not the fixed point of the right bulk")
    sc = None
    for n in range(1, N + 2):
        l = SandRef._el(l, np.asarray(s.get_A(n)))
        close(arr(s.l[n]), l, sig + ".l", tol, max(1e-300, la.norm(l)), "l[%d]" % n)
    rr = SandRef._er
    for n in range(N - 1, -1, -1):
        r = rr(r, np.asarray(s.get_A(n + 1)))
        close(arr(s.r[n]), r, sig + ".r", tol, max(1e-300, la.norm(r)), "r[%d]" % n)
    r1 = arr(s.uni_r.r[0])
    close(arr(s.r[N + 1]), r1, sig + ".rN1", tol, la.norm(r1), "r[N+1]")
    if normed:
        for n in range(0, N + 2):
            close(np.trace(arr(s.l[n]).dot(arr(s.r[n]))), 1., sig + ".norm", tol, 1., "<l[%d]|r[%d]>" % (n, n))


def check_cf(s, sr, tol=1e-8, sig="s.cf"):
    """Left orthonormal before, right orthonormal from N_centre on; the other
    environments are diagonal and hold the Schmidt weights."""
    nc = s.N_centre
    for n in range(0, s.N + 1):
        o, w, nm = (s.l[n], s.r[n], "l") if n < nc else (s.r[n], s.l[n], "r")
        D = int(s.D[n])
        sch = np.zeros(max(D, len(sr.schmidt_sq(n))))
        x = sr.schmidt_sq(n)
        sch[:len(x)] = x
        sch = sch[:D]
        w = arr(w)
        need(np.max(np.abs(w - np.diag(np.diag(w)))) <= tol, sig + ".diag", "bond %d: weights not diagonal", n)
        close(np.sort(np.diag(w).real)[::-1], sch, sig + ".schmidt", 1e-7, 1., "Schmidt weights at bond %d" % n)
        if sch[-1] > 1e-12:
            close(arr(o), np.eye(D), sig + ".ortho", tol, 1., "%s[%d]" % (nm, n))


def gauge_s(s, bulk, strength=.4):
    """A different, non-unitary gauge on the bonds of the window."""
    N = s.N
    X = {}
    for n in range(0, N + 1):
        d = int(s.D[n])
        rng = ref.rng_for("sg", n, d, bulk)
        if not bulk and n in (0, N):
            X[n] = np.eye(d)
        else:
            u, _ = la.qr(ref.cgauss(rng, (d, d)))
            v, _ = la.qr(ref.cgauss(rng, (d, d)))
            X[n] = u.dot(np.diag(10 ** np.linspace(-strength, strength, d) if d > 1 else [1.7])).dot(v)
    for n in range(1, N + 1):
        s.A[n] = np.einsum('ab,sbc,cd->sad', la.inv(X[n - 1]), s.A[n], X[n])
    if bulk:
        for u, G in ((s.uni_l, X[0]), (s.uni_r, X[N])):
            u.A[0] = np.einsum('ab,sbc->sac', la.inv(G), u.A[0])
            u.A[-1] = np.einsum('sbc,cd->sbd', u.A[-1], G)


def scfgs(tier, q3=True):
    """Configurations shared by the sandwich worlds."""
    out = []
    for L in (1, 2):
        for N in (1, 2, 3, 4):
            for D in (1, 2, 3):
                for bulk in (("rand",) if D == 1 or tier == "quick" and N == 3 else ("rand", "gauge")):
                    for ctor, right in (("uni", "same"), ("uni", "diff"), ("nobulk", "same"), ("win", "same"), ("win", "diff"), ("tensors", "same"), ("tensors", "diff"), ("func", "diff")):
                        if bulk == "gauge" and ctor not in ("uni", "tensors", "nobulk"):
                            continue
                        out.append(dict(q=2, D=D, L=L, N=N, bulk=bulk, ctor=ctor, right=right, symm=(N + D) % 2 == 0))
    for N in (1, 2, 3):
        for Dw in (1, 2, 4):
            out.append(dict(q=2, D=2, L=1, N=N, bulk="rand", ctor="tensors", right="diff", Dw=Dw))
        out.append(dict(q=2, D=2, DR=3, L=1, LR=2, N=N, bulk="rand", ctor="tensors", right="diff", Dw=2))
        out.append(dict(q=2, D=3, DR=1, L=2, LR=1, N=N, bulk="rand", ctor="tensors", right="diff", Dw=2))
        out.append(dict(q=2, D=1, DR=2, L=1, LR=3, N=N, bulk="rand", ctor="tensors", right="diff", Dw=2))
        out.append(dict(q=3, D=2, L=1, N=N, bulk="rand", ctor="tensors", right="diff"))
        out.append(dict(q=3, D=2, L=1, N=N, bulk="aklt", ctor="win", right="same"))
    for L in (1, 2):
        for D in (1, 2, 4):
            for ctor, right in (("tensors", "same"), ("tensors", "diff"), ("func", "diff")):
                out.append(dict(q=2, D=D, L=L, N=2, bulk="real", ctor=ctor, right=right))
    out.append(dict(q=2, D=2, L=3, N=3, bulk="rand", ctor="win", right="diff"))
    out.append(dict(q=2, D=2, L=1, N=5, bulk="rand", ctor="win", right="diff"))
    out.append(dict(q=2, D=2, L=2, N=6, bulk="rand", ctor="win", right="diff"))
    out.append(dict(q=2, D=4, L=1, N=4, bulk="rand", ctor="tensors", right="diff", Dw=4))
    if tier != "quick":
        for D in (4, 5):
            for L in (1, 2, 3):
                for N in (2, 3, 5, 6):
                    for right in ("same", "diff"):
                        out.append(dict(q=2, D=D, L=L, N=N, bulk="rand", ctor="win", right=right))
        for L in (1, 2):
            for D in (2, 3):
                for N in (2, 3, 4):
                    for right in ("same", "diff"):
                        for ctor in ("win", "tensors"):
                            out.append(dict(q=3, D=D, L=L, N=N, bulk="rand", ctor=ctor, right=right))
    return out


class SWorld(World):
    name = "s.base"
    sandwich = None
    unicls = None

    def kw(self, cfg):
        return {}

    def init(self, cfg):
        seed_for("s", cfg["q"], cfg["D"], cfg["L"], cfg["N"])
        s, m = sand_state(cfg, sandwich=self.sandwich, unicls=self.unicls, **self.kw(cfg))
        st = SState(s, m)
        st.cfg = cfg
        for n in range(0, cfg["N"] + 1):
            w = st.sr().schmidt_sq(n)
            if np.any((w > 1e-13) & (w < 1e-6)):
                raise Disabled()
        st.normed = None
        if cfg["ctor"] in ("tensors", "func"):
            st.normed = False              # documented: not normalised, no CF
            st.cf = False
        else:
            with Guard("s.update"):
                s.update()
            st.normed = True
            st.cf = True
        return st

    def key(self, st):
        s = st.s
        t = stens(s)
        return canon(str((st.cf, st.normed, s.N, s.N_centre, s.grown_left, s.grown_right)), *(list(t[0]) + list(t[1]) + list(t[2])))

    def fix_nc(self, s):
        s.N_centre = max(1, min(s.N, s.N_centre))


class SGaugeWorld(SWorld):
    """S01"""
    name = "s.gauge"

    def configs(self, tier):
        for c in scfgs(tier):
            yield c

    def depth_for(self, cfg, tier):
        small = cfg["D"] <= 2 and cfg["N"] <= 3 and cfg["ctor"] in ("win", "tensors")
        return (2 if small else 1) if tier == "quick" else (3 if small and cfg["L"] == 1 else 2)

    def actions(self, st):
        s = st.s
        out = [("update", True), ("update", False), ("noupd",), ("gauge", False, True), ("gauge", False, False), ("gauge", True, True), ("scale", True), ("scale", False), ("scale", False, 1 + 3e-7), ("file",), ("op",)]
        for nc in range(1, s.N + 1):
            if nc != s.N_centre:
                out.append(("centre", nc))
        if s.N < 7:
            out += [("grow", "l", 1), ("grow", "r", 1), ("grow", "l", 2), ("grow", "r", 2), ("save",)]
            if st.cfg["N"] <= 4:
                out += [("growld",)]
        return out

    def step(self, st, act):
        s = st.s
        k = act[0]
        sig = "s." + k
        if k == "update":
            with Guard(sig):
                s.update(restore_CF=act[1])
            st.cf = act[1]
            st.normed = True
        elif k == "noupd":
            s.A[1] = s.A[1] * (0.6 - .3j)
            with Guard(sig):
                s.update(restore_CF=False, normalize=False)
            st.cf = False
            st.normed = False
        elif k == "gauge":
            gauge_s(s, act[1])
            with Guard(sig):
                s.update(restore_CF=act[2])
            st.cf = act[2]
            st.normed = True
        elif k == "scale":
            s.A[s.N] = s.A[s.N] * (act[2] if len(act) > 2 else -1.7 + .4j)
            with Guard(sig):
                s.update(restore_CF=act[1])
            st.cf = act[1]
            st.normed = True
        elif k == "op":
            rng = ref.rng_for("sop", s.N)
            n = 1 + s.N // 2
            o = ref.cgauss(rng, (s.q[n], s.q[n]))
            AC = list(st.m[1])
            AC[n - 1] = np.einsum('st,tab->sab', o, AC[n - 1])
            st.m = (st.m[0], AC, st.m[2])
            with Guard(sig):
                s.apply_op_1s(o, n)
            st.cf = True
            st.normed = True
        elif k == "centre":
            s.N_centre = act[1]
            with Guard(sig):
                s.update()
            st.cf = True
            st.normed = True
        elif k == "grow":
            N, g = s.N, (s.grown_left, s.grown_right)
            with Guard(sig):
                for j in range(act[2] - 1):
                    pass
                (s.grow_left if act[1] == "l" else s.grow_right)(act[2])
            for j in range(act[2]):
                grow_ref(st, act[1])
            LL = len(st.m[0]) if act[1] == "l" else len(st.m[2])
            need(s.N == N + act[2] * LL, sig + ".N", "N = %d after growing %d by %d blocks of %d", s.N, N, act[2], LL)
            need((s.grown_left, s.grown_right) == ((g[0] + act[2] * LL, g[1]) if act[1] == "l" else (g[0], g[1] + act[2] * LL)),
                 sig + ".count", "grown_left, grown_right = %s", (s.grown_left, s.grown_right))
            with Guard(sig + ".update"):
                s.update()
            st.cf = True
            st.normed = True
        elif k == "file":
            d = tempfile.mkdtemp(prefix="mcs")
            try:
                f = os.path.join(d, "x.npy")
                with Guard(sig):
                    s.save_state(f)
                    st.s = type(s).from_file(f) if self.unicls is None else self.reload(s, f)
            finally:
                shutil.rmtree(d)
            close(st.s.A[1], s.A[1], sig + ".tensors", 1e-12, 1., "A[1] after reloading")
            st.s.N_centre = s.N_centre
            st.cf = False
            st.normed = False
        elif k in ("save", "growld"):
            d = tempfile.mkdtemp(prefix="mcs")
            try:
                f = os.path.join(d, "x.npy")
                with Guard(sig):
                    s.save_state(f, userdata="mine")
                    o = copy.deepcopy(s)
                for n in range(1, o.N + 1):
                    o.A[n] = o.A[n][::-1] + .3
                if k == "growld":
                    # saved after growing, loaded by an object that has not grown
                    with Guard(sig):
                        s.grow_left(1)
                        s.update()
                        s.save_state(f, userdata="mine")
                    grow_ref(st, "l")
                elif len(st.cfg) and st.cfg["D"] == 1 and st.cfg["N"] <= 2:
                    # a file whose writing was interrupted, at every byte
                    data = open(f, "rb").read()
                    T0 = [np.array(a) for t in stens(o) for a in t]
                    for cut in range(len(data)):
                        with open(f, "wb") as g:
                            g.write(data[:cut])
                        try:
                            with env.quiet():
                                o.load_state(f)
                        except Exception:
                            pass
                        else:
                            need(False, sig + ".torn", "loaded a file cut after %d of %d bytes", cut, len(data))
                        need(all(np.array_equal(a, b) for a, b in zip(T0, [np.array(a) for t in stens(o) for a in t])),
                             sig + ".torn", "a file cut after %d bytes changed the object", cut)
                    with open(f, "wb") as g:
                        g.write(data)
                with Guard(sig):
                    ud = o.load_state(f, autogrow=(k == "growld"))
                need(str(ud) == "mine", sig + ".userdata", "user data %s", ud)
            finally:
                shutil.rmtree(d)
            need((o.grown_left, o.grown_right) == (s.grown_left, s.grown_right), sig + ".count", "grown counts not restored")
            st.s = o
            st.cf = True
            st.normed = True
        return st

    def check(self, st):
        s, sr = st.s, st.sr()
        same_sand(s, sr, "s.state", normed=bool(st.normed))
        check_lr(s, normed=bool(st.normed))
        if st.cf:
            check_cf(s, sr)


class SObsWorld(SWorld):
    """S02"""
    name = "s.obs"

    def configs(self, tier):
        for c in scfgs(tier):
            if c["N"] <= 4 or tier != "quick":
                yield c

    def depth_for(self, cfg, tier):
        return 2 if tier != "quick" or cfg["D"] <= 2 and cfg["N"] <= 3 else 1

    def actions(self, st):
        out = [("update", True), ("update", False), ("gauge", False, False), ("gauge", True, True), ("grow", "l", 1), ("grow", "r", 1)]
        if st.s.N_centre > 1:
            out.append(("centre", 1))
        return out

    step = SGaugeWorld.__dict__["step"]

    def check(self, st):
        s, sr = st.s, st.sr()
        N, q = s.N, int(s.q[1])
        if not st.normed:
            return
        same_sand(s, sr, "sobs.state")
        T0 = [np.array(a) for t in stens(s) for a in t]
        lr0 = [np.array(arr(x)) for x in list(s.l) + list(s.r) + [x for u in (s.uni_l, s.uni_r) for y in (u.l, u.r) for x in y]]
        z, up, g = op1("z", q), op1("up", q), op1("g", q)
        lo, hi = -3, N + 4
        for n in range(lo, hi + 1):
            for name in ("z", "g", "id"):
                o = op1(name, q)
                w = sr.expect(o, n, 1)
                with Guard("sobs.1s"):
                    v = s.expect_1s(o, n)
                close(v, w, "sobs.1s", 1e-7, None, "<%s> at site %d (N=%d)" % (name, n, N))
            with Guard("sobs.1s"):
                v = s.expect_1s(as_callable(g, [q]), n)
            close(v, sr.expect(g, n, 1), "sobs.1s.callable", 1e-7, None, "callable at site %d" % n)
            o2 = opk("g", [q, q]).reshape((q,) * 4)
            w = sr.expect(o2, n, 2)
            with Guard("sobs.2s"):
                v = s.expect_2s(o2, n)
                v2 = s.expect_2s(as_callable(o2, [q, q]), n)
            close(v, w, "sobs.2s", 1e-7, None, "two-site operator at %d (N=%d)" % (n, N))
            close(v2, w, "sobs.2s", 1e-7, None, "two-site function at %d (N=%d)" % (n, N))
            o3 = opk("g", [q] * 3).reshape((q,) * 6)
            w = sr.expect(o3, n, 3)
            with Guard("sobs.3s"):
                v = s.expect_3s(o3, n)
            close(v, w, "sobs.3s", 1e-7, None, "three-site operator at %d (N=%d)" % (n, N))
        for n in range(lo, hi):
            for d in range(1, hi - n + 1):
                with Guard("sobs.1s1s"):
                    v = s.expect_1s_1s(g, up, n, n + d)
                w = sr.string([g] + [None] * (d - 1) + [up], n)
                close(v, w, "sobs.1s1s", 1e-7, None, "<op_%d op_%d>" % (n, n + d))
            d = hi - n
            with Guard("sobs.corr"):
                v = s.correlation_1s_1s(g, z, n, d)
            w = [sr.expect(g.dot(z), n, 1)] + [sr.string([g] + [None] * (j - 1) + [z], n) for j in range(1, d + 1)]
            w = np.array([w[j] - sr.expect(g, n, 1) * sr.expect(z, n + j, 1) for j in range(d + 1)])
            close(v, w, "sobs.corr", 1e-7, None, "correlations from %d" % n)
            with Guard("sobs.string"):
                v = s.expect_string_1s(g, n, d)
            w = np.array([sr.string([g] * j, n) for j in range(1, d + 1)])
            close(v, w, "sobs.string", 1e-7, None, "strings from %d" % n)
            for m in (1, 3):
                with Guard("sobs.mpo"):
                    M = mpo_list(q, m)
                    v = s.expect_MPO(M, n)
                close(v, sr.expect(mpo_dense(M), n, m), "sobs.mpo", 1e-7, None, "MPO on %d sites at %d" % (m, n))
        for n in range(1, N + 1):
            with Guard("sobs.rho1"):
                v = s.density_1s(n)
            close(v, rho_lib(sr, [n], q), "sobs.rho1", 1e-7, None, "density_1s(%d)" % n)
            for n2 in range(n + 1, N + 1):
                with Guard("sobs.rho2"):
                    v = s.density_2s(n, n2)
                close(v, rho_lib(sr, [n, n2], q), "sobs.rho2", 1e-7, None, "density_2s(%d, %d)" % (n, n2))
        for n in range(lo, hi + 1):
            w = sr.schmidt_sq(n)
            with Guard("sobs.schmidt"):
                v = s.schmidt_sq(n)
                S, v2 = s.entropy(n, ret_schmidt_sq=True)
            v = np.sort(np.asarray(v).real)[::-1]
            ww = np.zeros(len(v))
            ww[:min(len(w), len(v))] = w[:len(v)]
            close(v, ww, "sobs.schmidt", 1e-7, None, "Schmidt weights at bond %d" % n)
            x = w[w > 1e-14]
            close(S, -np.sum(x * np.log2(x)), "sobs.entropy", 1e-6, 1., "entropy at bond %d" % n)
        T1 = [np.array(a) for t in stens(s) for a in t]
        for a, b in zip(T0, T1):
            close(a, b, "sobs.pure", 1e-12, 1., "tensors after measuring")
        self.overlaps(st)
        self.tangent(st)
        lr1 = [np.array(arr(x)) for x in list(s.l) + list(s.r) + [x for u in (s.uni_l, s.uni_r) for y in (u.l, u.r) for x in y]]
        for a, b in zip(lr0, lr1):
            need(np.array_equal(a, b), "sobs.pure.lr", "measuring changed l or r")

    def tangent(self, st):
        """Overlap with a momentum superposition of one tensor B placed between
        a left half chain AL and a right half chain AR.  B is right-gauge-fixed
        with respect to AR, as the method requires."""
        s = st.s
        if s.uni_l.L != 1 or s.uni_r.L != 1 or s.uni_l.D != s.uni_r.D:
            return
        AL, AR = np.array(s.uni_l.A[0]), np.array(s.uni_r.A[0])
        D = AL.shape[1]
        lL, rR = arr(s.uni_l.l[0]), arr(s.uni_r.r[0])
        # mixed transfer matrix, ket AL, bra AR, acting to the right on r
        E = sum(np.kron(a, b.conj()) for a, b in zip(AL, AR))
        ev = la.eigvals(E)
        big = ev[np.argmax(abs(ev))]
        triv = abs(abs(big) - 1) < 1e-8
        if triv and abs(big - 1) > 1e-6 or not triv and abs(big) > 0.95:
            return
        rng = ref.rng_for("stang", s.N, D)
        B = ref.cgauss(rng, AL.shape)
        M = sum(a.dot(rR).dot(a.conj().T) for a in AR)
        X = sum(b.dot(rR).dot(a.conj().T) for a, b in zip(AR, B))
        Y = X.dot(la.inv(M))
        B = np.array([b - Y.dot(a) for a, b in zip(AR, B)])
        rs = [rR]
        for n in range(s.N, 0, -1):
            rs.insert(0, sum(a.dot(rs[0]).dot(b.conj().T) for a, b in zip(np.array(s.A[n]), AR)))
        Blib = np.array(B)
        for p in (0., 0.7, -2.0, np.pi):
            # sites <= 0: sum_m e^{-ipm} (lL; AL, B) E^m rs[0]
            K = np.eye(D * D) - np.exp(-1j * p) * E
            y = la.lstsq(K, rs[0].ravel(), cond=1e-9)[0].reshape(D, D)
            bulk = np.trace(lL.dot(sum(a.dot(y).dot(b.conj().T) for a, b in zip(AL, B))))
            if triv and p == 0.:
                # the component along the fixed point drops out because of the
                # gauge condition: project it out
                w, vl, vr = la.eig(E, left=True)
                i = np.argmax(abs(w))
                P = np.outer(vr[:, i], vl[:, i].conj()) / np.vdot(vl[:, i], vr[:, i])
                y = la.solve(np.eye(D * D) - (E - P), rs[0].ravel() - P.dot(rs[0].ravel())).reshape(D, D)
                bulk = np.trace(lL.dot(sum(a.dot(y).dot(b.conj().T) for a, b in zip(AL, B))))
            win = []
            l = lL
            for n in range(1, s.N + 1):
                A = np.array(s.A[n])
                win.append(np.exp(1j * p * n) * np.trace(l.dot(sum(a.dot(rs[n]).dot(b.conj().T) for a, b in zip(A, B)))))
                l = sum(b.conj().T.dot(l).dot(a) for a, b in zip(A, AL))
            with Guard("sobs.overlap_tangent"), contextlib.redirect_stdout(io.StringIO()):
                b0, w0 = s.overlap_tangent(Blib, p, top_triv=triv, return_contributions=True)
                v = s.overlap_tangent(Blib, p, top_triv=triv)
            sc = max(1., abs(bulk))
            close(w0, win, "sobs.overlap_tangent.window", 1e-7, 1., "window terms at momentum %g" % p)
            close(b0, bulk, "sobs.overlap_tangent.bulk", 1e-4, sc, "bulk terms at momentum %g" % p)
            close(v, bulk + sum(win), "sobs.overlap_tangent", 1e-4, sc, "overlap at momentum %g" % p)
        need(np.array_equal(B, Blib), "sobs.overlap_tangent.readonly", "the caller's B was modified")

    def overlaps(self, st):
        """|<psi|phi>| for states that differ in the window only; phi's bulks
        are in another gauge."""
        s, sr = st.s, st.sr()
        if s.N > 4 or s.D[0] == 1 and s.N > 3:
            return
        for case in ("self", "gauge", "op"):
            with Guard("sobs.overlap.prep"):
                o = copy.deepcopy(s)
                AC = [a.copy() for a in sr.C]
                if case != "self":
                    gauge_s(o, True)
                if case == "op":
                    rng = ref.rng_for("ovop", s.N)
                    M = ref.cgauss(rng, (s.q[1], s.q[1]))
                    for n in (1, s.N):
                        o.A[n] = np.einsum('st,tab->sab', M, o.A[n])
                        AC[n - 1] = np.einsum('st,tab->sab', M, AC[n - 1])
                o.update()
            T = SandRef(sr.left.A, AC, sr.right.A)
            l = sr.l(0)
            for n in range(1, s.N + 1):
                l = sum(T.A(n)[t].conj().T.dot(l).dot(sr.A(n)[t]) for t in range(sr.q))
            w = abs(np.trace(l.dot(sr.r(s.N))))
            with Guard("sobs.overlap"):
                v = s.overlap(o)
                v2 = o.overlap(s)
            close(abs(v), w, "sobs.overlap", 1e-6, 1., "|overlap| (%s)" % case)
            close(abs(v2), w, "sobs.overlap", 1e-6, 1., "|overlap| (%s, swapped)" % case)


def mpo_list(q, m):
    rng = ref.rng_for("smpo", q, m)
    b = [1] + [2] * (m - 1) + [1]
    return [ref.cgauss(rng, (b[j], b[j + 1], q, q)) for j in range(m)]


def mpo_dense(M):
    x = M[0]
    for w in M[1:]:
        x = np.einsum('abst,bcuv->acsutv', x, w)
        x = x.reshape(x.shape[0], x.shape[1], x.shape[2] * x.shape[3], -1)
    return x[0, 0]


def rho_lib(sr, sites, q):
    """<op> = sum op[s, t] rho[s, t]."""
    n, m = sites[0], sites[-1] - sites[0] + 1
    X = sr.rdm(n, m)
    if len(sites) == 1:
        return X.T
    X = X.reshape((q,) * (2 * m))
    k = m - 2
    # trace out the sites in between
    X = X.reshape(q, q ** k, q, q, q ** k, q)
    X = np.einsum('aibcid->abcd', X).reshape(q * q, q * q)
    return X.T
