"""Finite-chain worlds: gauge/canonical form, observables, reduced states,
truncation, preparation and persistence."""
import copy
import itertools
import os
import tempfile
import numpy as np
import scipy.linalg as la

from . import env, ref
from .explore import (World, Violation, Disabled, Guard, need, close, canon,
                      seed_for)
from .gen_common import *


KINDS = ["rand", "gauge", "low", "prod", "ghz", "init"]


def gen_cfgs(Ns, qalpha=(2, 3), Dmax=3, kinds=KINDS, forms=("right", "left"), qfilter=None):
    for N in Ns:
        for q in itertools.product(qalpha, repeat=N):
            if qfilter and not qfilter(q):
                continue
            for D in d_profiles(q, Dmax):
                for kind in kinds:
                    if kind in ("low", "ghz") and max(D) == 1:
                        continue
                    for form in forms:
                        yield dict(q=list(q), D=D, kind=kind, form=form)


def long_cfgs(kinds):
    """A few longer chains with larger bonds."""
    for q, D in (((2,) * 6, (1, 2, 4, 5, 4, 2, 1)), ((2, 3, 2, 2, 3, 2, 2), (1, 2, 3, 2, 4, 3, 2, 1)),
                 ((4, 2, 4), (1, 4, 3, 1)), ((2, 5), (1, 2, 1)), ((3, 3, 3, 3), (1, 3, 6, 3, 1))):
        for kind in kinds:
            for form in ("right", "left"):
                yield dict(q=list(q), D=list(D), kind=kind, form=form)


class GenState(object):
    """Implementation object, the vector it must represent, and what is known
    about the secondary quantities."""

    def __init__(self, s, psi, fresh=False, cf=None):
        self.s = s
        self.psi = psi
        self.fresh = fresh      # l and r belong to the current tensors
        self.cf = cf            # (form, diag) if in canonical form


class GenWorld(World):
    """Common driver."""
    name = "gen"
    depth = 2
    tol = 1e-8

    def init(self, cfg):
        s = make_mps(cfg)
        s.canonical_form = cfg["form"]
        st = GenState(s, vec(s))
        st.cfg = cfg
        return st

    def key(self, st):
        s = st.s
        arrs = [np.asarray(s.A[n]) for n in range(1, s.N + 1)]
        return canon(st.fresh, st.cf, s.canonical_form, *arrs)

    # -- helpers
    def same(self, st, want, sig, tol=None):
        got = vec(st.s)
        need(got.shape == want.shape, sig, "Hilbert space changed from %s to %s",
             want.shape, got.shape)
        nw = la.norm(want)
        close(got / nw, want / nw, sig, tol or self.tol, 1.0, "state vector")
        st.psi = want

    def fullrank(self, st):
        # smallest nonzero weight relative to what the representation holds
        for n in range(1, st.s.N):
            lam = ref.schmidt_sq(st.psi, n)
            if (lam > 1e-12).sum() < st.s.D[n]:
                return False
            if lam[:st.s.D[n]].min() < 1e-7:
                return False
        return True


def feasible_D(q, D):
    """Largest ranks a generic state with these bond dimensions can have."""
    D = [int(x) for x in D]
    N = len(q)
    for n in range(1, N + 1):
        D[n] = min(D[n], D[n - 1] * q[n - 1])
    for n in range(N - 1, -1, -1):
        D[n] = min(D[n], D[n + 1] * q[n])
    return D


def random_gauge(s, tag, strength=0.5):
    rng = ref.rng_for("g", tag, s.N, tuple(int(x) for x in s.D))
    X = [np.eye(1, dtype=complex)]
    for n in range(1, s.N):
        D = int(s.D[n])
        u = la.qr(ref.cgauss(rng, (D, D)))[0]
        v = la.qr(ref.cgauss(rng, (D, D)))[0]
        d = np.exp(strength * rng.uniform(-1, 1, D))
        X.append(u.dot(np.diag(d)).dot(v))
    X.append(np.eye(1, dtype=complex))
    for n in range(1, s.N + 1):
        Xi = la.inv(X[n - 1])
        s.A[n] = np.einsum('ab,sbc,cd->sad', Xi, s.A[n], X[n])


def snapshot(s):
    return dict((nm, [np.array(arr(x)) for x in getattr(s, nm)[k:]]) for nm, k in (("A", 1), ("l", 0), ("r", 0)))


def readonly(s, snap, sig):
    for nm, k in (("A", 1), ("l", 0), ("r", 0)):
        now = getattr(s, nm)
        need(len(now) - k == len(snap[nm]), sig, "measuring changed the number of %s", nm)
        for n, x in enumerate(snap[nm]):
            need(np.array_equal(x, arr(now[n + k])), sig, "measuring changed %s[%d]", nm, n + k)


class GaugeWorld(GenWorld):
    """F01: all histories of canonical-form restorations, updates, gauge
    changes, rescalings and unsynchronised operator applications."""
    name = "gen.gauge"

    def __init__(self, sig="gauge"):
        pass

    def configs(self, tier):
        if tier == "quick":
            for c in gen_cfgs([1, 2, 3]):
                yield dict(c, depth=2 if len(c["q"]) < 3 or (c["form"] == "right" and c["kind"] in ("rand", "low", "gauge")) else 1)
            for c in gen_cfgs([4], kinds=["gauge", "low"], qfilter=lambda q: q in ((2, 2, 2, 2), (2, 3, 2, 3), (3, 2, 2, 2))):
                yield dict(c, depth=1)
            for c in gen_cfgs([2, 3], kinds=["near"]):
                if max(c["D"]) > 1:
                    yield dict(c, depth=1)
            for c in long_cfgs(["gauge", "low"]):
                yield dict(c, depth=1)
        else:
            for c in long_cfgs(["gauge", "low", "near"]):
                yield dict(c, depth=2)
            for c in gen_cfgs([2, 3], kinds=["near"]):
                if max(c["D"]) > 1:
                    yield dict(c, depth=2)
            for c in gen_cfgs([1, 2]):
                yield dict(c, depth=4)
            for c in gen_cfgs([3]):
                yield dict(c, depth=3 if c["kind"] in ("rand", "low", "gauge") else 2)
            for c in gen_cfgs([4]):
                yield dict(c, depth=2 if c["kind"] in ("low", "gauge") else 1)
            for c in gen_cfgs([5], kinds=["gauge", "low"], qfilter=lambda q: q in ((2,) * 5, (2, 3, 2, 3, 2), (3, 2, 2, 2, 3))):
                yield dict(c, depth=1)

    def depth_for(self, cfg, tier):
        return cfg["depth"]

    def actions(self, st):
        acts = []
        for norm in (True, False):
            acts.append(("update", True, norm))
            acts.append(("update", False, norm))
        acts.append(("update_at", True))
        acts.append(("update_at", False))
        for d in ("rcf", "lcf"):
            for qr in (True, False):
                for diag in (True, False):
                    for norm in (True, False):
                        if not qr and not diag and not norm:
                            continue
                        acts.append((d, qr, diag, norm))
        acts.append(("form",))
        acts.append(("gauge",))
        acts.append(("scale",))
        acts.append(("scale", 1e-7))
        acts.append(("scale", 1e6j))
        acts.append(("renorm", True))
        acts.append(("renorm", False))
        acts.append(("lr",))
        for n in sorted(set((1, 1 + st.s.N // 2, st.s.N))):
            acts.append(("op_partial", n))
        acts.append(("op", "g", 1 + st.s.N // 2))
        if st.s.N >= 2:
            acts.append(("mpo", "asym", 1))
        acts.append(("sanity",))
        return acts

    def step(self, st, act):
        s, psi = st.s, st.psi
        nrm = la.norm(psi)
        k = act[0]
        if k == "form":
            s.canonical_form = "left" if s.canonical_form == "right" else "right"
            st.cf = None
            return st
        if k == "sanity":
            if s.sanity_checks:
                raise Disabled()
            s.sanity_checks = True
            return st
        if k == "gauge":
            random_gauge(s, "w")
            st.fresh = False
            st.cf = None
            self.same(st, psi, "harness.gauge")
            return st
        if k == "renorm":
            # needs an up-to-date l; with update_r also brings r up to date
            with Guard("gauge.renorm"):
                if act[1]:
                    s.calc_l()
                    s.calc_r()
                    s.simple_renorm()
                else:
                    s.calc_l()
                    s.simple_renorm(update_r=False)
                    s.calc_r()
            st.fresh = True
            st.cf = None
            self.same(st, psi / nrm, "gauge.renorm.state")
            return st
        if k == "lr":
            with Guard("gauge.calc_lr"):
                s.calc_r()
                s.calc_l()
            st.fresh = True
            self.same(st, psi, "gauge.calc_lr.state")
            return st
        if k == "op_partial":
            # only what lies on the far side of a changed tensor is recomputed
            if not st.fresh:
                raise Disabled()
            n = act[1]
            o = op1("h", s.q[n])
            want = ref.op_apply(psi, o, [n - 1])
            if la.norm(want) < 1e-6 * nrm:
                raise Disabled()
            with Guard("gauge.partial"):
                s.apply_op_1s(o, n, do_update=False)
                s.calc_l(n_low=n)
                s.calc_r(n_high=n - 1)
            st.cf = None
            self.same(st, want, "gauge.partial.state")
            return st
        if k == "scale":
            z = act[1] if len(act) > 1 else 0.31 - 1.7j
            if len(act) > 1 and not 1e-3 < nrm < 1e3:
                raise Disabled()
            s.A[(s.N + 1) // 2] = s.A[(s.N + 1) // 2] * z
            st.psi = psi * z
            st.fresh = False
            st.cf = None
            return st
        if k == "op":
            n = act[2]
            o = op1(act[1], s.q[n])
            with Guard("gauge.op"):
                s.apply_op_1s(o, n, do_update=False)
            st.fresh = False
            st.cf = None
            self.same(st, ref.op_apply(psi, o, [n - 1]), "gauge.op")
            return st
        if k == "mpo":
            n = act[2]
            W = mpo(act[1], [int(x) for x in s.q[1:]])
            if max(s.D) > 3:
                raise Disabled()
            with Guard("gauge.mpo"):
                s.apply_op_MPO(W, n, do_update=False)
            st.fresh = False
            st.cf = None
            want = ref.mpo_dense(W).dot(psi.ravel()).reshape(psi.shape)
            self.same(st, want, "gauge.mpo")
            return st
        low = not self.fullrank(st)
        if k == "update":
            _, rcf, norm = act
            if not rcf and norm and not nrm > 0:
                raise Disabled()
            with Guard("gauge.update"):
                s.update(restore_CF=rcf, normalize=norm)
            st.fresh = True
            st.cf = (s.canonical_form, True) if rcf else None
            self.same(st, psi / nrm if norm else psi, "gauge.update.state")
            return st
        if k == "update_at":
            with Guard("gauge.update_at"):
                s.update(auto_truncate=True, restore_CF_after_trunc=act[1])
            st.fresh = True
            st.cf = (s.canonical_form, True) if act[1] else None
            self.same(st, psi / nrm, "gauge.update_at.state", 1e-6)
            # no vanishing Schmidt weights are kept, none that matter dropped
            for n in range(1, s.N):
                lam = ref.schmidt_sq(st.psi, n)
                rank = int((lam > 1e-10).sum())
                rank_hi = int((lam > 1e-20).sum())
                need(rank <= s.D[n], "gauge.update_at.rank",
                     "bond %d: Schmidt rank %d but D=%d", n, rank, s.D[n])
                w = np.sort(np.diag(arr(s.l[n] if s.canonical_form == "right" else s.r[n])).real)
                if act[1]:
                    need(w[0] > 1e-16 or s.D[n] == 1, "gauge.update_at.kept",
                         "bond %d keeps a vanishing Schmidt weight %g", n, w[0])
            return st
        _, qr, diag, norm = act
        if not qr and nrm < 1e-3:
            # the Cholesky path takes zero_tol as an absolute bound on weights
            raise Disabled()
        with Guard("gauge." + k):
            if k == "rcf":
                s.restore_RCF(use_QR=qr, diag_l=diag, normalize_mps=norm)
            else:
                s.restore_LCF(use_QR=qr, diag_r=diag, normalize_mps=norm)
        form = "right" if k == "rcf" else "left"
        st.fresh = qr or not low
        self.same(st, psi / nrm if norm else psi, "gauge.%s.state" % k, 1e-6 if low else None)
        st.cf = (form, diag) if st.fresh else None
        if st.fresh:
            check_cf(s, form, la.norm(st.psi) ** 2, diag=diag, sig="gauge." + k,
                     tol=1e-8 if qr else 1e-6)
        return st

    def check(self, st):
        s = st.s
        check_shapes(s, "gauge.shapes")
        if st.fresh:
            check_lr(s, "gauge.lr", 1e-6)
        if st.cf is not None:
            check_cf(s, st.cf[0], la.norm(st.psi) ** 2, diag=st.cf[1], sig="gauge.cf", tol=1e-6)
        # Schmidt ranks can never exceed the declared bond dimensions
        for n in range(1, s.N):
            lam = ref.schmidt_sq(st.psi, n)
            need((lam > 1e-10).sum() <= s.D[n], "gauge.D", "bond %d", n)
        if st.fresh:
            self.rcf_report(s)

    def rcf_report(self, s):
        """What check_RCF() says, judged away from its tolerances."""
        with Guard("gauge.check_RCF"):
            got = s.check_RCF()
        need(len(got) == 5, "gauge.check_RCF", "%s", got)
        ls = [arr(s.l[n]) for n in range(1, s.N + 1)]
        rs = [arr(s.r[n]) for n in range(1, s.N + 1)]
        eps = np.finfo(float).eps
        dev = (max(np.abs(r - np.eye(len(r))).max() for r in rs) / (2 * eps),
               max(abs(np.trace(x) - 1) for x in ls) / (1000 * eps),
               None,
               max(np.abs(x - np.diag(np.diag(x))).max() for x in ls) / 1e-8,
               np.abs(ls[-1] - 1).max() / (1000 * eps))
        for i, (g, d) in enumerate(zip(got, dev)):
            if d is not None and not .2 < d < 5:
                need(bool(g) == (d < 1), "gauge.check_RCF", "entry %d is %s, deviation %g times the tolerance", i, g, d)
        low = min(la.eigvalsh((x + x.conj().T) / 2)[0] / max(la.norm(x), 1e-300) for x in ls)
        if abs(low) > 1e-12:
            need(bool(got[2]) == (low > 0), "gauge.check_RCF", "positivity is reported as %s, smallest relative eigenvalue %g", got[2], low)


class ObsWorld(GenWorld):
    """F02: every observable method in every reachable representation."""
    name = "gen.obs"
    depth = 1

    def depth_for(self, cfg, tier):
        if tier == "quick":
            return 2 if len(cfg["q"]) <= 3 else 1
        return 3 if len(cfg["q"]) <= 3 else 2

    def configs(self, tier):
        if tier == "quick":
            for c in gen_cfgs([1, 2, 3]):
                yield c
            for c in gen_cfgs([4], kinds=["gauge", "low"], qfilter=lambda q: q in ((2, 3, 2, 3), (2, 2, 2, 2))):
                yield c
            for c in long_cfgs(["gauge"]):
                yield c
        else:
            for c in gen_cfgs([1, 2, 3, 4]):
                yield c
            for c in long_cfgs(["gauge", "low"]):
                yield c
            for c in gen_cfgs([5], kinds=["gauge", "low"], qfilter=lambda q: q in ((2,) * 5, (2, 3, 2, 3, 2), (3, 2, 2, 2, 3))):
                yield c

    def actions(self, st):
        return [("update", True), ("update", False), ("lcf",), ("rcf",), ("rcf0",), ("lcf0",), ("at",)]

    def step(self, st, act):
        s, psi = st.s, st.psi
        with Guard("obs.update"):
            if act[0] == "update":
                s.update(restore_CF=act[1])
            elif act[0] == "at":
                s.update(auto_truncate=True)
            elif act[0] == "lcf":
                s.restore_LCF()
            elif act[0] == "rcf":
                s.restore_RCF()
            elif act[0] == "lcf0":
                s.restore_LCF(diag_r=False)
            elif act[0] == "rcf0":
                s.restore_RCF(diag_l=False)
        st.psi = psi / la.norm(psi)
        st.fresh = True
        return st

    def check(self, st):
        if not st.fresh:
            return
        s, psi = st.s, st.psi
        N = s.N
        q = [int(x) for x in s.q[1:]]
        snap = snapshot(s)
        t = 1e-7
        for n in range(1, N + 1):
            for nm in ("z", "g", "up", "h"):
                o = op1(nm, q[n - 1])
                with Guard("obs.expect_1s"):
                    v = s.expect_1s(o, n)
                    vc = s.expect_1s(as_callable(o, [q[n - 1]]), n) if nm == "g" else v
                w = ref.expect(psi, o, [n - 1])
                close(v, w, "obs.expect_1s", t, what="<%s_%d>" % (nm, n))
                close(vc, w, "obs.expect_1s.callable", t, what="<%s_%d>" % (nm, n))
        for hs, f in ((2, "expect_2s"), (3, "expect_3s")):
            for n in range(1, N - hs + 2):
                qs = q[n - 1:n - 1 + hs]
                for nm in ("g", "h"):
                    o = opk(nm, qs)
                    ot = o.reshape(qs * 2)
                    with Guard("obs." + f):
                        v = getattr(s, f)(ot, n)
                        vc = getattr(s, f)(as_callable(o, qs), n) if nm == "g" and np.prod(qs) <= 12 else v
                    w = ref.expect(psi, o, list(range(n - 1, n - 1 + hs)))
                    close(v, w, "obs." + f, t, what="n=%d" % n)
                    close(vc, w, "obs.%s.callable" % f, t, what="n=%d" % n)
        # two operators at a distance
        for n1 in range(1, N + 1):
            for n2 in range(n1 + 1, N + 1):
                oa, ob = op1("g", q[n1 - 1]), op1("up", q[n2 - 1])
                with Guard("obs.expect_1s_1s"):
                    v = s.expect_1s_1s(oa, ob, n1, n2)
                    vc = s.expect_1s_1s(as_callable(oa, [q[n1 - 1]]), as_callable(ob, [q[n2 - 1]]), n1, n2)
                w = ref.expect(psi, np.kron(oa, ob), [n1 - 1, n2 - 1])
                close(v, w, "obs.expect_1s_1s", t, what="n1=%d n2=%d" % (n1, n2))
                close(vc, w, "obs.expect_1s_1s.callable", t, what="n1=%d n2=%d" % (n1, n2))
        for n1 in range(1, N + 1):
            for d in range(0, N - n1 + 1):
                if len(set(q[n1 - 1:n1 + d])) > 1:
                    continue
                qq = q[n1 - 1]
                for na, nb in (("g", "z"), ("g", "g")):
                    oa, ob = op1(na, qq), op1(nb, qq)

                    def pair(j):
                        if j == 0:
                            return ref.expect(psi, oa.dot(ob), [n1 - 1])
                        return ref.expect(psi, np.kron(oa, ob), [n1 - 1, n1 - 1 + j])
                    e1 = np.array([ref.expect(psi, oa, [n1 - 1 + j]) for j in range(d + 1)])
                    e2 = np.array([ref.expect(psi, ob, [n1 - 1 + j]) for j in range(d + 1)])
                    g = np.array([pair(j) for j in range(d + 1)])
                    with Guard("obs.correlation"):
                        if d == N - n1 and na != nb:
                            cc = s.correlation_1s_1s(as_callable(oa, [qq]), as_callable(ob, [qq]), n1, d)
                            close(cc, g - e1[0] * e2, "obs.correlation.callable", t, what="n1=%d d=%d" % (n1, d))
                        if d >= 1:
                            gi = s.expect_1s_1s(oa, ob, n1, n1 + d, return_intermediates=True)
                            close(gi, g, "obs.intermediates", t, what="n1=%d d=%d" % (n1, d))
                        c = s.correlation_1s_1s(oa, ob, n1, d)
                        close(c, g - e1[0] * e2, "obs.correlation", t, what="n1=%d d=%d" % (n1, d))
                        c, x1, x2 = s.correlation_1s_1s(oa, ob, n1, d, return_exvals=True)
                    close(c, g - e1[0] * e2, "obs.correlation", t)
                    close(x1, e1, "obs.correlation.exvals", t, what="ex1 n1=%d d=%d" % (n1, d))
                    close(x2, e2, "obs.correlation.exvals", t, what="ex2 n1=%d d=%d" % (n1, d))
                # strings of lengths 1..d starting at n1
                L = d + 1
                o = op1("g", qq)
                want = []
                M = np.eye(1)
                for j in range(L):
                    M = np.kron(M, o)
                    want.append(ref.expect(psi, M, list(range(n1 - 1, n1 + j))))
                with Guard("obs.string"):
                    v = s.expect_string_1s(o, n1, L)
                    vc = s.expect_string_1s(as_callable(o, [qq]), n1, L)
                close(v, np.array(want), "obs.string", t, what="n=%d d=%d" % (n1, L))
                close(vc, np.array(want), "obs.string.callable", t, what="n=%d d=%d" % (n1, L))
        # MPOs on every window
        for n1 in range(1, N + 1):
            for n2 in range(n1, N + 1):
                qs = q[n1 - 1:n2]
                for nm in ("g2", "asym"):
                    W = mpo(nm, qs)
                    with Guard("obs.mpo"):
                        v = s.expect_MPO(W, n1)
                    w = ref.expect(psi, ref.mpo_dense(W), list(range(n1 - 1, n2)))
                    close(v, w, "obs.mpo", t, what="%s sites %d..%d" % (nm, n1, n2))
        readonly(s, snap, "obs.readonly")


class RdmWorld(ObsWorld):
    """F03: reduced states, Schmidt spectra, entropy, inner products."""
    name = "gen.rdm"

    def check(self, st):
        if not st.fresh:
            return
        s, psi = st.s, st.psi
        N = s.N
        q = [int(x) for x in s.q[1:]]
        snap = snapshot(s)
        t = 1e-7
        for n in range(1, N + 1):
            with Guard("rdm.density_1s"):
                rho = s.density_1s(n)
            close(rho, ref.rdm(psi, [n - 1]).T, "rdm.density_1s", t, what="site %d" % n)
        for a in range(1, N + 1):
            for b in range(a + 1, N + 1):
                with Guard("rdm.density_2s"):
                    rho = s.density_2s(a, b)
                close(rho, ref.rdm(psi, [a - 1, b - 1]).T, "rdm.density_2s", t, what="sites %d,%d" % (a, b))
        for n in range(0, N + 1):
            lam = ref.schmidt_sq(psi, n) if 0 < n < N else np.array([1.])
            with Guard("rdm.schmidt"):
                S, got2 = s.entropy(n, ret_schmidt_sq=True)
                S0 = s.entropy(n)
                got = s.schmidt_sq(n)
            got = np.sort(np.real(np.asarray(got)))[::-1]
            k = max(len(got), len(lam))
            x = np.zeros(k)
            x[:len(lam)] = lam
            y = np.zeros(k)
            y[:len(got)] = got
            close(y, x, "rdm.schmidt", t, what="cut %d" % n)
            close(np.sort(np.real(got2)), np.sort(got), "rdm.schmidt", t, what="cut %d" % n)
            S1 = ref.entropy_bits(lam[lam > 1e-14])
            close(np.real(S), S1, "rdm.entropy", 1e-5, what="cut %d" % n)
            close(np.real(S0), S1, "rdm.entropy", 1e-5, what="cut %d" % n)
        with Guard("rdm.inner"):
            v = s.inner(s)
        close(v, 1., "rdm.norm", t, what="<psi|psi>")
        for kind in ("rand", "gauge"):
            for D in d_profiles(q, 2)[-2:]:
                o = make_mps(dict(q=q, D=D, kind=kind, seed=5))
                ov = vec(o)
                with Guard("rdm.inner"):
                    v = s.inner(o)
                    v2 = o.inner(s)
                sc = la.norm(ov)
                close(v / sc, np.vdot(ov, psi) / sc, "rdm.inner", t, 1.0, what="<other|this>")
                close(v2 / sc, np.vdot(psi, ov) / sc, "rdm.inner", t, 1.0, what="<this|other>")
        readonly(s, snap, "rdm.readonly")


class TruncWorld(GenWorld):
    """F04: truncation to every admissible profile, from both canonical forms."""
    name = "gen.trunc"
    depth = 2

    def depth_for(self, cfg, tier):
        return 2 if tier == "quick" else 3

    def configs(self, tier):
        ks = ["rand", "gauge", "low", "ghz", "init"]
        if tier == "quick":
            for c in gen_cfgs([2, 3], kinds=ks):
                yield c
            for c in gen_cfgs([4], kinds=["gauge", "low"], Dmax=4, qfilter=lambda q: q in ((2, 2, 2, 2), (2, 3, 2, 2))):
                yield c
            for c in gen_cfgs([2, 3], kinds=["tiny", "near"]):
                if max(c["D"]) > 1:
                    yield c
        else:
            for c in gen_cfgs([2, 3, 4], Dmax=4, kinds=ks):
                yield c
            for c in gen_cfgs([5], kinds=["gauge", "low"], Dmax=3, qfilter=lambda q: q in ((2,) * 5, (2, 3, 2, 3, 2))):
                yield c

    def init(self, cfg):
        st = GenWorld.init(self, cfg)
        with Guard("trunc.update"):
            st.s.update()
        st.psi = vec(st.s)
        st.fresh = True
        return st

    def actions(self, st):
        s = st.s
        out = [("auto", True), ("auto", False), ("auto_tol",)]
        out += [("auto_gap", i) for i in range(sum(int(d) for d in s.D[1:-1]))]
        ranges = [range(1, int(d) + 1) for d in s.D]
        ranges[0] = [1]
        ranges[-1] = [1]
        q = s.q
        for D in itertools.product(*ranges):
            if all(D[n] <= D[n - 1] * q[n] and D[n - 1] <= D[n] * q[n] for n in range(1, s.N + 1)):
                out.append(("to", tuple(int(x) for x in D), True))
                if sum(int(a) - b for a, b in zip(s.D, D)) <= 1:
                    out.append(("to", tuple(int(x) for x in D), False))
        return out

    def step(self, st, act):
        s, psi = st.s, st.psi
        lam = [ref.schmidt_sq(psi, n) if 0 < n < s.N else np.array([1.]) for n in range(s.N + 1)]
        D0 = [int(x) for x in s.D]
        if act[0] == "to":
            _, D, upd = act
            if sum(float(lam[n][D[n]:].sum()) for n in range(s.N + 1)) > 0.98:
                # degenerate weights: even the zero vector is admissible
                raise Disabled()
            with Guard("trunc.truncate"):
                s.truncate(list(D), update=upd)
                if not upd:
                    s.update()
            need([int(x) for x in s.D] == list(D) or all(int(a) <= b for a, b in zip(s.D, D)),
                 "trunc.D", "asked for %s, got %s", D, list(s.D))
        elif act[0] == "auto_gap":
            # a tolerance between two neighbouring weights of the whole chain
            w = np.sort(np.concatenate([[x for x in l if x > 1e-13] for l in lam[1:-1]]))[::-1]
            i = act[1]
            if i + 1 >= len(w) or w[i] < 1.5 * w[i + 1]:
                raise Disabled()
            tol = np.sqrt(w[i] * w[i + 1])
            D = [1] + [int((l > tol).sum()) for l in lam[1:-1]] + [1]
            if min(D) < 1 or any(D[n] > D[n - 1] * s.q[n] or D[n - 1] > D[n] * s.q[n] for n in range(1, s.N + 1)):
                raise Disabled()
            if sum(float(lam[n][D[n]:].sum()) for n in range(s.N + 1)) > 0.9:
                raise Disabled()
            with Guard("trunc.auto"):
                r = s.auto_truncate(zero_tol=tol)
            need(bool(r) == (D != D0), "trunc.auto.flag", "returned %s, D %s -> %s", r, D0, list(s.D))
            need([int(x) for x in s.D] == D, "trunc.auto_tol", "D=%s for the weights above %g, expected %s", list(s.D), tol, D)
        elif act[0] == "auto_tol":
            with Guard("trunc.auto"):
                r = s.auto_truncate(zero_tol=0.04)
            D = [1] + [int((l > 0.04).sum()) for l in lam[1:-1]] + [1]
            if any(np.any(abs(l - 0.04) < 1e-6) for l in lam):
                raise Disabled()
            for n in range(1, s.N):
                need(s.D[n] <= D[n], "trunc.auto_tol", "bond %d has D=%d, %d weights exceed the tolerance", n, s.D[n], D[n])
            need(bool(r) == (D != D0), "trunc.auto.flag", "returned %s, D %s -> %s", r, D0, list(s.D))
        else:
            with Guard("trunc.auto"):
                r = s.auto_truncate(update=act[1])
                if not act[1]:
                    s.update()
            D = [1] + [int((l > 1e-15).sum()) for l in lam[1:-1]] + [1]
            need(bool(r) == ([int(x) for x in s.D] != D0), "trunc.auto.flag",
                 "returned %s, D %s -> %s", r, D0, list(s.D))
            close(vec(s), psi, "trunc.auto.state", 1e-6, 1.0, "state vector")
            st.psi = psi
            for n in range(1, s.N):
                need(s.D[n] >= (lam[n] > 1e-13).sum(), "trunc.auto.rank", "bond %d", n)
                w = np.diag(arr(s.l[n] if s.canonical_form == "right" else s.r[n])).real
                need(s.D[n] == 1 or w.min() > 1e-16, "trunc.auto.kept", "bond %d weight %g", n, w.min())
            check_shapes(s, "trunc.shapes")
            check_lr(s, "trunc.lr", 1e-6)
            return st
        new = vec(s)
        close(la.norm(new), 1., "trunc.norm", 1e-9, what="norm after truncation")
        # the sum of the discarded weights bounds the infidelity from above and
        # the largest single-bond loss from below
        Dn = list(D)
        disc = [float(lam[n][Dn[n]:].sum()) for n in range(s.N + 1)]
        f = abs(np.vdot(psi, new)) ** 2
        lo = max(disc)
        need(1 - f >= lo - 1e-7, "trunc.too_good", "infidelity %g below the optimum %g", 1 - f, lo)
        nb = sum(1 for x in disc if x > 1e-12)
        if nb <= 1:
            # a single truncated bond: exactly the optimal (Eckart-Young) state
            gap_ok = True
            for n in range(1, s.N):
                if disc[n] > 1e-12 and Dn[n] < len(lam[n]) and abs(lam[n][Dn[n] - 1] - lam[n][Dn[n]]) < 1e-8:
                    gap_ok = False
            need(abs((1 - f) - lo) <= 1e-7, "trunc.optimal",
                 "infidelity %g, optimum %g (D %s -> %s, weights %s)", 1 - f, lo, D0, Dn, [list(x) for x in lam[1:-1]])
        elif sum(disc) < 0.25:
            # sum-of-weights bound of successive truncation, with slack for the
            # renormalisation
            need(1 - f <= 2 * sum(disc) + 1e-7, "trunc.bound",
                 "infidelity %g exceeds twice the discarded weight %g (D %s -> %s)", 1 - f, sum(disc), D0, Dn)
        st.psi = new
        return st

    def check(self, st):
        s = st.s
        check_shapes(s, "trunc.shapes")
        check_lr(s, "trunc.lr", 1e-6)
        check_cf(s, s.canonical_form, 1.0, sig="trunc.cf", tol=1e-6)


class PrepWorld(GenWorld):
    """F05: preparation, operator application, randomness, persistence."""
    name = "gen.prep"
    depth = 2

    def configs(self, tier):
        if tier == "quick":
            for c in gen_cfgs([1, 2, 3], kinds=["gauge", "low", "init"]):
                yield dict(c, depth=1 if len(c["q"]) == 3 and c["form"] == "left" else 2)
        else:
            for c in gen_cfgs([1, 2], kinds=KINDS):
                yield dict(c, depth=3)
            for c in gen_cfgs([3, 4], kinds=["gauge", "low", "init"], Dmax=2):
                yield dict(c, depth=2)

    def depth_for(self, cfg, tier):
        return cfg["depth"]

    def actions(self, st):
        s = st.s
        N = s.N
        out = [("product", True), ("product", False), ("product_basis", True),
               ("randomize", True), ("randomize", False), ("noise", True), ("noise", False),
               ("init",), ("save", True), ("save", False), ("load_other",),
               ("from_tensors",), ("from_tensors", False), ("set_tensors", True), ("set_tensors", False),
               ("set_tensors_D",), ("set_tensors_q", len(s.q) % 2 == 0), ("load_raw",)]
        for n in sorted(set((1, N, (N + 1) // 2))):
            for nm in ("g", "up"):
                out.append(("op", nm, n, True))
            out.append(("op_callable", n))
        out.append(("op", "g", 1, False))
        for n1 in range(1, N + 1):
            for n2 in range(n1, N + 1):
                out.append(("mpo", "asym" if n2 > n1 else "g1", n1, n2))
        return out

    def step(self, st, act):
        s, psi = st.s, st.psi
        N = s.N
        q = [int(x) for x in s.q[1:]]
        k = act[0]
        D0 = list(s.D)
        seed_for("prep", act)
        if k.startswith("product"):
            rng = ref.rng_for("pp", tuple(q), k)
            if k == "product":
                v = [ref.cgauss(rng, (x,)) for x in q]
            else:
                v = [np.eye(x)[(i + 1) % x] for i, x in enumerate(q)]
            with Guard("prep.product"):
                s.set_state_product(v, do_update=act[1])
            want = v[0].astype(complex)
            for x in v[1:]:
                want = np.multiply.outer(want, x)
            self.same(st, want / la.norm(want) if act[1] else want, "prep.product")
            need(list(s.D) == D0, "prep.product.D", "D %s -> %s", D0, list(s.D))
            st.fresh = act[1]
        elif k == "randomize":
            with Guard("prep.randomize"):
                s.randomize(do_update=act[1])
            st.psi = vec(s)
            st.fresh = act[1]
            need(np.all(np.isfinite(st.psi)) and la.norm(st.psi) > 0, "prep.randomize", "bad state")
            need(list(s.D) == D0, "prep.randomize.D", "D %s -> %s", D0, list(s.D))
            if act[1]:
                close(la.norm(st.psi), 1., "prep.randomize.norm", 1e-9)
            feasible = feasible_D(q, s.D)
            for n in range(1, N):
                lam = ref.schmidt_sq(st.psi, n)
                need((lam > 1e-14).sum() == feasible[n], "prep.randomize.rank",
                     "bond %d rank %d < D=%d", n, (lam > 1e-14).sum(), s.D[n])
        elif k == "noise":
            B = tensors(s)
            B = [b.copy() for b in B]
            with Guard("prep.noise"):
                s.add_noise(0.01, do_update=False)
            for n in range(1, N + 1):
                dA = s.A[n] - B[n - 1]
                need(np.max(np.abs(dA.real)) <= 0.01 + 1e-12 and np.max(np.abs(dA.imag)) <= 0.01 + 1e-12,
                     "prep.noise.size", "noise larger than requested: %g", np.max(np.abs(dA)))
                need(la.norm(dA) > 0, "prep.noise.none", "A[%d] unchanged", n)
            st.psi = vec(s)
            st.fresh = False
            if act[1]:
                with Guard("prep.noise"):
                    s.add_noise(0.0, do_update=True)
                self.same(st, st.psi / la.norm(st.psi), "prep.noise.update")
                st.fresh = True
        elif k == "init":
            if feasible_D(q, D0) != [int(x) for x in D0]:
                raise Disabled()
            with Guard("prep.init"):
                s.initialize_state()
            st.psi = vec(s)
            close(la.norm(st.psi), 1., "prep.init.norm", 1e-9, what="norm of the initial state")
            st.fresh = False
        elif k in ("save", "load_other"):
            fd, fn = tempfile.mkstemp(suffix=".npy", prefix="evomc_")
            os.close(fd)
            try:
                with Guard("prep.save"):
                    s.save_state(fn)
                if k == "save":
                    o = s
                    if act[1]:
                        with Guard("prep.save"):
                            s.randomize()
                else:
                    o = mg.EvoMPS_MPS_Generic(N, [1] * (N + 1), list(s.q))
                    o.canonical_form = s.canonical_form
                if k == "save" and N <= 2 and max(D0) <= 2:
                    # a file whose writing was interrupted, at every byte
                    data = open(fn, "rb").read()
                    T0, D1 = [a.copy() for a in tensors(o)], list(o.D)
                    for cut in range(len(data)):
                        with open(fn, "wb") as f:
                            f.write(data[:cut])
                        try:
                            with env.quiet():
                                o.load_state(fn)
                        except Exception:
                            pass
                        else:
                            need(False, "prep.load.torn", "loaded a file cut after %d of %d bytes", cut, len(data))
                        need(list(o.D) == D1 and all(np.array_equal(a, b) for a, b in zip(T0, tensors(o))),
                             "prep.load.torn", "a file cut after %d of %d bytes changed the object", cut, len(data))
                    with open(fn, "wb") as f:
                        f.write(data)
                with Guard("prep.load"):
                    o.load_state(fn)
                st.s = s = o
                self.same(st, psi / la.norm(psi), "prep.load.state")
                st.fresh = True
                need(list(s.D) == D0 or s.D.max() <= max(D0), "prep.load.D", "D %s -> %s", D0, list(s.D))
            finally:
                os.unlink(fn)
            if s.canonical_form != "right" and k == "load_other":
                return st
        elif k == "load_raw":
            fd, fn = tempfile.mkstemp(suffix=".npy", prefix="evomc_")
            os.close(fd)
            try:
                with Guard("prep.load"):
                    s.save_state(fn)
                    s.set_state_product([np.ones(x) for x in q])
                    s.load_state(fn, do_update=False)
            finally:
                os.unlink(fn)
            self.same(st, psi, "prep.load.raw")
            st.fresh = False
        elif k == "from_tensors":
            A = [None] + [a.copy() for a in tensors(s)]
            if len(act) > 1:
                with Guard("prep.from_tensors"):
                    o = mg.mps_from_tensors_gen(A, do_update=False)
                o.canonical_form = s.canonical_form
                need(all(not np.shares_memory(a, b) for a in A[1:] for b in tensors(o)), "prep.from_tensors.alias",
                     "the new object shares memory with the tensors it was made from")
                need([int(x) for x in o.D] == [1] + [a.shape[2] for a in A[1:]] and [int(x) for x in o.q[1:]] == q,
                     "prep.from_tensors.dims", "D=%s q=%s", list(o.D), list(o.q))
                st.s = o
                self.same(st, psi, "prep.from_tensors")
                st.fresh = False
                return st
            with Guard("prep.from_tensors"):
                o = mg.mps_from_tensors_gen(A)
            o.canonical_form = s.canonical_form
            if o.canonical_form != "right":
                with Guard("prep.from_tensors"):
                    o.update()
            st.s = s = o
            self.same(st, psi / la.norm(psi), "prep.from_tensors")
            st.fresh = True
        elif k in ("set_tensors", "set_tensors_D"):
            D = d_profiles(q, 2)[-1] if k == "set_tensors" else [1] * (N + 1)
            A = raw_tensors(dict(q=q, D=D, kind="rand", seed=9))
            want = ref.dense(A)
            upd = act[1] if len(act) > 1 else True
            with Guard("prep.set_tensors"):
                s.set_state_from_tensors([None] + A, do_update=upd)
            self.same(st, want / la.norm(want) if upd else want, "prep.set_tensors")
            st.fresh = upd
        elif k == "set_tensors_q":
            # other site dimensions
            q2 = [5 - x for x in q] if all(x in (2, 3) for x in q) else q
            D = d_profiles(q2, 3)[-1]
            A = raw_tensors(dict(q=q2, D=D, kind="rand", seed=4))
            want = ref.dense(A)
            with Guard("prep.set_tensors"):
                if act[1]:
                    s.set_state_from_tensors([None] + A)
                else:
                    s.set_state_from_tensors([None] + A, do_update=False)
            need([int(x) for x in s.q[1:]] == list(q2), "prep.set_tensors.q", "site dimensions %s, tensors have %s", list(s.q[1:]), q2)
            if not act[1]:
                need([int(x) for x in s.D] == list(D), "prep.set_tensors.D", "bond dimensions %s, tensors have %s", list(s.D), D)
            self.same(st, want / la.norm(want) if act[1] else want, "prep.set_tensors")
            st.fresh = act[1]
        elif k in ("op", "op_callable"):
            n = act[2] if k == "op" else act[1]
            o = op1(act[1], q[n - 1]) if k == "op" else op1("h", q[n - 1])
            upd = act[3] if k == "op" else True
            want = ref.op_apply(psi, o, [n - 1])
            if la.norm(want) < 1e-6 * la.norm(psi):
                raise Disabled()
            with Guard("prep.op"):
                s.apply_op_1s(o if k == "op" else as_callable(o, [q[n - 1]]), n, do_update=upd)
            self.same(st, want / la.norm(want) if upd else want, "prep.op")
            st.fresh = upd
        elif k == "mpo":
            _, nm, n1, n2 = act
            if max(s.D) > 3:
                raise Disabled()
            W = mpo(nm, q[n1 - 1:n2])
            want = ref.op_apply(psi, ref.mpo_dense(W), list(range(n1 - 1, n2)))
            if la.norm(want) < 1e-6 * la.norm(psi):
                raise Disabled()
            with Guard("prep.mpo"):
                s.apply_op_MPO(W, n1)
            self.same(st, want / la.norm(want), "prep.mpo")
            st.fresh = True
        return st

    def check(self, st):
        s = st.s
        check_shapes(s, "prep.shapes")
        if st.fresh:
            check_lr(s, "prep.lr", 1e-6)
            check_cf(s, s.canonical_form, 1.0, sig="prep.cf", tol=1e-6)
