"""U09: conjugate gradients and line searches on infinite chains."""
import copy
import itertools
import warnings
import numpy as np
import scipy.linalg as la

from .uni_common import *
from .w_utdvp import *

import evoMPS.tdvp_uniform as tu
from evoMPS.mps_uniform import EvoMPSNoConvergence, EvoMPSNormError


def env_of(s):
    A = [np.array(a) for a in s.A]
    return A, [arr(x) for x in s.l], [arr(x) for x in s.r]


def gauge_fix(s, Y):
    """The right-gauge-fixed tensors of the (zero momentum) tangent vector Y,
    from the overlaps with every gauge-fixed tangent vector."""
    A, l, r = env_of(s)
    L, q, D = s.L, s.q, s.D
    one = [np.array([sum(Y[k][t].dot(r[k]).dot(A[k][t].conj().T) for t in range(q))])[0] for k in range(L)]
    # R[k]: everything from Y at sites >= k, right of bond k-1, without the
    # disconnected (parallel) part
    X = np.zeros((D, D), dtype=complex)
    for k in range(L - 1, -1, -1):
        X = right_map(A[k], X) + one[k]
    E, _ = uref.block_E(A)
    P = np.outer(r[-1].ravel(), l[-1].conj().ravel())
    X = X - r[-1] * np.vdot(l[-1], X)
    R = [None] * L
    R[0] = la.solve(np.eye(D * D) - E + P, X.ravel()).reshape(D, D)
    for k in range(L - 1, 0, -1):
        R[k] = right_map(A[k], R[(k + 1) % L]) + one[k]
    out = []
    for k in range(L):
        Z = np.array([Y[k][t] + A[k][t].dot(R[(k + 1) % L]).dot(la.inv(r[k])) for t in range(q)])
        c = sum(Z[t].dot(r[k]).dot(A[k][t].conj().T) for t in range(q)).dot(la.inv(r[k - 1]))
        out.append(np.array([Z[t] - c.dot(A[k][t]) for t in range(q)]))
    return out


def energy_at(A, B, tau, h, hs):
    inf = uref.Inf([a - tau * b for a, b in zip(A, B)])
    return energy_density(inf, h, hs).real, inf.gap()


def slope_at(A, B, tau, h, hs, step=2e-4):
    f = lambda t: energy_at(A, B, t, h, hs)[0]
    return len(A) * (8 * (f(tau + step) - f(tau - step)) - (f(tau + 2 * step) - f(tau - 2 * step))) / (12 * step)


def cp_list(B):
    return None if B is None else [np.array(b) for b in B]


class CgBase(UTdvpWorld):
    min_gap = 0.08

    def good(self, st, lo=1e-4):
        return UTdvpWorld.good(self, st, lo)

    def init(self, cfg):
        st = UTdvpWorld.init(self, cfg)
        if not self.good(st):
            raise Disabled()
        if cfg.get("relax"):
            s = st.s
            with Guard("ucg.relax"):
                for i in range(cfg["relax"]):
                    s.take_step(0.04)
                    s.update()
            st.m = utens(s)
            if st.inf().gap() < self.min_gap or not self.good(st):
                raise Disabled()
        return st


class UCgWorld(CgBase):
    name = "uni.cg"
    depth = 2

    def configs(self, tier):
        if tier == "quick":
            for c in tcfgs(qs=(2, 3), Ds=(1, 2), Ls=(1, 2), symms=(True,)):
                if c["q"] == 3 and c["D"] * c["L"] > 2:
                    continue
                yield dict(c, depth=2)
            for c in tcfgs(qs=(2,), Ds=(2, 3), Ls=(1, 2, 3), symms=(False,), hams=("ising",)):
                yield dict(c, depth=1, relax=20)
            for c in tcfgs(qs=(2,), Ds=(2,), Ls=(1, 2), kinds=("gauge",), symms=(False,), hams=("call", "tp", "herm2")):
                yield dict(c, depth=1)
        else:
            for c in tcfgs(qs=(2, 3), Ds=(1, 2, 3), Ls=(1, 2, 3), kinds=("rand", "gauge")):
                yield dict(c, depth=2)
            for c in tcfgs(qs=(2,), Ds=(1, 2), Ls=(1, 2), hams=("herm", "ising")):
                yield dict(c, depth=3)
            for c in tcfgs(qs=(2,), Ds=(2, 3), Ls=(1, 2, 3), hams=("ising", "herm2")):
                yield dict(c, depth=2, relax=20)
            for c in tcfgs(qs=(2,), Ds=(2,), Ls=(1, 2), kinds=("gauge",), hams=("call", "tp", "herm2")):
                yield dict(c, depth=2)

    def init(self, cfg):
        st = CgBase.init(self, cfg)
        st.prev = None
        return st

    def key(self, st):
        return None

    def actions(self, st):
        out = [("cg", True, True, 0.05, 0.1), ("cg", True, True, 0.05, 1.5)]
        if st.prev is not None:
            out += [("cg", False, True, 0.05, None), ("cg", False, False, 0.05, None), ("cg", False, True, 0.3, 0.9)]
        else:
            # directions that do not come from a previous step
            out += [("odd", "rand"), ("odd", "uphill"), ("odd", "huge")]
        return out

    def step(self, st, act):
        s, h, hs = st.s, st.h, st.hs
        if not self.good(st):
            raise Disabled()
        A, l, r = env_of(s)
        q, L = s.q, s.L
        with Guard("ucg.calc_B"):
            B0 = [np.array(b) for b in s.calc_B()]
        eta2 = sum(metric_site(s, B0, k) for k in range(L))
        if eta2 < 1e-6:
            raise Disabled()
        if act[0] == "odd":
            rng = ref.rng_for("ucg", act[1], q, s.D, L)
            V = [ref.cgauss(rng, a.shape) * 0.3 for a in A]
            if act[1] == "uphill":
                V = [-30. * b + v for b, v in zip(B0, V)]
            # gradient data such that beta is 1 (or beyond the limit)
            G0, g0 = [np.zeros_like(a) for a in A], eta2
            if act[1] == "huge":
                g0 = eta2 / 250.
            act = ("cg", False, True, 0.05, 0.1)
            prev = (V, G0, g0)
        else:
            prev = st.prev[:3] if st.prev is not None else (None, None, 0.)
        _, reset, use_PR, tau_init, tau0 = act
        if tau0 is None:
            tau0 = st.prev[3]
        pv = (cp_list(prev[0]), cp_list(prev[1]), prev[2])
        e0 = energy_density(st.inf(), h, hs).real
        with Guard("ucg.calc_B_CG"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kw = {}                            # only what differs from the documented defaults
            if tau_init != 0.05:
                kw["tau_init"] = tau_init
            if reset:
                kw["reset"] = True
            if not use_PR:
                kw["use_PR"] = False
            BCG, BG, gg, tau = s.calc_B_CG(prev[0], prev[1], prev[2], tau0, **kw)
        BCG, BG = [np.array(b) for b in BCG], [np.array(b) for b in BG]
        sc = max(1., max(la.norm(b) for b in B0))
        for a, b in zip(pv[:2], prev[:2]):
            if a is not None and not reset:
                for x, y in zip(a, b):
                    need(np.array_equal(x, y), "ucg.readonly", "the previous tangent vectors were modified")
        # the state is the same and its tangent vector is the one returned
        same_state(s, st.inf(), "ucg.state", what="state after the search")
        moved = not all(np.allclose(a, b, rtol=0, atol=1e-10) for a, b in zip(A, s.A))
        t = copy.deepcopy(s)
        t.K0_init = None
        with Guard("ucg.calc_B"):
            t.calc_C()
            t.calc_K()
            B1 = t.calc_B()
        for k in range(L):
            close(BG[k], B1[k], "ucg.grad", 2e-6, sc, "returned gradient at %d" % k)
        close(np.real(gg), eta2, "ucg.norm", 1e-7, max(1., eta2), "returned squared norm of the gradient")
        close(np.real(s.eta) ** 2, eta2, "ucg.eta", 1e-7, max(1., eta2), "eta after the search")
        is_grad = all(np.allclose(a, b, atol=1e-7 * sc) for a, b in zip(BCG, BG))
        # the search direction
        want = B0
        beta = 0.
        if not reset:
            if use_PR:
                Y = gauge_fix(s if moved else t, pv[1]) if not moved else None
                st_ = st
                ov = metric2(A, l, r, gauge_fix_env(A, l, r, pv[1]), B0)
                beta = (eta2 - ov.real) / pv[2]
            else:
                beta = eta2 / pv[2]
            beta = max(0., float(np.real(beta)))
            if beta > 100:
                beta = 0.
            P = gauge_fix_env(A, l, r, pv[0])
            want = [b + beta * p for b, p in zip(B0, P)]
        if moved:
            need(is_grad, "ucg.direction", "tensors were changed but the direction is not the gradient")
        elif not is_grad:
            wsc = max(sc, max(la.norm(w) for w in want))
            for k in range(L):
                close(BCG[k], want[k], "ucg.direction", 1e-5, wsc, "search direction at %d (beta = %g)" % (k, beta))
        need(np.isreal(tau) and np.real(tau) > 0, "ucg.tau", "step %s", tau)
        tau = float(np.real(tau))
        Anow = [np.array(a) for a in s.A]
        e1, gap = energy_at(Anow, BCG, tau, h, hs)
        if not (is_grad and tau == tau_init):
            need(e1 <= e0 + 1e-7, "ucg.energy", "the proposed step %g raises the energy from %.10g to %.10g (beta = %g)", tau, e0, e1, beta)
        # where the initial step already satisfies the Wolfe conditions there is
        # no reason to give up the search direction, or not to lower the energy
        g0 = -2 * metric2(A, l, r, B0, want).real
        t0 = max(tau0, tau_init * .5)
        et, gp = energy_at(A, want, t0, h, hs)
        if g0 < -1e-4 and et < e0 + 0.05 * t0 * g0 / L and gp > self.min_gap:
            gt = slope_at(A, want, t0, h, hs)
            if 0.5 * g0 < 0.1 * g0 + 0 * gt and gt > 0.05 * g0 and gt < 0.8 * abs(g0):
                need(not moved, "ucg.reset", "search restarted although the first step %g satisfies the Wolfe conditions", t0)
                for k in range(L):
                    close(BCG[k], want[k], "ucg.direction", 1e-5, max(sc, la.norm(want[k])),
                          "search direction at %d (beta = %g) although step %g satisfies the Wolfe conditions:" % (k, beta, t0))
                need(e1 < e0, "ucg.progress", "energy not lowered although step %g would", t0)
        if gap < self.min_gap:
            raise Disabled()
        st.prev = (cp_list(BCG), cp_list(BG), eta2, tau)
        with Guard("ucg.step"):
            s.take_step(tau, B=BCG)
            s.update(restore_CF=False)
        st.m = [a - tau * b for a, b in zip(Anow, BCG)]
        close(s.h_expect.real, e1, "ucg.step.energy", 1e-7, max(1., abs(e1)), "energy after the step")
        return st

    def check(self, st):
        s = st.s
        same_state(s, st.inf(), "ucg.state", window=2)
        check_fixed_points(s)


def gauge_fix_env(A, l, r, Y):
    class S(object):
        pass
    s = S()
    s.A, s.l, s.r, s.L, s.q, s.D = A, l, r, len(A), A[0].shape[0], A[0].shape[1]
    return gauge_fix(s, Y)


def metric2(A, l, r, B, C):
    x = 0
    for k in range(len(A)):
        x += sum(np.trace(l[k - 1].dot(B[k][t]).dot(r[k]).dot(C[k][t].conj().T)) for t in range(A[k].shape[0]))
    return x


class LineWorld(CgBase):
    """Histories of one line-search object."""
    name = "uni.line_search"
    depth = 2
    TAUS = (0.05, 0.2, -0.1, 0.7, 0.2000001)

    def configs(self, tier):
        for c in tcfgs(qs=(2, 3), Ds=(1, 2), Ls=(1, 2, 3), symms=(True, False)):
            if c["q"] == 3 and c["D"] * c["L"] > 2 and tier == "quick":
                continue
            for dr in ("grad", "rand", "up"):
                yield dict(c, dir=dr, depth=2 if tier == "quick" else 3)

    def init(self, cfg):
        st = CgBase.init(self, cfg)
        s = st.s
        with Guard("uls.calc_B"):
            st.BG = [np.array(b) for b in s.calc_B()]
        rng = ref.rng_for("uls", s.q, s.D, s.L)
        if cfg["dir"] == "grad":
            st.B = st.BG
        elif cfg["dir"] == "rand":
            st.B = [b + 0.4 * ref.cgauss(rng, b.shape) for b in st.BG]
        else:
            st.B = [-b for b in st.BG]
        st.A = utens(s)
        with Guard("uls.init"):
            st.ls = tu.EvoMPS_line_search(s, st.B, st.BG, B_overlap_tol=1e-11)
        st.log = [0]
        st.cache = {}
        return st

    def truth(self, st, tau):
        """(energy density, admissible slopes).  The library normalises the trial
        tensors (on the first site or evenly) but not the direction; the slope
        along the direction itself is of course admissible too."""
        if tau not in st.cache:
            e, gap = energy_at(st.A, st.B, tau, st.h, st.hs)
            gs = None
            if gap >= 0.15:
                A = [a - tau * b for a, b in zip(st.A, st.B)]
                E, n = uref.block_E(A)
                f = np.max(np.abs(la.eigvals(E))) ** -.5
                gs = [slope_at(c, st.B, 0., st.h, st.hs) for c in
                      (A, [a * f ** (1. / n) for a in A], [A[0] * f] + A[1:])]
            st.cache[tau] = (e, gs)
        return st.cache[tau]

    @staticmethod
    def slope_ok(x, gs, sig, what):
        d = [abs(np.real(x) - g) for g in gs]
        need(min(d) <= 2e-5 * max(1., abs(gs[0])), sig, "%s is %.8g, expected %.8g", what, np.real(x), gs[0])
        return float(np.real(x))

    def key(self, st):
        return canon(str(st.log), st.cfg["dir"])

    def actions(self, st):
        out = [("f", t) for t in self.TAUS] + [("neg", -0.1), ("clear",)]
        if len(st.log) > 1:
            out += [("delete", 1), ("brentq", 0.1), ("brentq", 0.6)]
        elif st.cfg["dir"] != "up":
            out += [("brentq", 0.1), ("brentq", 0.02), ("brentq", 1.5)]
        return out

    def step(self, st, act):
        ls, k = st.ls, act[0]
        if k in ("f", "neg"):
            tau = act[1]
            e, g = self.truth(st, tau) if k == "f" else (None, None)
            if k == "f" and g is None:
                raise Disabled()
            ls.penalise_neg = k == "neg"
            with Guard("uls.f"):
                x = ls.f(tau)
            if k == "f":
                self.slope_ok(x, g, "uls.slope", "slope at step %g" % tau)
                if tau not in st.log:
                    st.log.append(tau)
            else:
                need(x > np.real(ls.gs[0]), "uls.penalty", "negative step not penalised")
                # the history entry of a penalised step is a placeholder
                i = len(ls.taus) - 1
                with Guard("uls.delete"):
                    ls.delete(i)
        elif k == "clear":
            with Guard("uls.clear"):
                ls.clear_hist()
            st.log = st.log[:1]
        elif k == "delete":
            with Guard("uls.delete"):
                ls.delete(act[1])
            st.log.pop(act[1])
        elif k == "brentq":
            ls.penalise_neg = True
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    tau, hmin, ind = ls.brentq(act[1])
                except (EvoMPSNoConvergence, EvoMPSNormError):
                    raise Disabled()
                except Exception as ex:
                    raise Violation("uls.brentq", "%s: %s" % (type(ex).__name__, ex))
            need(0 <= ind < len(ls.taus), "uls.index", "index %s of %d", ind, len(ls.taus))
            if tau == 0:
                close(hmin, energy_at(st.A, st.B, 0., st.h, st.hs)[0], "uls.hmin", 1e-7, None, "energy reported for a failed search")
            else:
                need(ls.taus[ind] == tau, "uls.index", "taus[%d] = %g, step %g", ind, ls.taus[ind], tau)
                need(tau > 0, "uls.tau", "step %g", tau)
                e, g = self.truth(st, tau)
                close(hmin, e, "uls.hmin", 1e-7, None, "reported energy at step %g" % tau)
                if g is None or self.truth(st, 0)[1] is None:
                    raise Disabled()
                g = self.slope_ok(ls.gs[ind], g, "uls.slope", "slope at the optimum")
                e0, g0 = self.truth(st, 0)
                g0 = g0[0]
                need(g >= 0.1 * g0 - 1e-4 or abs(g) < 0.05 * abs(g0), "uls.curvature", "slope %g at the optimum %g, %g at the start", g, tau, g0)
            ls.in_search = False        # (left set after failed searches)
            st.log = list(ls.taus)
            st.searched = True
        return st

    def check(self, st):
        ls, s = st.ls, st.s
        n = len(ls.taus)
        for x in (ls.hs, ls.gs, ls.lLs, ls.rLs, ls.K0s, ls.Ws):
            need(len(x) == n, "uls.lengths", "history lists of different lengths")
        need(list(ls.taus) == list(st.log), "uls.taus", "recorded steps %s, expected %s", ls.taus, st.log)
        e0, g0 = self.truth(st, 0)
        for i, tau in enumerate(ls.taus):
            if tau < 0 and getattr(st, "searched", False):
                continue
            e, g = self.truth(st, tau)
            close(ls.hs[i], e, "uls.energy", 1e-7, max(1., abs(e)), "recorded energy at step %g" % tau)
            if g is None or g0 is None:
                continue
            g = self.slope_ok(ls.gs[i], g, "uls.slope", "recorded slope at step %g" % tau)
            if i > 0:
                w1, w2 = e - e0 - 1e-4 * tau * g0[0], np.real(ls.gs[i]) - 0.1 * g0[0]
                if abs(w1) > 1e-6 and abs(w2) > 1e-4:
                    need(bool(ls.Ws[i]) == (w1 <= 0 and w2 >= 0), "uls.wolfe", "Wolfe flag %s at step %g", ls.Ws[i], tau)
        # the system under search is untouched
        for a, b in zip(st.A, s.A):
            need(np.allclose(a, b, rtol=0, atol=1e-12), "uls.untouched", "line search changed the system")


class CgFaultWorld(CgBase):
    """Every pattern of failing evaluations during the line searches."""
    name = "uni.cg_faults"
    depth = 0

    def configs(self, tier):
        # "raw": the tensors are in no canonical form when the search starts
        for L in (1, 2):
            for mode in ("reset", "cg", "uphill"):
                for exc in ("noconv", "norm"):
                    for raw in (False, True):
                        n = 4 if tier == "quick" else 8
                        for k in range(n):
                            for m in ((1, 100) if tier == "quick" else (1, 2, 3, 100)):
                                yield dict(q=2, D=2, L=L, kind="rand", symm=True, ham="herm", hs=2, mode=mode, exc=exc, first=k, count=m, raw=raw)

    def init(self, cfg):
        st = CgBase.init(self, cfg)
        if cfg["raw"]:
            gauge_u(st.s, "g", 0.4)
            with Guard("ucf.update"):
                st.s.update(restore_CF=False)
        return st

    def key(self, st):
        return canon(str(st.cfg))

    def actions(self, st):
        return []

    def check(self, st):
        s, cfg, h, hs = st.s, st.cfg, st.h, st.hs
        with Guard("ucf.calc_B"):
            B0 = [np.array(b) for b in s.calc_B()]
        eta2 = sum(metric_site(s, B0, k) for k in range(s.L))
        e0 = energy_density(st.inf(), h, hs).real
        rng = ref.rng_for("ucf", s.L)
        V = [0.2 * ref.cgauss(rng, b.shape) for b in B0]
        if cfg["mode"] == "uphill":
            V = [-30. * b + v for b, v in zip(B0, V)]
        cls = tu.EvoMPS_TDVP_Uniform
        real = cls.update
        n = [0]

        def update(self_, *a, **kw):
            if self_ is not s:
                i = n[0]
                n[0] += 1
                if cfg["first"] <= i < cfg["first"] + cfg["count"]:
                    raise (EvoMPSNoConvergence if cfg["exc"] == "noconv" else EvoMPSNormError)("injected")
            return real(self_, *a, **kw)
        cls.update = update
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                BCG, BG, gg, tau = s.calc_B_CG(V, [0 * b for b in B0], eta2, 0.1, tau_init=0.05, reset=cfg["mode"] == "reset")
        except Exception as ex:
            raise Violation("ucf.raise", "%s: %s" % (type(ex).__name__, ex))
        finally:
            cls.update = real
        same_state(s, st.inf(), "ucf.state", what="state after failed evaluations")
        need(np.isreal(tau) and tau > 0, "ucf.tau", "step %s", tau)
        close(np.real(gg), eta2, "ucf.norm", 1e-7, max(1., eta2), "squared norm")
        g = metric(s, BG, BG).real
        close(g, eta2, "ucf.grad", 1e-7, max(1., eta2), "norm of the returned gradient")
        e1, gap = energy_at([np.array(a) for a in s.A], BCG, float(np.real(tau)), h, hs)
        blind = tau == 0.05 and all(np.allclose(a, b, atol=1e-9) for a, b in zip(BCG, BG))
        need(blind or e1 <= e0 + 1e-7, "ucf.energy", "energy raised from %g to %g", e0, e1)
