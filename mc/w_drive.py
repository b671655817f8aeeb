"""Drivers: evolution and ground-state searches (evoMPS/dynamics.py)."""
import copy
import itertools
import numpy as np
import scipy.linalg as la
import scipy.integrate as intg

from . import ref, flow
from .w_tdvp import *
from . import uref
from .w_utdvp import tcfgs, new_tdvp, uham, UTdvpWorld, energy_density, uham_arg
from .uni_common import UState, utens

import evoMPS.dynamics as dyn


class CountWorld(World):
    """F12: number of steps for every span and step size."""
    name = "drive.count"
    depth = 0

    def configs(self, tier):
        for dt in (0.1, 0.01, 0.07, 1 / 3., 0.003, 1.5):
            for k in range(0, 31 if tier == "quick" else 61):
                for frac in (0., 0.5):
                    yield dict(dt=dt, k=k, frac=frac)

    def init(self, cfg):
        return cfg

    def check(self, cfg):
        class Sys(tg.EvoMPS_TDVP_Generic):
            log = []

            def take_step(self, dtau, *a, **kw):
                self.log.append(("s", dtau))
                tg.EvoMPS_TDVP_Generic.take_step(self, dtau, *a, **kw)

            def take_step_RK4(self, dtau, *a, **kw):
                self.log.append(("r", dtau))
                tg.EvoMPS_TDVP_Generic.take_step_RK4(self, dtau, *a, **kw)
        h = ref.rand_herm(ref.rng_for("count"), [2, 2]).reshape(2, 2, 2, 2)
        dt, k = cfg["dt"], cfg["k"]
        t = sum([dt] * k) + cfg["frac"] * dt if k <= 20 else (k + cfg["frac"]) * dt
        for integ in ("euler", "rk4", "Euler", "RK4"):
            d = Sys(2, [1, 1, 1], [2, 2, 2], [None, h])
            d.log = []
            cb = []
            with Guard("evolve"):
                r = dyn.evolve(d, t, dt=dt, integ=integ, dynexp=False, cb_func=lambda s, i: cb.append((i, len([x for x in d.log if isinstance(x, tuple)]))))
            need(r is d, "evolve.return", "evolve did not return its system")
            st = [x for x in d.log if isinstance(x, tuple)]
            need(len(st) == k, "evolve.steps", "%d steps for t=%r, dt=%r, expected %d", len(st), t, dt, k)
            need(all(abs(x[1] - 1j * dt) <= 1e-15 for x in st), "evolve.dtau", "wrong step sizes %s", [x[1] for x in st][:4])
            need(all(x[0] == integ.lower()[0].replace("e", "s") for x in st), "evolve.integ", "wrong integrator")
            need(cb == [(i, i) for i in range(k + 1)], "evolve.callbacks", "callbacks (number, steps taken): %s", cb[:6])


class DriveWorld(TdvpWorld):
    """F12: evolution of finite chains."""
    name = "drive.gen"

    def configs(self, tier):
        kw = dict(kinds=("rand",), forms=("right",))
        if tier == "quick":
            for c in tdvp_cfgs([1, 2], **kw):
                yield dict(c, depth=1)
            for c in tdvp_cfgs([3], qalpha=(2,), **kw):
                yield dict(c, depth=1)
            for c in tdvp_cfgs([3], kinds=("gauge",), forms=("left",), Dmax=2):
                yield dict(c, depth=0)
            for c in tdvp_cfgs([4], Dmax=2, qalpha=(2,), hams=("herm", "odd"), **kw):
                yield dict(c, depth=0)
        else:
            for c in tdvp_cfgs([1, 2, 3], kinds=("rand", "gauge")):
                yield dict(c, depth=1)
            for c in tdvp_cfgs([3], kinds=("rand",), qalpha=(2,), enc=("callable",)):
                yield dict(c, depth=2)
            for c in tdvp_cfgs([4, 5], Dmax=3, qalpha=(2,), hams=("herm", "odd", "one", "real"), **kw):
                yield dict(c, depth=0)

    def init(self, cfg):
        st = TdvpWorld.init(self, cfg)
        if not self.conditioned(st, 1e-2):
            raise Disabled()
        return st

    def actions(self, st):
        return [("evolve", "euler", 2, False), ("evolve", "rk4", 1, True), ("gauge", False), ("update", False), ("evolve", "euler", 1, True)]

    def step(self, st, act):
        if act[0] != "evolve":
            return TdvpWorld.step(self, st, act)
        _, integ, k, dx = act
        with Guard("evolve." + integ):
            dyn.evolve(st.s, k * 0.02, dt=0.02, integ=integ, dynexp=dx)
        st.psi = vec(st.s)
        return st

    def check(self, st):
        s = st.s
        if not self.conditioned(st, 1e-2):
            return
        N = s.N
        D = [int(x) for x in s.D]
        v = st.psi.ravel()
        hv = st.H.dot(v)
        var = np.sqrt(max(0., np.vdot(hv, hv).real - np.vdot(v, hv).real ** 2))
        mn = min([1.] + [ref.schmidt_sq(st.psi, n)[D[n] - 1] for n in range(1, N)])
        hn = max(1., la.norm(st.H, 2))
        dt = 0.01 * min(1., np.sqrt(mn / 0.03)) * min(1., 3. / hn)
        full = all(d >= m for d, m in zip(D, flow.maxranks([int(x) for x in s.q[1:]])))
        n = 3
        ref_ = [flow.flow(st.psi, st.H, D, 1j * j * dt, 4 * max(j, 1))[0] for j in range(n + 2)]
        self.plain(st, dt, n, ref_, var)
        if not full:
            # with expansion allowed and nearest-neighbour terms the step captures all of H|psi>
            ex = [la.expm(-1j * j * dt * st.H).dot(v).reshape(st.psi.shape) for j in range(n + 2)]
            for integ in ("euler", "rk4"):
                c, rec = self.drive(st, n * dt, dt, integ, dynexp=True)
                cap = max(D) + 1
                d2, rec2 = self.drive(st, n * dt, dt, integ, dynexp=True, D_max=cap, dD_max=1)
                need(max(d2.D) <= max(cap, max(D)), "evolve.D_max", "bond dimensions %s with D_max=%d", list(d2.D), cap)
                need(np.all(np.abs(np.diff([x[2] for x in rec2], axis=0)) <= 1), "evolve.dD_max", "bond dimension jumps: %s", [x[2] for x in rec2])
                if st.cfg["hs"] == 2 and integ == "euler":
                    for j, (i, w, _, _) in enumerate(rec):
                        e = ref.phase_dist(w, ex[j])
                        need(e <= j * (dt * hn) ** 2 * 3 + 1e-10, "evolve.expand", "error %g after %d expanding steps (exact step length %g)", e, j, dt * var)
                for c in (c, d2):
                    close(la.norm(vec(c)), 1., "evolve.norm", 1e-8)
            if st.cfg["hs"] == 2 and N == 2 and var > 1e-3:
                # once a single bond has been filled up the step is one of fourth order; covering a span that differs
                # by the small step spent on the expansion would be seen
                h = 3 * dt
                c, rec = self.drive(st, h, h, "rk4", dynexp=True)
                w = la.expm(-1j * h * st.H).dot(v).reshape(st.psi.shape)
                e = ref.phase_dist(rec[1][1], w)
                need(e <= 0.4 * h ** 2.5 * var + 1e-9, "evolve.expand_rk4", "error %g after an expanding RK4 step of %g (variance %g)", e, h, var)
        self.scipy(st, dt, ref_, var, hn)

    def drive(self, st, t, dt, integ, **kw):
        c = copy.deepcopy(st.s)
        rec = []

        def cb(sys, i):
            rec.append((i, vec(sys).copy(), [int(x) for x in sys.D], (complex(sys.H_expect), complex(sys.eta))))
        with Guard("evolve." + integ):
            r = dyn.evolve(c, t, dt=dt, integ=integ, cb_func=cb, **kw)
        need(r is c, "evolve.return", "evolve did not return its system")
        return c, rec

    def plain(self, st, dt, n, ref_, var):
        s = st.s
        end = {}
        for integ in ("euler", "rk4"):
            for split in ([n], [1] * n, [1, n - 1], [n - 1, 1]):
                c = st
                at = 0
                for m in split:
                    x, rec = self.drive(c, m * dt, dt, integ, dynexp=False)
                    need([a[0] for a in rec] == list(range(m + 1)), "evolve.callbacks", "callback numbers %s", [a[0] for a in rec])
                    for j, (i, w, D, (E, eta)) in enumerate(rec):
                        close(la.norm(w), 1., "evolve.norm", 1e-8, 1., "callback state")
                        close(E, np.vdot(w.ravel(), st.H.dot(w.ravel())), "evolve.H_expect", 1e-7, max(1., la.norm(st.H, 2)), "energy at callback %d" % i)
                        need(np.isfinite(eta), "evolve.eta", "eta %s at callback", eta)
                        e = [ref.phase_dist(w, r) for r in ref_]
                        if var * dt > 1e-6 and ref.phase_dist(ref_[0], ref_[1]) > 1e-5:
                            need(int(np.argmin(e)) == at + j, "evolve.time", "%s: after %d steps the state is that of step %d (distances %s)",
                                 integ, at + j, int(np.argmin(e)), np.round(e, 9))
                        elif integ == "rk4":
                            need(e[at + j] <= 1e-6, "evolve.time", "%s: stationary state changed by %g", integ, e[at + j])
                    close(vec(x), rec[-1][1], "evolve.last", 1e-10, 1., "final state versus last callback")
                    at += m
                    c = copy.copy(st)
                    c.s = x
                end.setdefault(integ, []).append(vec(c.s))
            for w in end[integ][1:]:
                e = ref.phase_dist(w, end[integ][0])
                need(e <= 1e-9, "evolve.division", "%s: dividing the time span changes the result by %g", integ, e)

    def scipy(self, st, dt, ref_, var, hn):
        D = [int(x) for x in st.s.D]
        seen = {}
        T = 3 * dt
        for rtol, atol in ((1e-8, 1e-10),):
            for integ in (intg.RK45, intg.DOP853 if hasattr(intg, "DOP853") else intg.RK23):
                for mx in (0, 2, 1000):
                    c = copy.deepcopy(st.s)
                    rec = []
                    with Guard("evolve.ode"):
                        dyn.evolve_scipy_ode(c, T, mx, rtol=rtol, atol=atol, callback=lambda s, ig, i: rec.append((i, ig.t, vec(s).copy())), integrator=integ)
                    need([a[0] for a in rec] == list(range(len(rec))) and len(rec) <= mx, "evolve.ode.callbacks", "%s", [a[0] for a in rec])
                    for i, t, w in rec:
                        k = round(t, 13)
                        if k not in seen:
                            seen[k] = flow.flow(st.psi, st.H, D, 1j * t, 10)[0]
                        e = ref.phase_dist(w, seen[k])
                        need(e <= 1e-6, "evolve.ode.state", "state at t=%g is off by %g", t, e)
                    if mx == 1000:
                        need(abs(rec[-1][1] - T) <= 1e-12, "evolve.ode.end", "stopped at t=%g of %g", rec[-1][1], T)
                        e = ref.phase_dist(vec(c), ref_[3])
                        need(e <= 1e-6, "evolve.ode.final", "final state off by %g", e)
                    if mx == 0:
                        need(ref.phase_dist(vec(c), st.psi) <= 1e-9, "evolve.ode.none", "state changed without steps")
        for name, wrap in (("zvode", False), ("dopri5", True), ("vode", True)):
            for n in (0, 1, 3):
                c = copy.deepcopy(st.s)
                rec = []
                with Guard("evolve.ode_old"):
                    dyn.evolve_scipy_ode_old(c, dt, n, rtol=1e-9, atol=1e-11, callback=lambda s, ig, i: rec.append((i, ig.t, vec(s).copy())),
                                             integrator=name, wrap_to_real=wrap)
                need(len(rec) == n, "evolve.ode_old.callbacks", "%d callbacks for %d steps", len(rec), n)
                for j, (i, t, w) in enumerate(rec):
                    need(i == j and abs(t - j * dt) <= 1e-12, "evolve.ode_old.time", "callback %d: number %d, time %g", j, i, t)
                    e = ref.phase_dist(w, ref_[j])
                    need(e <= 1e-6, "evolve.ode_old.state", "%s: state at t=%g is off by %g", name, t, e)
                e = ref.phase_dist(vec(c), ref_[n])
                need(e <= 1e-6, "evolve.ode_old.final", "%s: final state off by %g", name, e)


class UDriveWorld(UTdvpWorld):
    """U12: drivers on infinite chains."""
    name = "drive.uni"
    depth = 1

    def depth_for(self, cfg, tier):
        return cfg.get("depth", 1)

    def configs(self, tier):
        if tier == "quick":
            for c in tcfgs(qs=(2,), Ds=(1, 2), Ls=(1, 2), hams=("ising", "herm"), symms=(True, False)):
                yield dict(c, depth=2) if c["D"] == 2 and c["L"] == 1 and c["hs"] == 2 else c
            for c in tcfgs(qs=(2,), Ds=(2,), Ls=(3,), hss=(2,), hams=("ising",), symms=(True, False)):
                yield c
            for c in tcfgs(qs=(2,), Ds=(2,), Ls=(1, 2), kinds=("gauge", "near"), hss=(2,), hams=("herm",), symms=(True, False)):
                yield c
            for c in tcfgs(qs=(2,), Ds=(3,), Ls=(1,), hss=(2,), hams=("ising", "real"), symms=(True, False)):
                yield c
            for c in tcfgs(qs=(3,), Ds=(2,), Ls=(1,), hams=("ising",), symms=(True,)):
                yield c
        else:
            for c in tcfgs(qs=(2, 3), Ds=(1, 2, 3), Ls=(1, 2, 3), hams=("ising", "herm", "real", "call"), symms=(True, False)):
                yield dict(c, depth=2) if c["L"] == 1 else c
            for c in tcfgs(qs=(2,), Ds=(4, 5), Ls=(1,), hams=("ising",), symms=(True, False)):
                yield c

    def fresh(self, st):
        c = copy.deepcopy(st.s)
        c.itr_rtol = 1e-13
        return c

    def probe(self, st, rec):
        """Callback that checks that what it is handed is up to date."""
        h, hs = st.h, st.hs

        def cb(s, i, **kw):
            E = np.real(s.h_expect)
            I = uref.Inf(s.A)
            if min(I.schmidt_sq(k)[s.D - 1] for k in range(s.L)) < 1e-6:
                rec.append(dict(i=i, E=float(E), eta=float(np.real(s.eta)), D=int(s.D), A=utens(s), kw=kw))
                return
            close(E, energy_density(I, h, hs).real, "udrive.cb.h", 1e-6, max(1., la.norm(h, 2)), "energy density at callback %d" % i)
            d = copy.deepcopy(s)
            d.calc_B()
            close(np.real(s.eta), np.real(d.eta), "udrive.cb.eta", 1e-6, max(1., la.norm(h, 2)), "eta at callback %d" % i)
            rec.append(dict(i=i, E=float(E), eta=float(np.real(s.eta)), D=int(s.D), A=utens(s), kw=kw))
        return cb

    def sequence(self, rec, n, sig):
        need([r["i"] for r in rec] == list(range(len(rec))), sig + ".callbacks", "callback numbers %s", [r["i"] for r in rec][:20])
        need(len(rec) == n, sig + ".count", "%s iterations reported, %d callbacks", n, len(rec))

    def final(self, st, s, sig, tol=None):
        I = uref.Inf(s.A)
        d = copy.deepcopy(s)
        E = energy_density(I, st.h, st.hs).real
        hn = max(1., la.norm(st.h, 2))
        close(np.real(s.h_expect), E, sig + ".h", 1e-6, hn, "final energy density")
        with Guard(sig):
            d.update()
            d.calc_B()
        close(np.real(s.eta), np.real(d.eta), sig + ".eta", 1e-5, hn, "final eta")
        close(np.real(d.h_expect), E, sig + ".h", 1e-6, hn)
        if tol is not None:
            need(np.real(d.eta) <= tol * 1.01 + 1e-7, sig + ".tol", "stopped with eta=%g, tolerance %g", np.real(d.eta), tol)
        return E

    def init(self, cfg):
        st = UTdvpWorld.init(self, cfg)
        if not self.good(st, 1e-3):
            raise Disabled()
        st.hist = 0
        return st

    def key(self, st):
        return None

    def check(self, st):
        pass

    def actions(self, st):
        D = st.s.D
        out = []
        if st.hist < 0:
            return out          # too close to a smaller bond dimension to go on
        if st.hist:
            # on an object which another driver has worked on before
            return [("im", 2, True, None, 0), ("im", 3, False, None, 1), ("cg", 2, 20, None), ("gd", 7, 3, 2), ("run", "cg"),
                    ("ground", 1, 1), ("evolve", "euler", False, 3), ("evolve", "rk4", True, 2)]
        for mx in (0, 1, 3):
            for auto in (False, True):
                out.append(("im", mx, auto, None, 0))
        out += [("im", 2, False, 0.005, 0), ("im", 3, True, 0.03, 0)]
        if D <= 2:
            out += [("im", 9, True, None, 1), ("im", 9, False, None, 2)]
        for mx in (0, 1, 2, 4):
            for every in (1, 20):
                out.append(("cg", mx, every, None))
        out += [("cg", 3, 2, 0.2), ("cg", 3, 20, 1e-3)]
        out += [("gd", mx, gap, ev) for mx, gap, ev in ((0, 5, 1), (1, 5, 1), (7, 3, 1), (7, 3, 2), (12, 2, 3), (6, 1, 1))]
        out += [("run", nm) for nm in ("cg", "gd", "im")]
        if D <= 2:
            out += [("ground", 1, 1), ("ground", 2, 128), ("ground", 0, 5), ("ground", 2, 1)]
        for integ in ("euler", "rk4"):
            for dx in (False, True):
                for n in (0, 1, 3):
                    out.append(("evolve", integ, dx, n))
        return out

    def step(self, st, act):
        s, h, hs = st.s, st.h, st.hs
        self.E0 = energy_density(st.inf(), h, hs).real
        c = getattr(self, "do_" + act[0])(st, *act[1:])
        D = int(c.D)
        st.s = c
        st.m = utens(c)
        st.hist += 1
        I = st.inf()
        if min(I.schmidt_sq(k)[D - 1] for k in range(c.L)) < 1e-4 or I.gap() < self.min_gap:
            st.hist = -1
        return st

    def by_hand(self, st, c, ops, sig):
        """The same steps taken by hand reach the same state."""
        d = self.fresh(st)
        for o in ops:
            d.update()
            o(d)
        f = uref.Inf(d.A).overlap(uref.Inf(c.A))[0]
        need(abs(f - 1) <= 1e-8, sig + ".state", "%d steps: fidelity with the same steps taken by hand %.10g", len(ops), f)

    def do_im(self, st, mx, auto, dtau0, grow):
        hn = max(1., la.norm(st.h, 2))
        D0 = st.s.D
        c, rec = self.fresh(st), []
        kw = dict(dtau0=dtau0) if dtau0 is not None else {}
        if grow:
            kw.update(expand_to_D=D0 + grow, expand_tol=100, expand_step=1, expand_wait_steps=2)
        with Guard("udrive.im_time"):
            r, n, tau, dtau = dyn.opt_im_time(c, tol=1e-9, dtau_base=0.02, max_itr=mx, auto_dtau=auto, cb_func=self.probe(st, rec), **kw)
        need(r is c, "udrive.im_time.return", "another system was returned")
        if rec[0]["eta"] >= 1e-9:
            need(n == mx + 1, "udrive.im_time.max_itr", "%d iterations for max_itr=%d", n, mx)
        self.sequence(rec, n, "udrive.im_time")
        Ds = [q["D"] for q in rec]
        taus = [q["kw"]["tau"] for q in rec]
        close(taus[-1], tau, "udrive.im_time.tau", 1e-12, 1.)
        first = dtau0 or 0.02
        if not auto:
            close(taus, first * np.arange(n), "udrive.im_time.tau", 1e-12, 1.)
            close(dtau, first, "udrive.im_time.dtau", 1e-12, 1.)
        elif n > 1:
            close(taus[1], first, "udrive.im_time.tau", 1e-2, first)
        if grow:
            need(all(0 <= b - a <= 1 for a, b in zip(Ds, Ds[1:])) and max(Ds) <= D0 + grow, "udrive.im_time.D", "bond dimensions %s", Ds)
            if n > 1:
                need(Ds[1] == D0 + 1, "udrive.im_time.D", "bond dimensions %s", Ds)
            # two steps of waiting in between
            up = [i for i in range(1, n) if Ds[i] > Ds[i - 1]]
            need(all(b - a == 3 for a, b in zip(up, up[1:])), "udrive.im_time.wait", "bond dimensions %s", Ds)
            if n > 1 + 3 * (grow - 1):
                need(Ds[-1] == D0 + grow, "udrive.im_time.D", "bond dimensions %s", Ds)
            self.by_hand(st, c, [(lambda d, t=taus[i + 1] - taus[i], x=Ds[i + 1] > Ds[i]: d.take_step(t, dynexp=x, dD_max=1, D_max=D0 + grow))
                                 for i in range(n - 1)], "udrive.im_time.grow")
            return c
        need(set(Ds) == {D0}, "udrive.im_time.D", "bond dimensions %s", Ds)
        self.final(st, c, "udrive.im_time")
        self.by_hand(st, c, [(lambda d, t=b - a: d.take_step(t)) for a, b in zip(taus, taus[1:])], "udrive.im_time")
        need(all(b["E"] <= a["E"] + 1e-9 for a, b in zip(rec, rec[1:])) or not auto and hn > 3, "udrive.im_time.descent", "energies %s", [q["E"] for q in rec])
        return c

    def do_cg(self, st, mx, every, h0p):
        hn = max(1., la.norm(st.h, 2))
        c, rec = self.fresh(st), []
        kw = dict(h0_prev=h0p) if h0p else {}
        with Guard("udrive.cg"):
            r, n, h0, B = dyn.opt_conj_grad(c, tol=1e-9, h_init=0.02, max_itr=mx, reset_every=every, return_B_grad=True, cb_func=self.probe(st, rec), **kw)
        if rec[0]["eta"] >= 1e-9:
            need(n == mx + 1, "udrive.cg.max_itr", "%d iterations for max_itr=%d", n, mx)
        self.sequence(rec, n, "udrive.cg")
        self.final(st, c, "udrive.cg")
        with Guard("udrive.cg"):
            W = c.calc_B()
        for k in range(c.L):
            close(B[k], W[k], "udrive.cg.B", 1e-6, max(1., hn * la.norm(W[k])), "returned gradient")
        need(all(b["E"] <= a["E"] + 1e-9 for a, b in zip(rec, rec[1:])), "udrive.cg.descent", "energies %s", [q["E"] for q in rec])
        if n > 1:
            close(h0, rec[0]["kw"]["h"], "udrive.cg.h0", 1e-12, 1.)
        with Guard("udrive.cg"):
            e = self.fresh(st)
            out = dyn.opt_conj_grad(e, tol=1e-9, h_init=0.02, max_itr=mx, reset_every=every, **kw)
        need(len(out) == 3 and out[1] == n, "udrive.cg.return", "%s", out[1:])
        if n > 1:
            # the first step is one along the gradient
            need(rec[1]["E"] <= rec[0]["E"] + 1e-10, "udrive.cg.descent", "first step: %s", [q["E"] for q in rec])
            d = self.fresh(st)
            d.update()
            d.take_step(h0, B=d.calc_B())
            f = uref.Inf(d.A).overlap(uref.Inf(rec[1]["A"]))[0]
            need(abs(f - 1) <= 1e-8, "udrive.cg.first", "first step of %g: fidelity with a gradient step %.10g", h0, f)
        return c

    def do_gd(self, st, mx, gap, ev):
        c, rec = self.fresh(st), []
        with Guard("udrive.gd"):
            out = dyn.opt_grad_descent(c, tol=1e-9, h_init=0.02, max_itr=mx, im_gap=gap, gap_every=ev, cb_func=self.probe(st, rec))
        need(out[0] is c, "udrive.gd.return", "another system was returned")
        self.sequence(rec, out[1], "udrive.gd")
        if rec and rec[0]["eta"] >= 1e-9:
            need(mx <= out[1] <= mx + 1, "udrive.gd.max_itr", "%d iterations for max_itr=%d", out[1], mx)
        need(bool(rec) == bool(mx), "udrive.gd.count", "%d iterations for max_itr=%d", len(rec), mx)
        if rec:
            need(all(b["E"] <= a["E"] + 1e-9 for a, b in zip(rec, rec[1:])), "udrive.gd.descent", "energies %s", [q["E"] for q in rec])
        E = energy_density(uref.Inf(c.A), st.h, st.hs).real
        need(E <= self.E0 + 1e-9, "udrive.gd.descent", "energy density rose from %.10g to %.10g", self.E0, E)
        return c

    def lower(self, st):
        if st.hname == "ising" and st.hs == 2 and st.s.q == 2:
            k = (np.arange(4000) + .5) * np.pi / 4000
            return -np.mean(np.sqrt(1 + 1.4 ** 2 - 2 * 1.4 * np.cos(k)))
        return min(la.eigvalsh(st.h))

    def do_run(self, st, nm):
        """To convergence."""
        tol, E0 = 1e-4, self.E0
        f = dict(cg=lambda c, cb: dyn.opt_conj_grad(c, tol=tol, h_init=0.03, max_itr=300, cb_func=cb),
                 gd=lambda c, cb: dyn.opt_grad_descent(c, tol=tol, h_init=0.03, max_itr=120, im_gap=4, cb_func=cb),
                 im=lambda c, cb: dyn.opt_im_time(c, tol=1e-2, dtau_base=0.03, max_itr=200, cb_func=cb))[nm]
        c, rec = self.fresh(st), []
        cb = lambda s, i, **kw: rec.append((i, float(np.real(s.h_expect)), float(np.real(s.eta))))
        with Guard("udrive.run." + nm):
            out = f(c, cb)
        n = out[1]
        need(out[0] is c, "udrive.run.return", "another system was returned")
        need([r[0] for r in rec] == list(range(n)), "udrive.run.callbacks", "%s: numbers of callbacks %s", nm, [r[0] for r in rec][:40])
        lim = 1e-2 if nm == "im" else tol
        stopped = rec[-1][2] < lim
        mx = dict(cg=300, gd=120, im=200)[nm]
        if nm != "gd":
            need(stopped or n == mx + 1, "udrive.run.stop", "%s stopped after %d iterations with eta=%g", nm, n, rec[-1][2])
            need(all(e >= lim for i, _, e in rec[:-1]), "udrive.run.late", "%s went on although eta was below tolerance", nm)
            E = self.final(st, c, "udrive.run." + nm, lim if stopped else None)
        else:
            need(stopped or n >= mx, "udrive.run.stop", "%s stopped after %d iterations with eta=%g", nm, n, rec[-1][2])
            E = energy_density(uref.Inf(c.A), st.h, st.hs).real
        lo = self.lower(st)
        need(E <= E0 + 1e-9, "udrive.run.descent", "%s: energy density rose from %.10g to %.10g", nm, E0, E)
        need(E >= lo - 1e-9, "udrive.run.variational", "%s: energy density %.10g below the ground state's %.10g", nm, E, lo)
        return c

    def do_ground(self, st, grow, stp):
        E0, D1 = self.E0, st.s.D + grow
        c, rec = self.fresh(st), []
        cb = lambda s, i, **kw: rec.append((i, float(np.real(s.h_expect)), float(np.real(s.eta)), int(s.D)))
        with Guard("udrive.ground"):
            r = dyn.find_ground(c, tol=1e-3, h_init=0.03, max_itr=60, expand_to_D=D1, expand_step=stp, CG_start_tol=0.1, cb_func=cb)
        need(r is c, "udrive.ground.return", "another system was returned")
        need(c.D == D1, "udrive.ground.D", "bond dimension %d, asked for %d", c.D, D1)
        Ds = [x[3] for x in rec]
        need(all(0 <= b - a <= stp for a, b in zip(Ds, Ds[1:])), "udrive.ground.steps", "bond dimensions %s", Ds)
        num = [x[0] for x in rec]
        need(num == list(range(len(num))), "udrive.ground.callbacks", "iteration numbers %s", num[:60])
        E = self.final(st, c, "udrive.ground")
        lo = self.lower(st)
        need(E <= E0 + 1e-9 and E >= lo - 1e-9, "udrive.ground.energy", "energy %.10g, started from %.10g, bound %.10g", E, E0, lo)
        return c

    def do_evolve(self, st, integ, dx, n):
        s = st.s
        hn = max(1., la.norm(st.h, 2))
        dt = 0.01 * min(1., 3. / hn)
        if dx and (integ == "rk4" and st.hs == 3 or n == 0):
            raise Disabled()     # the tiny weights of the added directions make this step ill-conditioned
        c, rec = self.fresh(st), []
        kw = dict(D_max=s.D + 1, dD_max=1) if dx else {}
        with Guard("udrive.evolve"):
            r = dyn.evolve(c, n * dt, dt=dt, integ=integ, dynexp=dx, cb_func=self.probe(st, rec), **kw)
        need(r is c, "udrive.evolve.return", "another system was returned")
        self.sequence(rec, n + 1, "udrive.evolve")
        # a final update is all that happens after the last callback
        Ds = [q["D"] for q in rec]
        need(max(Ds) <= s.D + (1 if dx else 0), "udrive.evolve.D", "bond dimensions %s", Ds)
        if not dx:
            need(set(Ds) == {s.D}, "udrive.evolve.D", "bond dimensions %s", Ds)
            one = (lambda d: d.take_step(1j * dt)) if integ == "euler" else (lambda d: d.take_step_RK4(1j * dt))
            self.by_hand(st, c, [one] * n, "udrive.evolve")
            if n > 1:
                d = self.fresh(st)
                with Guard("udrive.evolve"):
                    dyn.evolve(d, dt, dt=dt, integ=integ, dynexp=False)
                    dyn.evolve(d, (n - 1) * dt, dt=dt, integ=integ, dynexp=False)
                f = uref.Inf(d.A).overlap(uref.Inf(c.A))[0]
                need(abs(f - 1) <= 1e-8, "udrive.evolve.division", "%s: dividing the time span changes the state: fidelity %.10g", integ, f)
        elif n:
            need(Ds[1] == s.D + 1, "udrive.evolve.D", "bond dimensions %s", Ds)
        tolE = hn ** 3 * dt ** 2 * 10 if integ == "euler" else hn ** 3 * dt ** 2
        # (steps taken from a state with tiny Schmidt weights are inaccurate)
        Es = [q["E"] for q in rec][:2 if dx else None]
        need(max(Es) - min(Es) <= tolE + 1e-8, "udrive.evolve.energy", "%s: energies %s", integ, Es)
        return c
