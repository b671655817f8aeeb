"""Finite chains coupled to an environment: quantum state diffusion steps
(tdvp_gen_diss).  The random numbers the library draws are owned by the
explorer: every step is tried with every noise outcome from a fixed alphabet."""
import copy
import itertools
import numpy as np
import scipy.linalg as la

from . import ref
from .w_tdvp import *

import evoMPS.tdvp_gen_diss as td


class Noise(object):
    """Scripted normal random numbers (in units of the requested deviation, or
    absolute values if `absolute`)."""

    def __init__(self, seq, absolute=False):
        self.seq, self.i, self.absolute = list(seq), 0, absolute
        self.scales = []

    def normal(self, loc=0., scale=1., size=None):
        n = 1 if size is None else int(np.prod(size))
        need(self.i + n <= len(self.seq), "diss.noise", "more random numbers drawn than two per jump operator")
        x = np.array(self.seq[self.i:self.i + n], dtype=float)
        self.i += n
        self.scales.append(float(scale))
        x = loc + (x if self.absolute else x * scale)
        return x[0] if size is None else x.reshape(size)

    def standard_normal(self, size=None):
        return self.normal(0., 1., size)

    def randn(self, *size):
        return self.normal(0., 1., size or None)

    def __enter__(self):
        self.old = {k: getattr(np.random, k) for k in ("normal", "standard_normal", "randn")}
        for k in self.old:
            setattr(np.random, k, getattr(self, k))
        return self

    def __exit__(self, et, ev, tb):
        for k in self.old:
            setattr(np.random, k, self.old[k])
        if et is None:
            need(self.i == len(self.seq), "diss.noise", "%d random numbers drawn, expected %d", self.i, len(self.seq))
        return False


def jump(name, n, q, hs):
    """A jump operator on sites n.. as a matrix."""
    k = ("jump", name, n, tuple(q), hs)
    if k in OPS:
        return OPS[k]
    qs = q[n - 1:n - 1 + hs]
    d = int(np.prod(qs))
    rng = ref.rng_for("jump", n, tuple(qs), name)
    if name == "low":
        a = np.diag(np.sqrt(np.arange(1., qs[0])), 1)
        out = 0.6 * ref.embed(a, [0], qs).real          # a real matrix
    elif name == "deph":
        out = 0.7 * ref.embed(np.diag(np.linspace(1, -1, qs[-1])).astype(complex), [hs - 1], qs)
    else:
        out = 0.5 * ref.cgauss(rng, (d, d))
    OPS[k] = out
    return out


def jumps(name, q, hs):
    """[(n, matrix)] for a set of jump operators."""
    n_last = len(q) - hs + 1
    if name == "none":
        return []
    if name == "first":
        return [(1, jump("gen", 1, q, hs))]
    if name == "last":
        return [(n_last, jump("gen", n_last, q, hs))]
    if name == "real":
        return [(1, jump("low", 1, q, hs))]
    if name == "ends":
        return [(1, jump("low", 1, q, hs).astype(complex)), (n_last, jump("gen", n_last, q, hs))]
    if name == "same":
        return [(1, jump("gen", 1, q, hs)), (1, jump("deph", 1, q, hs))]
    if name == "many":
        return [(1, jump("gen", 1, q, hs)), (1, jump("low", 1, q, hs).astype(complex)), (1, jump("deph", 1, q, hs)), (n_last, jump("deph", n_last, q, hs))]
    if name == "all":
        return [(n, jump("deph", n, q, hs)) for n in range(1, n_last + 1)]
    raise ValueError(name)


def diss_cfgs(Ns, linds, **kw):
    for c in tdvp_cfgs(Ns, **kw):
        if len(c["q"]) < c["hs"]:
            continue
        for l in linds:
            yield dict(c, linds=l)


class DissWorld(TdvpWorld):
    """F11."""
    name = "tdvp.diss"
    depth = 1

    def configs(self, tier):
        L = ("first", "same", "ends")
        if tier == "quick":
            for c in diss_cfgs([2, 3], L, kinds=("rand",), forms=("right",), gauges=("right", "left")):
                yield dict(c, depth=1 if max(c["q"]) == 2 else 0)
            for c in diss_cfgs([2, 3], ("none", "last", "real", "all"), kinds=("gauge",), forms=("right", "left"), gauges=("right",), qalpha=(2,), Dmax=3):
                yield dict(c, depth=0)
            for c in diss_cfgs([3, 4], ("first", "all"), kinds=("rand",), forms=("right",), gauges=("right",), qalpha=(2,), Dmax=2, hams=("odd", "none", "real")):
                yield dict(c, depth=0)
            for c in diss_cfgs([2, 3], ("many",), kinds=("rand",), forms=("right",), gauges=("right", "left"), qalpha=(2,), hams=("herm", "odd")):
                yield dict(c, depth=0)
            for c in diss_cfgs([3], ("ends",), kinds=("rand",), forms=("right",), gauges=("right", "left"), qalpha=(2,), Dmax=2, hams=("herm",), enc=("callable",)):
                yield dict(c, depth=1)
        else:
            for c in diss_cfgs([2, 3], L + ("none", "last", "real", "all", "many"), kinds=("rand", "gauge")):
                yield dict(c, depth=1)
            for c in diss_cfgs([3, 4], L + ("all",), kinds=("rand",), forms=("right",), hams=("herm", "odd", "none", "real"), enc=("array", "callable")):
                if c["ham"] != "none" or c["enc"] == "array":
                    yield dict(c, depth=1 if max(c["q"]) == 2 else 0)

    def init(self, cfg):
        q, hs = cfg["q"], cfg["hs"]
        if cfg["ham"] == "none":
            terms = [None] * (len(q) - hs + 2)
            ham = None
        else:
            terms = ham_terms(cfg["ham"], q, hs)
            ham = ham_arg(terms, q, hs, cfg["enc"])
        J = jumps(cfg["linds"], q, hs)
        linds = [(n, L.reshape(q[n - 1:n - 1 + hs] * 2).copy()) for n, L in J]

        def cls(N, D, qq, h, ham_sites=None):
            return td.EvoMPS_TDVP_Generic_Dissipative(N, D, qq, h, linds, ham_sites=ham_sites)
        s = make_mps(cfg, cls=cls, ham=ham, hs=hs)
        s.canonical_form = cfg["form"]
        s.gauge_fixing = cfg["gauge"]
        st = TState(s, vec(s))
        st.cfg, st.terms, st.J = cfg, terms, J
        st.H = ref.ham_dense(terms, hs, q)
        if ham is None:
            st.H = np.zeros((int(np.prod(q)),) * 2, dtype=complex)
        st.fulls = [(ref.embed(L, list(range(n - 1, n - 1 + hs)), q)) for n, L in J]
        with Guard("diss.update"):
            s.update()
        st.psi = st.psi / la.norm(st.psi)
        st.info = "cf"
        return st

    def key(self, st):
        return canon(st.info, st.s.canonical_form, st.s.gauge_fixing, *tensors(st.s))

    def patterns(self, k, tier="quick"):
        if k == 0:
            return [()]
        if k == 1:
            return list(itertools.product((-1., 0., 1.7), repeat=2))
        if k == 2:
            return list(itertools.product((-1., 0.6), repeat=4))
        # each operator alone, then all of them
        out = [(0.,) * (2 * k), tuple(0.5 + 0.3 * (-1) ** i * i for i in range(2 * k))]
        for j in range(2 * k):
            out.append(tuple(1. if i == j else 0. for i in range(2 * k)))
        return out

    def actions(self, st):
        P = self.patterns(len(st.J))
        return [("gauge", False), ("flip",), ("diss", 0.01, P[0]), ("diss", 0.02, P[-1]), ("diss2", 0.02, P[-1])]

    def step(self, st, act):
        s = st.s
        if act[0] in ("diss", "diss2"):
            if not self.conditioned(st, 1e-3):
                raise Disabled()
            with Guard("diss.step"):
                for _ in range(2 if act[0] == "diss2" else 1):
                    with Noise(act[2]):
                        s.take_step_dissipative(act[1])
                    s.update()
            st.psi = vec(s)
            st.info = "cf"
            close(la.norm(st.psi), 1., "diss.norm", 1e-9)
            return st
        return TdvpWorld.step(self, st, act)

    def drift(self, st, W, dt):
        """The effective operator G with d psi = dt Q G psi."""
        v = st.psi.ravel()
        G = -1j * st.H
        for L, w in zip(st.fulls, W):
            e = np.vdot(v, L.dot(v))
            G = G - 0.5 * L.conj().T.dot(L) + (np.conj(e) + w / dt) * L
        return G

    def check(self, st):
        s, q = st.s, st.cfg["q"]
        N, hs = s.N, s.ham_sites
        close(vec(s), st.psi, "diss.state", 1e-8, 1., "state vector")
        v = st.psi.ravel()
        # expectation values are those of the current state
        for (n, L), F in zip(st.J, st.fulls):
            op = L.reshape(q[n - 1:n - 1 + hs] * 2)
            with Guard("diss.expect"):
                x = (s.expect_2s if hs == 2 else s.expect_3s)(op, n)
            close(x, np.vdot(v, F.dot(v)), "diss.expect", 1e-8, 1., "expectation value of a jump operator")
        for n in range(1, N - hs + 2):
            if st.terms[n] is not None and st.cfg["enc"] == "array":
                with Guard("diss.expect"):
                    x = (s.expect_2s if hs == 2 else s.expect_3s)(s.ham[n], n)
                close(x, ref.expect(st.psi, st.terms[n], list(range(n - 1, n - 1 + hs))), "diss.expect_ham", 1e-8, 1., "expectation value of a Hamiltonian term")
        self.onesite(st)
        if not self.conditioned(st, 1e-5):
            return
        A0 = [a.copy() for a in tensors(s)]
        T = ref.tangent_basis(A0)
        k = len(st.J)
        for dt in (0.01, 0.3):
            for pat in self.patterns(k):
                c = copy.deepcopy(s)
                ham0 = c.ham
                save = pat and pat[0] > 0
                lin0 = [L.copy() for n, L in c.linds]
                with Guard("diss.step"):
                    with Noise(pat):
                        c.take_step_dissipative(dt, save_memory=bool(save))
                W = [np.sqrt(dt) * (pat[2 * j] + 1j * pat[2 * j + 1]) / np.sqrt(2) for j in range(k)]
                G = self.drift(st, W, dt)
                gv = G.dot(v)
                p, _ = ref.projector_apply(T, gv)
                want = p - v * np.vdot(v, p)
                B = [(np.asarray(c.A[n]) - A0[n - 1]) / dt for n in range(1, N + 1)]
                t = ref.tangent_vector(A0, B).ravel()
                close(t, want, "diss.projection", 1e-7, max(1., la.norm(gv)), "direction of the step (noise %s)" % (pat,))
                # nothing but the tensors moved
                need(c.ham is ham0 or callable(c.ham) and c.ham == ham0, "diss.ham", "the Hamiltonian was replaced")
                if st.cfg["enc"] == "array" and c.ham is not None:
                    for n in range(1, N - hs + 2):
                        if st.terms[n] is not None:
                            need(np.array_equal(c.ham[n].ravel(), st.terms[n].ravel()), "diss.ham", "Hamiltonian term %d was changed", n)
                for a, (n, L) in zip(lin0, c.linds):
                    need(np.array_equal(a, L), "diss.linds", "a jump operator was changed")
                need(np.isnan(c.H_expect), "diss.H_expect", "the energy field holds %s after a step", c.H_expect)
        self.mean(st)
        self.expansion(st)

    def onesite(self, st):
        """calc_B_1s_diss: the operator applied with the norm change projected out."""
        s, q = st.s, st.cfg["q"]
        v = st.psi
        for n in range(1, s.N + 1):
            for nm in ("h", "g"):
                op = op1(nm, q[n - 1])
                for arg in (op, as_callable(op, [q[n - 1]])):
                    with Guard("diss.onesite"):
                        B = s.calc_B_1s_diss(arg, n)
                    w = ref.op_apply(v, op, [n - 1])
                    w = w - v * np.vdot(v, w)
                    t = ref.tangent_vector([np.asarray(a) for a in tensors(s)], [B if j == n else None for j in range(1, s.N + 1)])
                    close(t.ravel(), w.ravel(), "diss.onesite", 1e-8, 1., "site %d" % n)

    def mean(self, st):
        """With full bond dimensions: averaging over a noise with the right
        first and second moments (all sign patterns) gives the Lindblad flow to
        first order in the step."""
        s, q = st.s, st.cfg["q"]
        k = len(st.J)
        if k > 2 or list(s.D) != flow.maxranks(q) or not self.conditioned(st, 1e-2):
            return
        v = st.psi.ravel()
        rho = np.outer(v, v.conj())
        LL = -1j * (st.H.dot(rho) - rho.dot(st.H))
        for L in st.fulls:
            M = L.conj().T.dot(L)
            LL = LL + L.dot(rho).dot(L.conj().T) - 0.5 * (M.dot(rho) + rho.dot(M))
        res = []
        for dt in (2e-3, 1e-3):
            avg = np.zeros_like(rho)
            pats = list(itertools.product((-1., 1.), repeat=2 * k))
            for pat in pats:
                c = copy.deepcopy(s)
                with Guard("diss.step"):
                    with Noise(pat):
                        c.take_step_dissipative(dt)
                w = vec(c).ravel()
                w = w / la.norm(w)
                avg += np.outer(w, w.conj()) / len(pats)
            res.append(avg - rho - dt * LL)
        # the errors are of second order: the combination below removes them
        e1, e2 = la.norm(res[0]), la.norm(res[1])
        sc = max(1., sum(la.norm(L, 2) ** 2 for L in st.fulls) + la.norm(st.H, 2))
        need(e2 <= 0.4 * e1 + 1e-9, "diss.mean", "mean change of the density matrix is not that of the master equation: errors %g, %g for steps 2e-3, 1e-3 (scale %g)", e1, e2, sc)

    def expansion(self, st):
        """Dynamical expansion adds the two-site part of the drift."""
        s, q = st.s, st.cfg["q"]
        N, k = s.N, len(st.J)
        if s.ham_sites != 2 or max(s.D) > 1 or k == 0:
            return
        A0 = [a.copy() for a in tensors(s)]
        v = st.psi.ravel()
        T = np.concatenate([two_site_basis(A0, n).reshape(v.size, -1) for n in range(1, N)], axis=1)
        pat = [0.4 * (-1) ** i for i in range(2 * k)]
        r = []
        for dt in (2e-3, 1e-3):
            c = copy.deepcopy(s)
            with Guard("diss.dynexp"):
                with Noise([x * dt for x in pat], absolute=True):
                    c.take_step_dissipative(dt, dynexp=True)
            W = [(pat[2 * j] + 1j * pat[2 * j + 1]) / np.sqrt(2) for j in range(k)]
            gv = self.drift(st, W, 1.).dot(v)
            p, _ = ref.projector_apply(T, gv)
            want = v + dt * (p - v * np.vdot(v, p))
            check_shapes(c, "diss.dynexp.shape") if False else None
            r.append(la.norm(vec(c).ravel() - want))
        need(r[1] <= 0.35 * r[0] + 1e-9, "diss.dynexp", "expanded step differs from the two-site drift: %g, %g for steps 2e-3, 1e-3", r[0], r[1])


from . import flow
