"""Uniform (infinite) chain worlds U01-U05."""
import copy
import itertools
import os
import numpy as np
import scipy.linalg as la

from .uni_common import *


class UWorld(World):
    """Shared: histories of representation changes; `check` is per property."""
    name = "u.base"
    depth = 1

    def make(self, cfg):
        return new_mps(cfg)

    def init(self, cfg):
        s, A = self.make(cfg)
        st = UState(s, A)
        st.cfg = cfg
        seed_for("u", cfg["q"], cfg["D"], cfg["L"], cfg["kind"])
        if cfg.get("solver") == "brute":
            s.ev_brute = True
        if cfg.get("solver") == "power":
            s.ev_use_arpack = False
        if st.inf().gap() < (0.05 if cfg.get("solver") == "power" else 1e-3):
            raise Disabled()
        for k in range(cfg["L"]):
            lam = st.inf().schmidt_sq(k)
            if np.any((lam > 1e-14) & (lam < 1e-6)):
                raise Disabled()            # conditioning is not the property
        if cfg["kind"] in ("ker", "kerl", "kerr", "eqmod", "eqmodr"):
            s.zero_tol = 1e-11
        with Guard("u.update"):
            s.update()
        st.info = ["scf" if s.symm_gauge else "rcf"] * s.L
        return st

    def key(self, st):
        s = st.s
        return canon(str(st.info), bool(s.symm_gauge), s.D, s.q, s.L, *utens(s))

    def actions(self, st):
        out = [("update", True), ("update", False), ("gauge", False), ("gauge", True), ("scale",), ("scale", 3e-5j), ("scale", 2e4), ("toggle",), ("sync",)]
        out += [("rcf", True), ("rcf", False), ("lcf", True), ("lcf", False), ("scf",)]
        if st.s.L > 1:
            out += [("rcf1", 0), ("lcf1", st.s.L - 1), ("roll",)]
        return out

    def step(self, st, act):
        s = st.s
        k = act[0]
        sig = "u." + k
        CF = "scf" if s.symm_gauge else "rcf"
        if k == "update":
            with Guard(sig):
                s.update(restore_CF=act[1])
            st.info = [CF if act[1] else "raw"] * s.L
        elif k == "gauge":
            gauge_u(s, "g")
            with Guard(sig):
                s.update(restore_CF=act[1])
            st.info = [CF if act[1] else "raw"] * s.L
        elif k == "scale":
            if len(act) == 1:
                s.A[s.L - 1] = s.A[s.L - 1] * (-0.3 + 0.2j)
                with Guard(sig):
                    s.update(restore_CF=False)
                st.info = ["raw"] * s.L
            else:
                # far from normalised
                s.A[0] = s.A[0] * act[1]
                with Guard(sig):
                    s.update()
                st.info = [CF] * s.L
        elif k == "toggle":
            s.symm_gauge = not s.symm_gauge
            CF = "scf" if s.symm_gauge else "rcf"
            with Guard(sig):
                s.restore_CF()
            st.info = [CF] * s.L
        elif k == "sync":
            with Guard(sig):
                s.calc_lr()
                s.calc_AA()
            st.info = ["raw"] * s.L
        elif k in ("rcf", "lcf"):
            A0 = utens(s)
            with Guard(sig):
                if k == "rcf":
                    g = s.restore_RCF(diag_l=act[1], ret_g=True)
                else:
                    g = s.restore_LCF(diag_r=act[1], ret_g=True)
            need(g is not None, sig + ".ret_g", "no gauge transformation returned")
            G, Gi = g
            full = st.inf().schmidt_sq(0)[:s.D]
            for j in range(s.L):
                if k == "rcf":
                    w = np.einsum('ab,sbc,cd->sad', arr(Gi[j - 1]), A0[j], arr(G[j]))
                else:
                    w = np.einsum('ab,sbc,cd->sad', arr(Gi[j - 1]), A0[j], arr(G[j]))
                close(s.A[j], w, sig + ".ret_g", 1e-8, max(1., la.norm(w)), "A[%d] vs returned gauge transformation" % j)
            st.info = [k if act[1] else k + "_nd"] * s.L
        elif k == "scf":
            with Guard(sig):
                s.restore_SCF()
            st.info = ["scf"] * s.L
        elif k == "rcf1":
            with Guard(sig):
                s.restore_RCF(ks=[act[1]])
            st.info = list(st.info)
            st.info[act[1]] = "rcf"
        elif k == "lcf1":
            with Guard(sig):
                s.restore_LCF(ks=[act[1]])
            st.info = list(st.info)
            st.info[act[1]] = "lcf"
        elif k == "roll":
            # translate by one site by hand
            s.A = s.A[1:] + s.A[:1]
            st.m = st.m[1:] + st.m[:1]
            with Guard(sig):
                s.update(restore_CF=False)
            st.info = ["raw"] * s.L
        return st

    def check(self, st):
        pass


class UGaugeWorld(UWorld):
    """U01"""
    name = "u.gauge"

    def configs(self, tier):
        if tier == "quick":
            for c in ucfgs(kinds=("rand", "gauge"), Ds=(1, 2, 3, 4)):
                yield c
            for c in ucfgs(kinds=("low", "pad", "prod", "near", "aklt", "cat", "real"), Ds=(2, 3, 4), Ls=(1, 2)):
                yield c
            for c in ucfgs(kinds=("rand",), Ds=(5, 6), qs=(2,), Ls=(1, 2, 3)):
                yield c
            for sv in ("brute", "power"):
                for c in ucfgs(kinds=("rand", "gauge"), Ds=(2, 4), qs=(2,), solver=sv):
                    yield c
            for c in ucfgs(kinds=("rand", "gauge", "cat", "per2"), Ds=(2, 3), qs=(2,), Ls=(4, 5)):
                yield dict(c, depth=1)
            # fixed points with special entries: vanishing sums, equal moduli
            for c in ucfgs(kinds=("kerl", "kerr", "eqmod", "eqmodr"), Ds=(2, 3, 4, 5), Ls=(1, 2)):
                yield dict(c, depth=1)
            for c in ucfgs(kinds=("ker",), Ds=(2, 3, 4, 5), Ls=(1, 2), qs=(2,)):
                yield dict(c, depth=1)
            for sv in ("brute", "power"):
                for c in ucfgs(kinds=("kerl", "kerr", "eqmod", "eqmodr"), Ds=(2, 4), Ls=(1, 2), qs=(2,), solver=sv):
                    yield dict(c, depth=1)
        else:
            for sv in ("arpack", "brute", "power"):
                for c in ucfgs(kinds=("kerl", "kerr", "eqmod", "eqmodr"), Ds=(2, 3, 4, 5, 6), solver=sv):
                    yield dict(c, depth=2)
            for c in ucfgs(kinds=("rand", "gauge", "real", "low", "pad", "prod", "near", "aklt", "cat"), Ds=(1, 2, 3, 4, 5)):
                yield dict(c, depth=2)
            for c in ucfgs(kinds=("rand", "gauge"), Ds=(6, 8), qs=(2, 3), Ls=(1, 2, 3, 4)):
                yield dict(c, depth=2)
            for sv in ("brute", "power"):
                for c in ucfgs(kinds=("rand", "gauge", "near"), Ds=(2, 3, 4, 5), solver=sv):
                    yield dict(c, depth=2)

    def depth_for(self, cfg, tier):
        return cfg.get("depth", 2 if cfg["D"] <= 3 and cfg["q"] == 2 and cfg["L"] <= 2 else 1)

    def check(self, st):
        s = st.s
        inf = st.inf()
        same_state(s, inf, "u.state")
        check_fixed_points(s)
        for k in range(s.L):
            if st.info[k] != "raw":
                check_form(s, inf, st.info[k], k)


def sym_string_cases(inf, q):
    pass


class UObsWorld(UWorld):
    """U02: expectation values of infinite chains."""
    name = "u.obs"

    def configs(self, tier):
        if tier == "quick":
            for c in ucfgs(kinds=("rand", "gauge"), Ds=(1, 2, 3)):
                yield c
            for c in ucfgs(kinds=("rand",), Ds=(4, 5), qs=(2,), Ls=(1, 2, 3)):
                yield c
            for c in ucfgs(kinds=("pad", "low", "prod", "aklt", "cat"), Ds=(2, 3), Ls=(1, 2)):
                yield c
            for c in ucfgs(kinds=("rand", "per2"), Ds=(2,), qs=(2,), Ls=(4, 5)):
                yield dict(c, depth=1)
        else:
            for c in ucfgs(kinds=("rand", "gauge", "real", "low", "pad", "prod", "near", "aklt", "cat"), Ds=(1, 2, 3, 4, 5)):
                yield dict(c, depth=3 if c["D"] <= 4 else 2)

    def depth_for(self, cfg, tier):
        return cfg.get("depth", 2)

    def actions(self, st):
        out = [("update", False), ("gauge", False), ("toggle",), ("lcf", True), ("scale",)]
        if st.s.L > 1:
            out += [("roll",)]
        return out

    def check(self, st):
        s, inf = st.s, st.inf()
        q, L, D = s.q, s.L, s.D
        same_state(s, inf, "uobs.state")
        A0 = utens(s)
        lr0 = [arr(x).copy() for x in list(s.l) + list(s.r)]
        for k in range(L):
            for name in ("z", "up", "h", "g", "id"):
                o = op1(name, q)
                w = inf.expect(o, k, 1)
                with Guard("uobs.expect_1s"):
                    x = s.expect_1s(o, k)
                    y = s.expect_1s(as_callable(o, [q]), k)
                close(x, w, "uobs.expect_1s", 1e-8, 1.0, "<%s_%d>" % (name, k))
                close(y, w, "uobs.expect_1s.callable", 1e-8, 1.0, "<%s_%d>" % (name, k))
            for name in ("g", "h"):
                o = opk(name, [q, q])
                t = o.reshape([q] * 4)
                w = inf.expect(o, k, 2)
                with Guard("uobs.expect_2s"):
                    x = s.expect_2s(t, k)
                    y = s.expect_2s(as_callable(o, [q, q]), k)
                close(x, w, "uobs.expect_2s", 1e-8, 3.0, "two-site operator at %d" % k)
                close(y, w, "uobs.expect_2s.callable", 1e-8, 3.0, "two-site operator at %d" % k)
                if q == 2 or L == 1:
                    o = opk(name, [q, q, q])
                    t = o.reshape([q] * 6)
                    w = inf.expect(o, k, 3)
                    with Guard("uobs.expect_3s"):
                        x = s.expect_3s(t, k)
                    close(x, w, "uobs.expect_3s", 1e-8, 5.0, "three-site operator at %d" % k)
                    if name == "g":
                        with Guard("uobs.expect_3s"):
                            y = s.expect_3s(as_callable(o, [q, q, q]), k)
                        close(y, w, "uobs.expect_3s.callable", 1e-8, 5.0, "three-site operator at %d" % k)
            a, b, c, d = op1("g", q), op1("up", q), op1("z", q), op1("u", q)
            w = inf.expect(np.kron(a, b) + np.kron(c, d), k, 2)
            with Guard("uobs.expect_2s_tp"):
                x = s.expect_2s_tp([[a, b], [c, d]], k)
            close(x, w, "uobs.expect_2s_tp", 1e-8, 3.0, "tensor-product operator at %d" % k)
            for n1, n2 in (("g", "up"), ("h", "z"), ("up", "up")):
                a, b = op1(n1, q), op1(n2, q)
                dm = 2 * L + 2
                w = [inf.expect(a.dot(b), k, 1)]
                for dd in range(1, dm + 1):
                    w.append(inf.string([a] + [None] * (dd - 1) + [b], k))
                with Guard("uobs.expect_1s_1s"):
                    x = s.expect_1s_1s(a, b, dm, k, return_intermediates=True)
                    y = [s.expect_1s_1s(a, b, dd, k) for dd in range(1, dm + 1)]
                    z = s.expect_1s_1s(as_callable(a, [q]), as_callable(b, [q]), 2, k)
                close(x, w, "uobs.expect_1s_1s", 1e-8, 1.0, "<%s %s> from %d" % (n1, n2, k))
                close(y, w[1:], "uobs.expect_1s_1s", 1e-8, 1.0, "<%s %s> from %d" % (n1, n2, k))
                close(z, w[2], "uobs.expect_1s_1s.callable", 1e-8, 1.0)
                e1 = [inf.expect(a, (k + j) % L, 1) for j in range(dm + 1)]
                e2 = [inf.expect(b, (k + j) % L, 1) for j in range(dm + 1)]
                wc = [w[j] - e1[0] * e2[j] for j in range(dm + 1)]
                with Guard("uobs.correlation"):
                    x = s.correlation_1s_1s(a, b, dm, k)
                    y, f1, f2 = s.correlation_1s_1s(a, b, dm, k, return_exvals=True)
                    z = s.correlation_1s_1s(as_callable(a, [q]), as_callable(b, [q]), 2, k)
                    short = [s.correlation_1s_1s(a, b, dd, k, return_exvals=True) for dd in range(1, dm)]
                close(x, wc, "uobs.correlation", 1e-8, 1.0, "correlations from %d" % k)
                close(y, wc, "uobs.correlation", 1e-8, 1.0, "correlations from %d" % k)
                close(f1, e1, "uobs.correlation.ex1", 1e-8, 1.0)
                close(f2, e2, "uobs.correlation.ex2", 1e-8, 1.0)
                close(z, wc[:3], "uobs.correlation.callable", 1e-8, 1.0)
                for dd in range(1, dm):
                    close(short[dd - 1], [wc[:dd + 1], e1[:dd + 1], e2[:dd + 1]], "uobs.correlation", 1e-8, 1.0, "correlations from %d up to %d" % (k, dd))
            for name in ("u", "g", "up", "z"):
                o = op1(name, q)
                dm = 2 * L + 1
                w = [inf.string([o] * dd, k) for dd in range(1, dm + 1)]
                sc = max(1., np.max(np.abs(w)))
                with Guard("uobs.string"):
                    x = s.expect_string_1s(o, k, dm)
                    y = s.expect_string_1s(as_callable(o, [q]), k, dm)
                    xs = [s.expect_string_1s(o, k, dd) for dd in range(1, dm)]
                close(x, w, "uobs.string", 1e-8, sc, "strings of %s from %d" % (name, k))
                close(y, w, "uobs.string.callable", 1e-8, sc)
                for dd in range(1, dm):
                    close(xs[dd - 1], w[:dd], "uobs.string", 1e-8, sc, "strings of %s from %d, up to length %d" % (name, k, dd))
            rho = inf.rdm(k, 1)
            with Guard("uobs.density_1s"):
                x = s.density_1s(k)
            close(x, rho.T, "uobs.density_1s", 1e-8, 1.0, "density matrix of site %d" % k)
            with Guard("uobs.basis_occupancy"):
                x = s.basis_occupancy(k)
            close(x, np.diag(rho).real, "uobs.basis_occupancy", 1e-8, 1.0, "occupancies of site %d" % k)
        # the position may be omitted for the first site of the block
        o, o2, a, b = op1("g", q), opk("g", [q, q]).reshape([q] * 4), op1("g", q), op1("up", q)
        d = L + 1
        with Guard("uobs.default"):
            for x, y, w in ((s.expect_1s(o), s.expect_1s(o, 0), "expect_1s"), (s.expect_2s(o2), s.expect_2s(o2, 0), "expect_2s"),
                            (s.expect_2s_tp([[a, b]]), s.expect_2s_tp([[a, b]], 0), "expect_2s_tp"),
                            (s.expect_1s_1s(a, b, d), s.expect_1s_1s(a, b, d, 0), "expect_1s_1s"),
                            (s.correlation_1s_1s(a, b, d), s.correlation_1s_1s(a, b, d, 0), "correlation_1s_1s"),
                            (s.density_1s(), s.density_1s(0), "density_1s"), (s.basis_occupancy(), s.basis_occupancy(0), "basis_occupancy")):
                close(x, y, "uobs.default." + w, 1e-10, max(1., np.max(np.abs(y))), w + "() without a position")
            if q == 2:
                o3 = opk("g", [q, q, q]).reshape([q] * 6)
                close(s.expect_3s(o3), s.expect_3s(o3, 0), "uobs.default.expect_3s", 1e-10, 5., "expect_3s() without a position")
        need(not np.iterable(s.expect_1s_1s(a, b, d)), "uobs.default.expect_1s_1s", "intermediates returned by default")
        for a, b in zip(A0, s.A):
            need(np.array_equal(a, b), "uobs.readonly", "measuring changed the tensors")
        for a, b in zip(lr0, list(s.l) + list(s.r)):
            need(np.array_equal(a, arr(b)), "uobs.readonly", "measuring changed l or r")


class USpecWorld(UWorld):
    """U03: Schmidt spectra, entropies, correlation lengths, infinite strings
    and half-chain expectation values."""
    name = "u.spec"

    def configs(self, tier):
        if tier == "quick":
            for c in ucfgs(kinds=("rand", "z2", "u1", "aklt"), Ds=(1, 2, 3, 4)):
                yield c
            for c in ucfgs(kinds=("pad", "prod", "low", "cat"), Ds=(2, 3), Ls=(1, 2)):
                yield c
            for c in ucfgs(kinds=("long",), Ds=(2, 3), qs=(2,), Ls=(1, 2, 3)):
                yield c
            for c in ucfgs(kinds=("rand", "z2"), Ds=(9,), qs=(2,), Ls=(1, 2)):
                yield c
            for c in ucfgs(kinds=("rand", "per2", "z2"), Ds=(2, 3), qs=(2,), Ls=(4, 5)):
                yield dict(c, depth=1)
        else:
            for c in ucfgs(kinds=("rand", "z2", "u1", "aklt", "gauge", "near", "pad", "prod", "low", "cat"), Ds=(1, 2, 3, 4, 5, 6)):
                yield dict(c, depth=3 if c["D"] <= 4 else 2)
            for c in ucfgs(kinds=("rand", "z2", "u1"), Ds=(9, 10), qs=(2, 3), Ls=(1, 2, 3)):
                yield c

    def depth_for(self, cfg, tier):
        return cfg.get("depth", 2)

    def actions(self, st):
        out = [("update", False), ("gauge", False), ("toggle",), ("rcf", True), ("scf",), ("scale",)]
        if st.s.L > 1:
            out += [("roll",)]
        return out

    def check(self, st):
        s, inf = st.s, st.inf()
        q, L, D = s.q, s.L, s.D
        same_state(s, inf, "uspec.state", window=2)
        for k in range(L):
            lam = inf.schmidt_sq(k)
            with Guard("uspec.schmidt"):
                x = np.asarray(s.schmidt_sq(k))
            close(np.sort(np.real(x))[::-1], lam[:D], "uspec.schmidt", 1e-7, 1.0, "Schmidt weights of bond %d" % k)
            close(np.imag(x), 0 * np.real(x), "uspec.schmidt.real", 1e-7)
            w = ref.entropy_bits(lam)
            with Guard("uspec.entropy"):
                S = s.entropy(k)
                S2, x2 = s.entropy(k, ret_schmidt_sq=True)
            close(S, w, "uspec.entropy", 1e-5, 1.0, "entropy of bond %d" % k)
            close(S2, w, "uspec.entropy", 1e-5, 1.0, "entropy of bond %d" % k)
            close(np.sort(np.real(x2))[::-1], lam[:D], "uspec.entropy.schmidt", 1e-7, 1.0)
        with Guard("uspec.default"):
            x, y, z = s.schmidt_sq(), s.entropy(), s.maxD_is_less_than
            close(np.sort(np.real(x))[::-1], inf.schmidt_sq(0)[:D], "uspec.default.schmidt_sq", 1e-7, 1.0, "schmidt_sq() without a position")
            close(y, ref.entropy_bits(inf.schmidt_sq(0)), "uspec.default.entropy", 1e-5, 1.0, "entropy() without a position")
            need([bool(z(n)) for n in (D - 1, D, D + 1)] == [False, False, True], "uspec.maxD", "maxD_is_less_than around D=%d", D)
        sp_ = np.abs(inf.spec) / abs(inf.spec[0])
        with Guard("uspec.gap"):
            g = s.calc_E_gap() if D > 1 else None
        if D > 1 and sp_[1] > 1e-4:
            close(g, 1 - sp_[1], "uspec.gap", 1e-7, 1.0, "spectral gap")
        with Guard("uspec.corr_length"):
            xi = s.correlation_length()
        if D == 1:
            close(xi, 0., "uspec.corr_length", 1e-12)
        elif 1e-4 < sp_[1] < 1 - 1e-6:
            w = -L / np.log(sp_[1])
            close(xi, w, "uspec.corr_length", 1e-6, max(1., w), "correlation length")
        elif sp_[1] <= 1e-4:
            need(0 <= xi < L / 4., "uspec.corr_length", "correlation length %s of a product state", xi)
        # infinite strings
        ops = [("u", op1("u", q)), ("z", op1("z", q)), ("par", np.diag([(-1.) ** t for t in range(q)]).astype(complex))]
        if q == 3:
            ops.append(("sx", la.expm(1j * np.pi / np.sqrt(2) * np.array([[0, 1, 0], [1, 0, 1], [0, 1, 0]]))))
        for name, o in ops:
            ev, per = self.string_ev(inf, o)
            if len(ev) > 1 and abs(abs(ev[0]) - abs(ev[1])) < 1e-3 * abs(ev[0]):
                continue                       # several dominant sectors
            if abs(ev[0]) < 1e-6:
                continue
            for oo, w in ((o, ""), (as_callable(o, [q]), ".callable")):
                with Guard("uspec.string_per_site"):
                    x = s.expect_string_per_site_1s(oo)
                need(np.size(x) == 1, "uspec.string_per_site", "value %s", x)
                close(np.ravel(x)[0] ** L, ev[0], "uspec.string_per_site" + w, 1e-7, max(1., abs(ev[0])), "infinite string of %s" % name)
        CF = all(i in ("scf", "rcf") for i in st.info) and len(set(st.info)) == 1 and \
            (st.info[0] == "scf") == bool(s.symm_gauge) and self.full_rank(inf)
        if not CF:
            return
        kind = st.cfg["kind"]
        sym = []
        if kind in ("z2", "u1", "aklt"):
            sym.append(("par", np.diag([(-1.) ** t for t in range(q)]).astype(complex)))
        if kind in ("u1", "aklt"):
            sym.append(("rot", np.diag(np.exp(0.8j * np.array([1, 0, -1])))))
        if kind == "aklt":
            sym.append(("sx", la.expm(1j * np.pi / np.sqrt(2) * np.array([[0, 1, 0], [1, 0, 1], [0, 1, 0]]))))
            sym.append(("tilt", la.expm(1.1j / np.sqrt(2) * np.array([[0, 1, 0], [1, 0, 1], [0, 1, 0]])).dot(np.diag(np.exp(.4j * np.array([1, 0, -1]))))))
        sym.append(("id", np.eye(q, dtype=complex)))
        A = [np.asarray(a) for a in s.A]
        for k in range(L):
            r = arr(s.r[k - 1])
            for name, o in sym:
                v, ev = self.mixed_right(A, o, k)
                G = la.inv(r).dot(v) if True else v
                G = G / np.sqrt(np.trace(G.dot(G.conj().T)) / D)       # placeholder norm
                ssq = inf.schmidt_sq((k - 1) % L)
                for oo, w in ((o, ""), (as_callable(o, [q]), ".callable")):
                    with Guard("uspec.string_hc"):
                        x, ol, V = s.expect_string_1s_density_hc(oo, k, return_g=True)
                        x2, ol2 = s.expect_string_1s_density_hc(oo, k)
                    sig = "uspec.string_hc" + w
                    if k == 0:
                        with Guard("uspec.string_hc"):
                            x3, ol3 = s.expect_string_1s_density_hc(oo)
                        close(np.abs(x3), np.abs(x), sig + ".default", 1e-7, 1.0, "values without a position")
                        close(ol3, ol, sig + ".default", 1e-7, 1.0, "overlap without a position")
                    close(abs(np.ravel(ol)[0]), 1., sig + ".overlap", 1e-7, 1.0, "overlap per site of %s" % name)
                    close(np.ravel(ol)[0] ** L, ev, sig + ".overlap", 1e-7, 1.0, "overlap per site of %s" % name)
                    close(x, np.diag(V), sig + ".diag", 1e-8, 1.0)
                    close(np.abs(x2), np.abs(x), sig + ".repeat", 1e-7, 1.0)
                    # V represents the string on the bond: sum_t o[s,t] A_t.. V = V A_s (up to the phase of the overlap)
                    self.check_virt(A, o, k, V, ev, r, sig)
                    # unitary in the Schmidt basis
                    if s.symm_gauge:
                        d = np.sqrt(np.diag(r).real)
                        U = (d[:, None] * V) / d[None, :]
                    else:
                        U = V
                    close(U.dot(U.conj().T), np.eye(D), sig + ".unitary", 1e-6, 1.0, "virtual representation of %s at %d" % (name, k))
                    top = np.argmax(np.diag(arr(s.l[k - 1]).dot(r)).real)
                    if abs(x[top]) > 1e-3:
                        need(abs(np.imag(x[top])) < 1e-6 and np.real(x[top]) > 0, sig + ".phase", "phase of the leading value %s", x[top])
            if kind in ("u1", "aklt"):
                Q = np.diag([1., 0., -1.]).astype(complex)
                with Guard("uspec.sum_hc"):
                    x, e, V = s.expect_sum_1s_density_hc(Q, k, tol=1e-13, return_g=True)
                    x2, e2 = s.expect_sum_1s_density_hc(Q, k, tol=1e-13)
                close(e, 0., "uspec.sum_hc.total", 1e-7, 1.0)
                w = self.half_sum(A, Q, k, arr(s.l[k - 1]), r)
                close(x, w, "uspec.sum_hc", 1e-6, 1.0, "charges of the Schmidt vectors at %d" % k)
                close(x2, w, "uspec.sum_hc", 1e-6, 1.0, "charges of the Schmidt vectors at %d" % k)
                close(np.diag(V), x, "uspec.sum_hc.diag", 1e-8, 1.0)
                if k == 0:
                    with Guard("uspec.sum_hc"):
                        x3, e3 = s.expect_sum_1s_density_hc(Q)
                    close(x3, x, "uspec.sum_hc.default", 1e-4, 1.0, "charges without a position")
        if D == 1:
            Q = op1("h", q)
            Q = Q - np.mean([inf.expect(Q, k, 1) for k in range(L)]) * np.eye(q)
            with Guard("uspec.sum_hc"):
                res = s.expect_sum_1s_density_hc(Q, 0)
            need(isinstance(res, tuple) and len(res) == 2, "uspec.sum_hc.D1", "returned %s", res)
            close(np.ravel(res[0]), np.zeros(1), "uspec.sum_hc.D1", 1e-9, 1.0)

    def full_rank(self, inf):
        return all(inf.schmidt_sq(k)[-1] > 1e-5 for k in range(inf.L))

    def string_ev(self, inf, o):
        B = [np.einsum('st,tab->sab', o, a) for a in inf.A]
        E, n = uref.block_E(B, inf.A)
        w = la.eigvals(E)
        w = w[np.argsort(-np.abs(w))]
        return w, n

    def mixed_right(self, A, o, k):
        L, D = len(A), A[0].shape[1]
        B = [np.einsum('st,tab->sab', o, a) for a in A]
        E, n = uref.block_E(B, A, k)
        w, v = la.eig(E)
        i = np.argmax(np.abs(w))
        return v[:, i].reshape(D, D), w[i]

    def check_virt(self, A, o, k, V, ev, r, sig):
        """The mixed environment r V is an eigenvector of the mixed transfer
        matrix of the block starting at site k."""
        L = len(A)
        x = r.dot(V)
        y = x
        for j in reversed(range(L)):
            a = A[(k + j) % L]
            b = np.einsum('st,tab->sab', o, a)
            y = sum(b[t].dot(y).dot(a[t].conj().T) for t in range(a.shape[0]))
        close(y, ev * x, sig + ".eigenvector", 1e-6, max(1e-3, la.norm(x)), "virtual representation at %d" % k)

    def half_sum(self, A, Q, k, l, r):
        """Diagonal of r^-1 sum_n E^n (Q inserted in block n)."""
        L, D, q = len(A), A[0].shape[1], A[0].shape[0]
        X = np.zeros((D, D), dtype=complex)
        for j in range(L):
            y = r
            for i in reversed(range(L)):
                a = A[(k + i) % L]
                if i == j:
                    b = np.einsum('st,tab->sab', Q, a)
                    y = sum(b[t].dot(y).dot(a[t].conj().T) for t in range(q))
                else:
                    y = sum(a[t].dot(y).dot(a[t].conj().T) for t in range(q))
            X += y
        E, _ = uref.block_E(A, A, k)
        P = np.outer(r.ravel(), l.conj().ravel())
        M = la.solve(np.eye(D * D) - E + P, X.ravel() - r.ravel() * np.vdot(l, X)).reshape(D, D)
        return np.diag(la.inv(r).dot(M))
