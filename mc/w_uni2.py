"""Infinite chains: U04 (changing dimensions, operators, blocking) and
U05 (overlaps and alignment)."""
import itertools
import numpy as np
import scipy.linalg as la

from .uni_common import *
from .w_uni import UWorld


def canonical_ref(inf):
    """Per bond: (Schmidt weights descending, tensors in right canonical form
    with weights in this order); rank-deficient directions dropped."""
    L = inf.L
    X, Xi, W = [], [], []
    for k in range(L):
        l, r = inf.l[k], inf.r[k]
        w, v = la.eigh(r)
        keep = w > 1e-12 * w.max()
        rt = v[:, keep] * np.sqrt(w[keep])               # r = rt rt^H
        rti = (v[:, keep] / np.sqrt(w[keep])).conj().T
        y = rt.conj().T.dot(l).dot(rt)
        lam, u = la.eigh((y + y.conj().T) / 2)
        o = np.argsort(-lam)
        o = o[lam[o] > 1e-12]
        W.append(lam[o])
        X.append(rt.dot(u[:, o]))
        Xi.append(u[:, o].conj().T.dot(rti))
    A = [np.einsum('ab,sbc,cd->sad', Xi[k - 1], inf.A[k], X[k]) for k in range(L)]
    return W, A


def truncated_ref(inf, newD):
    W, A = canonical_ref(inf)
    L = inf.L
    out = []
    for k in range(L):
        a = np.zeros((inf.q, newD, newD), dtype=complex)
        b = A[k][:, :newD, :newD]
        a[:, :b.shape[1], :b.shape[2]] = b
        out.append(a)
    return W, out


class UShapeWorld(UWorld):
    """U04: truncation, expansion, local dimension, blocking, operators."""
    name = "u.shape"

    def configs(self, tier):
        if tier == "quick":
            for c in ucfgs(kinds=("rand", "gauge", "real"), Ds=(1, 2, 3, 4)):
                yield c
            for c in ucfgs(kinds=("low", "pad", "prod", "aklt", "near"), Ds=(2, 3, 4), Ls=(1, 2)):
                yield c
            for c in ucfgs(kinds=("rand",), Ds=(5, 6), qs=(2,), Ls=(1, 2, 3)):
                yield c
            for c in ucfgs(kinds=("rand", "per2"), Ds=(2, 3), qs=(2,), Ls=(4, 5)):
                yield dict(c, depth=1)
        else:
            for c in ucfgs(kinds=("rand", "gauge", "real", "low", "pad", "prod", "near", "aklt", "cat"), Ds=(1, 2, 3, 4, 5)):
                yield dict(c, depth=2)
            for c in ucfgs(kinds=("rand", "near"), Ds=(6, 8), qs=(2, 3)):
                yield c

    def depth_for(self, cfg, tier):
        return cfg.get("depth", 2 if cfg["D"] <= 3 and cfg["q"] == 2 and cfg["L"] <= 2 else 1)

    def actions(self, st):
        s = st.s
        out = []
        canon_ok = all(i in ("scf", "rcf") for i in st.info) and len(set(st.info)) == 1 and \
            (st.info[0] == "scf") == bool(s.symm_gauge)
        if canon_ok:
            for nD in range(1, s.D):
                out += [("trunc", nD, True), ("trunc", nD, False)]
            out += [("auto", j, u) for j in range(0, s.D + 1) for u in (True, False)]
            out += [("upd_tol", j) for j in range(1, s.D)]
        out += [("upd_auto", True), ("upd_auto", False)]
        if s.D <= 5:
            out += [("expand", s.D + 1, 0), ("expand", s.D + 2, 0), ("expand", s.D + 1, True), ("expand", s.D + 1, "default"), ("expand", s.D, True), ("expand", s.D - 1, True)]
        if s.q <= 3:
            out += [("set_q", s.q + 1, 0), ("set_q", s.q + 2, 1), ("set_q", s.q + 1, 1), ("set_q", s.q + 1)]
        if s.q > 1:
            out += [("set_q", s.q - 1, 0), ("set_q", s.q - 1, -1), ("set_q", s.q - 1)]
        if s.q ** s.L <= 32:
            out += [("block", True), ("block", False)]
        for k in range(s.L):
            out += [("op", "g", k, True, False), ("op", "up", k, True, True), ("op", "h", k, False, False)]
        out += [("noise", False), ("noise", True), ("randomize", False), ("randomize", True),
                ("from", False), ("from", True), ("toggle",), ("lcf", True)]
        return out

    def set_model(self, st, A):
        st.m = [np.array(a, dtype=complex) for a in A]
        E, _ = uref.block_E(st.m)
        if not np.all(np.isfinite(E)) or np.max(np.abs(la.eigvals(E))) < 1e-10:
            raise Disabled()            # the zero state
        inf = st.inf()
        if not np.all(np.isfinite(np.abs(inf.spec))) or abs(inf.spec[0]) < 1e-8 or inf.gap() < 1e-3:
            raise Disabled()            # degenerate: outside the documented domain
        for k in range(inf.L):
            lam = inf.schmidt_sq(k)
            if np.any((lam > 1e-14) & (lam < 1e-6)):
                raise Disabled()
            if lam[-1] < 1e-12 or inf.D < st.s.D:
                # the documented tolerance for recognising zero weights
                st.s.zero_tol = max(st.s.zero_tol, 1e-11)

    def step(self, st, act):
        s = st.s
        k = act[0]
        sig = "u." + k
        CF = "scf" if s.symm_gauge else "rcf"
        inf = st.inf()
        if k == "trunc":
            nD, upd = act[1:]
            W, A = truncated_ref(inf, nD)
            for w in W:
                if nD < len(w) and w[nD - 1] - w[nD] < 1e-3 * w[0]:
                    raise Disabled()        # degenerate cut: not unique
            self.set_model(st, A)
            with Guard(sig):
                s.truncate(nD, update=upd)
            need(s.D == nD and all(a.shape == (s.q, nD, nD) for a in s.A), sig + ".D", "bond dimension %d, wanted %d", s.D, nD)
            if not upd:
                with Guard(sig):
                    s.calc_lr()
            st.info = [CF if upd else "raw"] * s.L
        elif k in ("auto", "upd_auto"):
            lam = [inf.schmidt_sq(j)[:s.D] for j in range(s.L)]
            lam = [np.where(w > 1e-12, w, 0) for w in lam]
            v = [np.sqrt(w) if s.symm_gauge else w for w in lam]
            if k == "auto":
                # a tolerance between the entries of one bond's spectrum
                j, upd = act[1:]
                d = v[-1]
                if j == 0:
                    tol = 2 * max(x.max() for x in v)
                elif j < len(d):
                    tol = np.sqrt(max(d[j], 1e-13) * d[j - 1])
                else:
                    tol = 0.5 * d[-1] if d[-1] > 1e-6 else 1e-7
            else:
                upd = True
                tol = s.zero_tol
                if tol < 1e-12 and any(np.any(x < 1e-6) for x in v):
                    raise Disabled()        # below rounding errors
            if any(np.any(np.abs(x - tol) < 1e-2 * tol) for x in v):
                raise Disabled()
            keep = max(1, max(np.count_nonzero(x > tol) for x in v))
            W, A = truncated_ref(inf, keep)
            for w in W:
                if keep < len(w) and w[keep - 1] - w[keep] < 1e-3 * w[0]:
                    raise Disabled()
            D0 = s.D
            A0, Alist = utens(s), s.A
            self.set_model(st, A)
            if k == "auto":
                with Guard(sig):
                    res = s.auto_truncate(update=upd, zero_tol=tol)
                need(bool(res) == (keep < D0), sig + ".return", "reported %s, rank %d of %d", res, keep, D0)
                if not res:
                    need(all(np.array_equal(a, b) for a, b in zip(A0, s.A)), sig + ".noop", "changed the state without truncating")
                elif not upd:
                    with Guard(sig):
                        s.calc_lr()
                    st.info = ["raw"] * s.L
            else:
                with Guard(sig):
                    s.update(auto_truncate=True, restore_CF_after_trunc=act[1])
                st.info = [CF if act[1] or keep == D0 else "raw"] * s.L
            need(s.D == keep, sig + ".D", "bond dimension %d after automatic truncation, rank %d", s.D, keep)
        elif k == "upd_tol":
            # update() with a tolerance that cuts nonzero weights
            lam = [np.where(w > 1e-12, w, 0) for w in (inf.schmidt_sq(j)[:s.D] for j in range(s.L))]
            v = [np.sqrt(w) if s.symm_gauge else w for w in lam]
            j = act[1]
            d = v[-1]
            if j >= len(d) or d[j] < 1e-6:
                raise Disabled()
            tol = np.sqrt(d[j] * d[j - 1])
            if any(np.any(np.abs(x - tol) < 1e-2 * tol) for x in v):
                raise Disabled()
            keep = max(1, max(np.count_nonzero(x > tol) for x in v))
            if keep == s.D:
                raise Disabled()
            zt, s.zero_tol = s.zero_tol, tol
            with Guard(sig):
                s.update(auto_truncate=True, restore_CF_after_trunc=False)
            s.zero_tol = zt
            need(s.D <= inf.D, sig + ".D", "bond dimension grew to %d", s.D)
            self.set_model(st, utens(s))
            st.info = ["raw"] * s.L
        elif k == "expand":
            nD, noise = act[1:]
            if nD < 1:
                raise Disabled()
            A0, D0 = utens(s), s.D
            with Guard(sig):
                if noise == "default":
                    res = s.expand_D(nD)
                else:
                    res = s.expand_D(nD, refac=100 if noise else 0, imfac=50 if noise else 0)
            if nD < D0:
                need(res is False, sig + ".refuse", "returned %s for a smaller bond dimension", res)
                need(s.D == D0 and all(np.array_equal(a, b) for a, b in zip(A0, s.A)), sig + ".refuse", "state changed")
                return st
            need(s.D == nD and all(a.shape == (s.q, nD, nD) for a in s.A), sig + ".D", "bond dimension %d, wanted %d", s.D, nD)
            for j in range(s.L):
                need(np.array_equal(s.A[j][:, :D0, :D0], A0[j]), sig + ".keep", "old entries changed")
                need(np.all(s.A[j][:, D0:, D0:] == 0), sig + ".zero", "corner is not zero")
                off = np.concatenate([s.A[j][:, :D0, D0:].ravel(), s.A[j][:, D0:, :D0].ravel()])
                rf = la.norm(A0[j].real) / A0[j].size * (100 if noise else 0)
                jf = la.norm(A0[j].imag) / A0[j].size * (50 if noise is True else 0)
                if off.size:
                    need(off.real.min() >= 0 and off.real.max() <= rf and off.imag.min() >= 0 and off.imag.max() <= jf,
                         sig + ".size", "new entries outside the requested range")
                    need(not noise or np.any(off != 0), sig + ".noise", "no noise added")
            if noise:
                self.set_model(st, utens(s))
                if s.L > 3 and s.zero_tol >= 1e-11:
                    raise Disabled()        # (an absolute tolerance, and l and r are scaled by the large entries)
            elif s.zero_tol < 1e-11:
                s.zero_tol = 1e-11
            with Guard(sig):
                s.update()
            st.info = [CF] * s.L
        elif k == "set_q":
            nq, off = (act[1:] + (0,))[:2]
            if s.q == 3 and nq > 4 or nq < 1 or (nq > s.q and nq - s.q < off):
                raise Disabled()
            A = []
            for a in st.m:
                b = np.zeros((nq, a.shape[1], a.shape[2]), dtype=complex)
                if nq >= s.q:
                    b[off:off + s.q] = a
                else:
                    b[:] = a[-off:nq - off]
                A.append(b)
            A1 = []
            for a in s.A:
                b = np.zeros((nq, s.D, s.D), dtype=complex)
                if nq >= s.q:
                    b[off:off + s.q] = a
                else:
                    b[:] = a[-off:nq - off]
                A1.append(b)
            self.set_model(st, A)
            with Guard(sig):
                s.set_q(*act[1:])
            need(s.q == nq and all(np.array_equal(a, b) for a, b in zip(s.A, A1)), sig + ".tensors", "wrong entries kept")
            with Guard(sig):
                s.update()
            st.info = [CF] * s.L
        elif k == "block":
            # one site with the q^L product basis, first site most significant
            T = ref.dense_open(st.inf().A)
            A = np.transpose(T.reshape(T.shape[0], -1, T.shape[-1]), (1, 0, 2))
            self.set_model(st, [A])
            q, L = s.q, s.L
            with Guard(sig):
                s.convert_to_TI_blocked(do_update=act[1])
                if not act[1]:
                    s.calc_lr()
            need((s.L, s.q) == (1, q ** L), sig + ".shape", "L=%d q=%d after blocking", s.L, s.q)
            st.info = [CF if act[1] and L > 1 else "raw"]
        elif k == "op":
            name, j, upd, fn = act[1:]
            o = op1(name, s.q)
            A = list(st.m)
            A[j] = np.einsum('st,tab->sab', o, A[j])
            A1 = [np.einsum('st,tab->sab', o, a) if i == j else np.array(a) for i, a in enumerate(s.A)]
            self.set_model(st, A)
            with Guard(sig):
                s.apply_op_1s(as_callable(o, [s.q]) if fn else o, j, do_update=upd)
            if not upd:
                for i in range(s.L):
                    close(s.A[i], A1[i], sig + ".tensors", 1e-12, max(1., la.norm(A1[i])))
                with Guard(sig):
                    s.calc_lr()
            st.info = [CF if upd else "raw"] * s.L
        elif k in ("noise", "randomize"):
            A0 = utens(s)
            seed_for("un", canon(*A0))
            with Guard(sig):
                s.add_noise(0.5, do_update=False) if k == "noise" else s.randomize(do_update=False)
            A = utens(s)
            for a, b in zip(A, A0):
                if k == "noise":
                    f = 0.5 * la.norm(b) / (s.q * s.D ** 2)
                    d = a - b
                    need(np.max(np.abs(d.real)) <= f / 2 * (1 + 1e-9) and np.max(np.abs(d.imag)) <= f / 2 * (1 + 1e-9), sig + ".size", "noise of wrong magnitude")
                    need(np.any(d != 0), sig + ".none", "no noise added")
                else:
                    close(la.norm(a), 1., sig + ".norm", 1e-10)
                    need(not np.allclose(a, b), sig + ".none", "not randomised")
            for i in range(s.L):
                for j in range(i):
                    need(not np.allclose(A[i], A[j]) or np.allclose(A0[i], A0[j]) and k != "randomize", sig + ".same", "sites randomised identically")
            self.set_model(st, A)
            if act[1]:
                for a, b in zip(s.A, A0):
                    a[:] = b
                seed_for("un", canon(*A0))
                with Guard(sig):
                    s.add_noise(0.5) if k == "noise" else s.randomize()
                st.info = [CF] * s.L
            else:
                with Guard(sig):
                    s.update()
                st.info = [CF] * s.L
        elif k == "from":
            A = utens(s)
            zt, sy = s.zero_tol, s.symm_gauge
            with Guard(sig):
                real = all(np.all(a.imag == 0) for a in A)
                # real tensors are passed as real arrays
                n = type(s).from_tensors([a.real.copy() for a in A] if real else A, **({} if act[1] else {"do_update": False}))
            need((n.D, n.q, n.L) == (s.D, s.q, s.L), sig + ".shape", "D=%d q=%d L=%d", n.D, n.q, n.L)
            for a, b in zip(A, n.A):
                if not act[1]:
                    need(np.array_equal(a, b), sig + ".tensors", "tensors differ")
            for a, b in zip(A, s.A):
                need(np.array_equal(a, b), sig + ".source", "source changed")
            n.zero_tol = zt
            n.symm_gauge = sy
            if not act[1]:
                with Guard(sig):
                    n.calc_lr()
            st.s = n
            st.info = ["raw"] * s.L
        else:
            return UWorld.step(self, st, act)
        return st

    def check(self, st):
        s, inf = st.s, st.inf()
        need((s.q, s.L) == (inf.q, inf.L), "ushape.size", "q=%d L=%d, expected q=%d L=%d", s.q, s.L, inf.q, inf.L)
        same_state(s, inf, "ushape.state", window=3 if s.q <= 3 else 2 if s.q <= 5 else 1)
        check_fixed_points(s)
        for k in range(s.L):
            if st.info[k] != "raw":
                check_form(s, inf, st.info[k], k)


class UFidWorld(World):
    """U05: overlaps per site of all pairs of states; alignment."""
    name = "u.fid"
    depth = 1

    def configs(self, tier):
        q_ = (2,) if tier == "quick" else (2, 3)
        kinds = ("rand", "z2") if tier == "quick" else ("rand", "real", "near", "pad", "z2")
        for q in q_:
            for D1 in ((1, 2, 3, 9) if tier == "quick" else (1, 2, 3, 4, 9)):
                for L1 in (1, 2, 3):
                    for D2 in ((1, 2, 3, 8) if tier == "quick" else (1, 2, 3, 4, 8)):
                        for L2 in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
                            for k1, k2 in itertools.product(kinds, kinds):
                                if D1 * D2 > 36 and (L1 > 2 or L2 > 2) and tier == "quick":
                                    continue
                                if (D1 == 1 and k1 != "rand") or (D2 == 1 and k2 != "rand"):
                                    continue
                                yield dict(a=dict(q=q, D=D1, L=L1, kind=k1, symm=True),
                                           b=dict(q=q, D=D2, L=L2, kind=k2, symm=False, seed=1))

    def init(self, cfg):
        sts = []
        seed_for("fid", str(sorted(cfg["a"].items())), str(sorted(cfg["b"].items())))
        for c in (cfg["a"], cfg["b"]):
            s, A = new_mps(c)
            st = UState(s, A)
            if st.inf().gap() < 1e-3:
                raise Disabled()
            with Guard("u.update"):
                s.update()
            sts.append(st)
        st = UState(None, None)
        st.a, st.b = sts
        st.cfg = cfg
        return st

    def actions(self, st):
        return [("fid", left, mode) for left in (False, True) for mode in ("auto", "dense", "sparse")] + \
            [("phase", 0), ("phase", 1), ("galign", 0), ("galign", 1)]

    def key(self, st):
        return None

    def step(self, st, act):
        a, b = st.a.s, st.b.s
        E, n = uref.block_E([np.asarray(x) for x in a.A], [np.asarray(x) for x in b.A])
        w = la.eigvals(E)
        w = w[np.argsort(-np.abs(w))]
        tag = 0
        if act[0] == "fid":
            left, mode = act[1:]
            kw = dict(left=left, force_dense=mode == "dense", force_sparse=mode == "sparse")
            if mode == "sparse" and a.D * b.D == 1:
                kw["force_sparse"] = True
            T0 = [np.array(x) for x in a.A + b.A]
            with Guard("u.fidelity"):
                d, ev = a.fidelity_per_site(b, **kw)
                d2, ev2, V = a.fidelity_per_site(b, full_output=True, **kw)
            for x, y in zip(T0, a.A + b.A):
                need(np.array_equal(x, y), "u.fidelity.readonly", "state changed")
            f = abs(w[0]) ** (1. / n)
            sc = 1e-7
            close(d, f, "u.fidelity", sc, 1.0, "fidelity per site")
            close(d2, f, "u.fidelity", sc, 1.0, "fidelity per site")
            gap = len(w) == 1 or abs(w[1]) < abs(w[0]) * (1 - 1e-3)
            if gap and abs(w[0]) > 1e-5:
                close(ev, w[0], "u.fidelity.w", 1e-7, 1.0, "eigenvalue")
                close(ev2, w[0], "u.fidelity.w", 1e-7, 1.0, "eigenvalue")
                V = np.asarray(V).ravel()
                need(V.size == a.D * b.D and la.norm(V) > 1e-3, "u.fidelity.V", "eigenvector of size %d", V.size)
                if left:
                    close(E.conj().T.dot(V), np.conj(w[0]) * V, "u.fidelity.V", 1e-7, la.norm(V), "left eigenvector")
                else:
                    close(E.dot(V), w[0] * V, "u.fidelity.V", 1e-7, la.norm(V), "right eigenvector")
            # symmetry of the overlap
            with Guard("u.fidelity"):
                d3, ev3 = b.fidelity_per_site(a, **kw)
            close(d3, d, "u.fidelity.symm", 1e-7)
            with Guard("u.fidelity"):
                d4, _ = a.fidelity_per_site(a, **kw)
            close(d4, 1., "u.fidelity.self", 1e-8)
        elif act[0] == "phase":
            gap = len(w) == 1 or abs(w[1]) < abs(w[0]) * (1 - 1e-3)
            if not gap or abs(w[0]) < 1e-5:
                raise Disabled()
            x, o = (a, b) if act[1] == 0 else (b, a)
            inf = (st.a if act[1] == 0 else st.b).inf()
            w0 = w[0] if act[1] == 0 else np.conj(w[0])
            with Guard("u.phase_align"):
                phi = x.phase_align(o)
            close(phi / abs(phi), w0 / abs(w0), "u.phase_align.phi", 1e-6, 1.0, "phase")
            E, n = uref.block_E([np.asarray(y) for y in x.A], [np.asarray(y) for y in o.A])
            w1 = la.eigvals(E)
            i = np.argmax(np.abs(w1))
            close(w1[i], abs(w0), "u.phase_align", 1e-7, 1.0, "dominant overlap eigenvalue after alignment")
            same_state(x, inf, "u.phase_align.state")
            check_fixed_points(x, "u.phase_align.lr")
        elif act[0] == "galign":
            self.galign(st, act[1])
        return st

    def galign(self, st, canon_):
        """A gauge-transformed, rephased copy is brought back."""
        a = st.a.s
        inf = st.a.inf()
        o = st.b.s
        if any(inf.schmidt_sq(k)[-1] < 1e-6 for k in range(inf.L)):
            raise Disabled()
        with Guard("u.galign"):
            c = mu.EvoMPS_MPS_Uniform.from_tensors(utens(a), do_update=False)
            c.symm_gauge = not a.symm_gauge
            gauge_u(c, "align")
            c.A[-1] *= np.exp(1.3j)
            c.update(restore_CF=bool(canon_))
            A0 = utens(c)
            res = c.gauge_align(a)
        need(res is not None, "u.galign", "equal states not recognised")
        g, gi, phi = res
        for k in range(a.L):
            sc = max(1., la.norm(a.A[k]))
            close(c.A[k], a.A[k], "u.galign", 1e-6, sc, "A[%d] after alignment" % k)
            close(np.asarray(g[k]).dot(gi[k]), np.eye(a.D), "u.galign.inverse", 1e-7, 1.0)
            f = (np.conj(phi) / abs(phi)) if k == 0 else 1.
            w = f * np.einsum('ab,sbc,cd->sad', gi[k - 1], A0[k], g[k])
            close(c.A[k], w, "u.galign.g", 1e-6, sc, "returned transformation")
        check_fixed_points(c, "u.galign.lr", 1e-6)
        # a different state is refused and left alone
        E, n = uref.block_E([np.asarray(x) for x in c.A], [np.asarray(x) for x in o.A])
        if o.L == c.L and o.D == c.D and max(abs(la.eigvals(E))) < 0.999:
            T0 = utens(c)
            with Guard("u.galign"):
                res = c.gauge_align(o)
            need(res is None, "u.galign.refuse", "aligned different states")
            need(all(np.array_equal(x, y) for x, y in zip(T0, c.A)), "u.galign.refuse", "state changed")
