"""U11: snapshots, files and conversions of infinite-chain TDVP objects."""
import copy
import os
import shutil
import tempfile
import numpy as np
import scipy.linalg as la

from .uni_common import *
from .w_utdvp import *
from .w_uni2 import truncated_ref

import evoMPS.tdvp_uniform as tu


def fresh(q, D, L, ham, hs, symm, tag=0):
    """An unrelated object of the given size, ready for use."""
    rng = ref.rng_for("ustore", q, D, L, tag)
    s = tu.EvoMPS_TDVP_Uniform(D, q, uham_arg(ham, q, hs), ham_sites=hs, L=L, do_update=False)
    for k in range(L):
        s.A[k][:] = ref.cgauss(rng, (q, D, D))
    s.symm_gauge = symm
    s.itr_rtol = 1e-13
    s.userdata = "old"
    set_uham(s, ham, hs)
    s.update()
    return s


class UStoreWorld(UTdvpWorld):
    name = "uni.store"
    depth = 2

    def configs(self, tier):
        if tier == "quick":
            for c in tcfgs(qs=(2,), Ds=(1, 2, 3), Ls=(1, 2, 3), hss=(2, 3), hams=("herm",)):
                yield dict(c, depth=3 if c["D"] * c["L"] <= 2 and c["hs"] == 2 else 2)
            for c in tcfgs(qs=(2,), Ds=(2,), Ls=(1, 2, 3), hss=(2, 3), hams=("call", "tp"), symms=(True,)):
                yield dict(c, depth=2)
            for c in tcfgs(qs=(3,), Ds=(2, 3), Ls=(1, 2), hss=(2,), hams=("herm",)):
                yield dict(c, depth=2)
        else:
            for c in tcfgs(qs=(2,), Ds=(1, 2, 3), Ls=(1, 2, 3), hss=(2, 3), hams=("herm", "call", "tp"), kinds=("rand", "gauge")):
                yield dict(c, depth=3 if c["L"] <= 2 and c["D"] <= 2 else 2)
            for c in tcfgs(qs=(3,), Ds=(1, 2, 3), Ls=(1, 2, 3), hss=(2, 3), hams=("herm", "call"), kinds=("rand", "near")):
                yield dict(c, depth=2)
            for c in tcfgs(qs=(2,), Ds=(4, 5), Ls=(1, 2, 3), hss=(2, 3), hams=("herm",)):
                yield dict(c, depth=2)

    def depth_for(self, cfg, tier):
        return cfg["depth"]

    def init(self, cfg):
        st = UTdvpWorld.init(self, cfg)
        st.s.userdata = "init"
        st.ud = "init"
        st.snap = None
        return st

    def key(self, st):
        sn = None if st.snap is None else canon(type(st.snap[0]).__name__, st.snap[1], st.snap[2], *st.snap[3])
        return canon(UTdvpWorld.key(self, st), sn, str(st.ud))

    def actions(self, st):
        s = st.s
        out = [("edit",), ("euler", 0.05)]
        if st.snap is None:
            out += [("export", None), ("export", "mine"), ("save", None), ("save", "mine")]
        else:
            if isinstance(st.snap[0], bytes) and s.D <= 2:
                out += [("torn",)]
            out += [("import", True), ("import", False), ("load",), ("from_file", True), ("from_file", False)]
            D, q, L = st.snap[3][0].shape[1], st.snap[3][0].shape[0], len(st.snap[3])
            for nD in (D - 1, D + 1, D + 2):
                for fl in ((), ("expand",), ("truncate",), ("expand", "truncate"), ("expand_q", "shrink_q")):
                    if nD >= 1:
                        out.append(("into", nD, q, L, fl))
            for nq in (q - 1, q + 1):
                for fl in ((), ("expand_q",), ("shrink_q",), ("expand_q", "shrink_q"), ("expand", "truncate")):
                    if nq >= 2:
                        out.append(("into", D, nq, L, fl))
            out += [("into", D, q, L + 1, ("expand", "truncate", "expand_q", "shrink_q")),
                    ("into", D, q, L, ("expand", "truncate", "expand_q", "shrink_q")),
                    ("into", D + 1, q + 1, L, ("expand", "truncate", "expand_q", "shrink_q"))]
        out += [("from_mps",), ("from_tensors", True), ("from_tensors", False)]
        if s.D <= 4:
            out += [("expand", s.D + 1, 0), ("expand", s.D, 0), ("expand", s.D - 1, 0), ("expand", s.D + 2, 1)]
        if s.q == 2:
            out += [("set_q", 3, 0), ("set_q", 3, 1), ("set_q", 4, 1)]
        elif s.q == 3:
            out += [("set_q", 2, 0), ("set_q", 2, -1)]
        if s.q ** s.L <= 8:
            out += [("block", True), ("block", False)]
        return out

    def model(self, st, A):
        st.m = [np.array(a, dtype=complex) for a in A]
        if not all(np.all(np.isfinite(a)) for a in A) or max(la.norm(a) for a in A) == 0:
            raise Disabled()
        E, _ = uref.block_E(st.m)
        if np.max(np.abs(la.eigvals(E))) < 1e-10:
            raise Disabled()
        inf = st.inf()
        if abs(inf.spec[0]) < 1e-8 or inf.gap() < self.min_gap:
            raise Disabled()
        for k in range(inf.L):
            lam = inf.schmidt_sq(k)
            if np.any((lam > 1e-14) & (lam < 1e-6)):
                raise Disabled()
            if lam[-1] < 1e-12 or inf.D < st.s.D:
                st.s.zero_tol = max(st.s.zero_tol, 1e-11)

    def finish(self, st, sig):
        with Guard(sig):
            st.s.update()
        st.info = "scf" if st.s.symm_gauge else "rcf"

    def step(self, st, act):
        s, k = st.s, act[0]
        sig = "ustore." + k
        CF = "scf" if s.symm_gauge else "rcf"
        if k == "euler":
            return UTdvpWorld.step(self, st, act)
        if k == "edit":
            # what take_step and add_noise do: change the tensors in place
            rng = ref.rng_for("uedit", s.q, s.D, s.L)
            for a in s.A:
                a += 0.2 * la.norm(a) * ref.cgauss(rng, a.shape)
            s.K[0] += 1.
            self.model(st, s.A)
            self.finish(st, sig)
        elif k in ("export", "save"):
            T = utens(s)
            with Guard(sig):
                if k == "export":
                    snap = s.export_state(userdata=act[1])
                else:
                    d = tempfile.mkdtemp(prefix="mcstore")
                    try:
                        s.save_state(os.path.join(d, "st.npy"), userdata=act[1])
                        with open(os.path.join(d, "st.npy"), "rb") as f:
                            snap = f.read()
                    finally:
                        shutil.rmtree(d)
            st.snap = (snap, str(act[1] if act[1] is not None else st.ud), s.D, T, st.m)
            for a, b in zip(T, s.A):
                need(np.array_equal(a, b), sig + ".readonly", "saving changed the state")
        elif k in ("import", "load", "from_file", "into"):
            self.restore(st, act)
        elif k == "torn":
            self.torn(st)
        elif k == "from_mps":
            mps = mu.EvoMPS_MPS_Uniform.from_tensors(utens(s), do_update=False)
            mps.symm_gauge, mps.zero_tol, mps.userdata = s.symm_gauge, s.zero_tol, "new"
            with Guard(sig):
                mps.update()
            T, own = utens(mps), attributes(mps)
            with Guard(sig):
                n = tu.EvoMPS_TDVP_Uniform.from_mps(mps, uham_arg(st.hname, s.q, st.hs), st.hs)
            need((n.D, n.q, n.L) == (s.D, s.q, s.L), sig + ".shape", "D=%d q=%d L=%d", n.D, n.q, n.L)
            need((bool(n.symm_gauge), n.zero_tol, str(n.userdata)) == (bool(s.symm_gauge), s.zero_tol, "new"), sig + ".settings", "settings lost")
            for a, b in zip(n.A, T):
                need(np.array_equal(a, b), sig + ".tensors", "tensors differ")
            check_fixed_points(n, sig + ".lr")
            n.itr_rtol = 1e-13
            for a in n.A + [x for x in n.l + n.r if isinstance(x, np.ndarray)]:
                a *= 1.7
            for a, b in zip(mps.A, T):
                need(np.array_equal(a, b), sig + ".shared", "the new object shares its tensors with the source")
            st.s, st.ud = n, "new"
            set_uham(n, st.hname, st.hs)
            self.finish(st, sig)
            unchanged(mps, own, sig + ".shared.")
        elif k == "from_tensors":
            T = utens(s)
            with Guard(sig):
                n = tu.EvoMPS_TDVP_Uniform.from_tensors(T, uham_arg(st.hname, s.q, st.hs), st.hs, do_update=act[1])
            need((n.D, n.q, n.L) == (s.D, s.q, s.L), sig + ".shape", "D=%d q=%d L=%d", n.D, n.q, n.L)
            for a, b, c in zip(T, s.A, n.A):
                need(np.array_equal(a, b), sig + ".source", "source changed")
                need(act[1] or np.array_equal(a, c), sig + ".tensors", "tensors differ")
            n.symm_gauge, n.zero_tol, n.itr_rtol = s.symm_gauge, s.zero_tol, 1e-13
            st.s, st.ud = n, None
            st.info = "raw"
            if not act[1]:
                set_uham(n, st.hname, st.hs)
                self.finish(st, sig)
        elif k == "expand":
            nD, fac = act[1:]
            if nD < 1:
                raise Disabled()
            T, D = utens(s), s.D
            with Guard(sig):
                r = s.expand_D(nD, refac=fac, imfac=fac)
            need((r is False) == (nD < D), sig + ".return", "returned %s for %d -> %d", r, D, nD)
            if nD < D:
                need(s.D == D and all(np.array_equal(a, b) for a, b in zip(T, s.A)), sig + ".refuse", "state changed")
                return st
            need(s.D == nD and all(a.shape == (s.q, nD, nD) for a in s.A), sig + ".D", "bond dimension %d", s.D)
            for a, b in zip(T, s.A):
                need(np.array_equal(b[:, :D, :D], a), sig + ".keep", "old entries changed")
            if fac:
                self.model(st, s.A)
            else:
                s.zero_tol = max(s.zero_tol, 1e-11)
            self.finish(st, sig)
        elif k == "set_q":
            nq, off = act[1:]
            A = [self.requant(a, nq, off) for a in st.m]
            T = [self.requant(a, nq, off) for a in utens(s)]
            self.model(st, A)
            with Guard(sig):
                s.set_q(nq, off)
            need(s.q == nq and all(np.array_equal(a, b) for a, b in zip(T, s.A)), sig + ".tensors", "wrong entries kept")
            st.h = uham(st.hname, nq, st.hs)
            with Guard(sig):
                set_uham(s, st.hname, st.hs)
            self.finish(st, sig)
        elif k == "block":
            L, q = s.L, s.q
            if L == 1:
                with Guard(sig):
                    s.convert_to_TI_blocked(do_update=act[1])
                return st
            T = ref.dense_open(st.inf().A)
            A = [np.transpose(T.reshape(T.shape[0], -1, T.shape[-1]), (1, 0, 2))]
            h = 0
            qs = [q] * (2 * L)
            for j in range(L):
                h = h + ref.embed(st.h, list(range(j, j + st.hs)), qs)
            self.model(st, A)
            with Guard(sig):
                s.convert_to_TI_blocked(do_update=act[1])
            need((s.L, s.q) == (1, q ** L), sig + ".shape", "L=%d q=%d after blocking", s.L, s.q)
            name = "blk:%s:%d:%d:%d" % (st.hname, q, st.hs, L)
            OPS[("uham", name, q ** L, 2)] = h
            st.h, st.hs, st.hname = h, 2, name
            if act[1]:
                st.info = CF
            else:
                self.finish(st, sig)
        return st

    def requant(self, a, nq, off):
        b = np.zeros((nq, a.shape[1], a.shape[2]), dtype=complex)
        q = a.shape[0]
        if nq >= q:
            b[off:off + q] = a
        else:
            b[:] = a[-off:nq - off]
        return b

    def restore(self, st, act):
        s, k = st.s, act[0]
        sig = "ustore." + k
        snap, ud, D0, T, m = st.snap
        q0, L0 = T[0].shape[0], len(T)
        isfile = isinstance(snap, bytes)
        d = tempfile.mkdtemp(prefix="mcstore")
        try:
            fn = os.path.join(d, "st.npy")
            if isfile:
                with open(fn, "wb") as f:
                    f.write(snap)
                state = np.load(fn, allow_pickle=True)
            else:
                state = snap
                np.save(fn, snap)
            if k == "from_file":
                self.check_snapshot(st)
                h = uham_arg(st.hname, q0, st.hs) if not st.hname.startswith("blk") else None
                if h is None:
                    raise Disabled()
                with Guard(sig):
                    n = tu.EvoMPS_TDVP_Uniform.from_file(fn, h, st.hs, do_update=act[1])
                n.symm_gauge, n.zero_tol, n.itr_rtol = s.symm_gauge, s.zero_tol, 1e-13
                st.s = s = n
                ok, D, q, L, want, upd, kw = True, D0, q0, L0, True, act[1], {}
                st.hs, st.h = st.hs, uham(st.hname, q0, st.hs)
            else:
                if k == "into":
                    D, q, L, fl = act[1:]
                    if st.hname.startswith("blk"):
                        raise Disabled()
                    with Guard(sig):
                        n = fresh(q, D, L, st.hname, st.hs, s.symm_gauge)
                    n.zero_tol = s.zero_tol
                    st.s = s = n
                    st.h = uham(st.hname, q, st.hs)
                    st.m = utens(n)
                    st.ud = "old"
                    kw = dict((f, True) for f in fl)
                    kw.update(refac=0, imfac=0)
                    upd = True
                else:
                    D, q, L = s.D, s.q, s.L
                    kw = {}
                    upd = act[1] if k == "import" else True
                want = None
                if L == L0:
                    if (D, q) == (D0, q0):
                        want = "same"
                    elif q == q0 and D > D0 and kw.get("expand"):
                        want = "expand"
                    elif q == q0 and D < D0 and kw.get("truncate"):
                        want = "truncate"
                    elif D == D0 and q > q0 and kw.get("expand_q"):
                        want = "expand_q"
                    elif D == D0 and q < q0 and kw.get("shrink_q"):
                        want = "shrink_q"
                m1 = m
                m_old, T_old = st.m, utens(s)
                if want == "truncate":
                    st.m = m
                    W, m1 = truncated_ref(st.inf(), D)
                    for w in W:
                        if D < len(w) and w[D - 1] - w[D] < 1e-3 * w[0]:
                            raise Disabled()
                elif want in ("expand_q", "shrink_q"):
                    m1 = [self.requant(a, q, 0) for a in m]
                if want:
                    self.model(st, m1)
                    if want == "expand":
                        s.zero_tol = max(s.zero_tol, 1e-11)
                with Guard(sig):
                    if k == "import":
                        ok = s.import_state(state, do_update=upd, **kw)
                    elif k == "into" and not isfile:
                        ok = s.import_state(state, **kw)
                    else:
                        ok = s.load_state(fn, **kw)
                need(bool(ok) == bool(want), sig + ".return", "returned %s; D %d -> %d, q %d -> %d, L %d -> %d, %s",
                     ok, D0, D, q0, q, L0, L, kw)
                if not want:
                    need((s.D, s.q, s.L) == (D, q, L) and all(np.array_equal(a, b) for a, b in zip(T_old, s.A)),
                         sig + ".refuse", "a refused import changed the object")
                    need(str(s.userdata) == str(st.ud), sig + ".refuse", "a refused import changed the user data")
                    return
            need((s.D, s.q, s.L) == (D, q, L), sig + ".shape", "D=%d q=%d L=%d", s.D, s.q, s.L)
            need(str(s.userdata) == ud, sig + ".userdata", "user data %s, saved %s", s.userdata, ud)
            st.ud = ud
            if k == "from_file":
                self.model(st, m)
            if not upd:
                for a, b in zip(s.A, T):
                    need(np.array_equal(a, b), sig + ".tensors", "tensors differ from the saved ones")
                self.finish(st, sig)
            else:
                st.info = "scf" if s.symm_gauge else "rcf"
                if k == "from_file":
                    # updated before the gauge preference could be set
                    self.finish(st, sig)
        finally:
            shutil.rmtree(d)

    def torn(self, st):
        """A file whose writing was interrupted, at every byte, is refused
        and changes nothing."""
        s = st.s
        data = st.snap[0]
        T, l, r, ud = utens(s), arr(s.l[-1]).copy(), arr(s.r[-1]).copy(), str(s.userdata)
        d = tempfile.mkdtemp(prefix="mcstore")
        try:
            fn = os.path.join(d, "st.npy")
            for n in range(len(data)):
                with open(fn, "wb") as f:
                    f.write(data[:n])
                try:
                    with env.quiet():
                        ok = s.load_state(fn)
                except Exception:
                    ok = False
                need(not ok, "ustore.torn", "loaded a file cut after %d of %d bytes", n, len(data))
                need(all(np.array_equal(a, b) for a, b in zip(T, s.A)) and np.array_equal(l, arr(s.l[-1])) and
                     np.array_equal(r, arr(s.r[-1])) and str(s.userdata) == ud,
                     "ustore.torn.state", "a file cut after %d of %d bytes changed the object", n, len(data))
        finally:
            shutil.rmtree(d)

    def check_snapshot(self, st):
        """A snapshot keeps describing the state that was saved."""
        if st.snap is None or isinstance(st.snap[0], bytes):
            return
        snap, ud, D, T, m = st.snap
        A = np.asarray(snap[0])
        A = [A] if A.ndim == 3 else list(A)
        need(len(A) == len(T) and all(np.array_equal(a, b) for a, b in zip(A, T)), "ustore.snapshot",
             "the exported tensors changed after the export")
        need(str(snap[4]) == ud, "ustore.snapshot.userdata", "user data changed after the export")

    def check(self, st):
        self.check_snapshot(st)
        s, inf = st.s, st.inf()
        need((s.q, s.L) == (inf.q, inf.L), "ustore.size", "q=%d L=%d, expected q=%d L=%d", s.q, s.L, inf.q, inf.L)
        same_state(s, inf, "ustore.state", window=3 if s.q <= 3 else 2 if s.q <= 5 else 1)
        check_fixed_points(s, "ustore.lr")
        if s.L == inf.L and st.info in ("scf", "rcf"):
            for k in range(s.L):
                check_form(s, inf, st.info, k)
        e = energy_density(inf, st.h, st.hs)
        close(s.h_expect, e, "ustore.energy", 1e-8, max(1., abs(e)), "energy density")
        for k in range(s.L):
            op = s.ham
            with Guard("ustore.expect"):
                v = s.expect_2s(op, k) if st.hs == 2 else s.expect_3s(op, k)
            close(v, inf.expect(st.h, k, st.hs), "ustore.expect", 1e-8, max(1., la.norm(st.h)), "energy of the term at %d" % k)
        if all(np.append(inf.schmidt_sq(k), np.zeros(s.D))[:s.D][-1] > 1e-6 for k in range(s.L)):
            check_K(s, st.h, st.hs, "ustore.K")
