"""The reference model: plain state vectors and dense operators.

Nothing here uses evoMPS.  A finite chain is a tensor psi[s_1,...,s_N]; an
observable is a dense matrix; evolution is a matrix exponential.
"""
import itertools
import numpy as np
import scipy.linalg as la


def cgauss(rng, shape):
    return (rng.standard_normal(shape) + 1j * rng.standard_normal(shape)) / np.sqrt(2)


def rng_for(*key):
    """Deterministic generator for a (hashable, printable) key."""
    import zlib
    return np.random.RandomState(zlib.crc32(repr(key).encode()) & 0xFFFFFFFF)


# ---------------------------------------------------------------- states
def dense(A):
    """A = [A_1..A_N], each q x Dl x Dr with D_0 = D_N = 1 -> psi tensor."""
    psi = np.ones((1, 1), dtype=complex)
    qs = []
    for a in A:
        a = np.asarray(a)
        psi = np.tensordot(psi, a, axes=([-1], [1]))      # (..., q, Dr)
        qs.append(a.shape[0])
        psi = psi.reshape(-1, a.shape[2])
    return psi.reshape(qs)


def dense_open(A):
    """Like dense() but with open ends: tensor (Dl, s_1..s_N, Dr)."""
    Dl = A[0].shape[1]
    psi = np.eye(Dl, dtype=complex)
    qs = []
    for a in A:
        psi = np.tensordot(psi, a, axes=([-1], [1])).reshape(Dl, -1, a.shape[2]) \
            if psi.ndim == 2 else \
            np.tensordot(psi, a, axes=([-1], [1])).reshape(Dl, -1, a.shape[2])
        qs.append(a.shape[0])
    return psi.reshape([Dl] + qs + [A[-1].shape[2]])


def op_apply(psi, op, sites):
    """Apply a dense operator (matrix on the product of the given 0-based,
    not necessarily adjacent, sites, in that order) to psi."""
    qs = [psi.shape[s] for s in sites]
    d = int(np.prod(qs))
    op = np.asarray(op).reshape(d, d).reshape(qs + qs)
    k = len(sites)
    out = np.tensordot(op, psi, axes=(list(range(k, 2 * k)), list(sites)))
    return np.moveaxis(out, list(range(k)), list(sites))


def expect(psi, op, sites):
    return np.vdot(psi, op_apply(psi, op, sites)) / np.vdot(psi, psi)


def rdm(psi, sites):
    """rho[(s...),(t...)] = <t|..|s>: reduced density matrix on sites."""
    n = psi.ndim
    rest = [i for i in range(n) if i not in sites]
    M = np.transpose(psi, list(sites) + rest)
    d = int(np.prod([psi.shape[s] for s in sites]))
    M = M.reshape(d, -1)
    rho = M.dot(M.conj().T)
    return rho / np.trace(rho)


def schmidt_sq(psi, n):
    """Squared Schmidt coefficients for the cut after n sites, descending."""
    qs = psi.shape
    M = psi.reshape(int(np.prod(qs[:n])), -1)
    s = la.svdvals(M) ** 2
    return s / s.sum()


def entropy_bits(lam):
    lam = np.asarray(lam)
    lam = lam[lam > 0]
    return float(-(lam * np.log2(lam)).sum())


# ---------------------------------------------------------------- operators
def embed(op, sites, qs):
    """Dense matrix on the whole chain."""
    d = int(np.prod(qs))
    I = np.eye(d).reshape(list(qs) + [d])
    out = op_apply_multi(I, op, sites)
    return out.reshape(d, d)


def op_apply_multi(psi, op, sites):
    qs = [psi.shape[s] for s in sites]
    dd = int(np.prod(qs))
    op = np.asarray(op).reshape(dd, dd).reshape(qs + qs)
    k = len(sites)
    out = np.tensordot(op, psi, axes=(list(range(k, 2 * k)), list(sites)))
    return np.moveaxis(out, list(range(k)), list(sites))


def ham_dense(terms, hs, qs):
    """terms[n] for n=1..len-1 acts on sites n..n+hs-1 (1-based); None = 0."""
    d = int(np.prod(qs))
    H = np.zeros((d, d), dtype=complex)
    N = len(qs)
    for n in range(1, N - hs + 2):
        if n < len(terms) and terms[n] is not None:
            H += embed(terms[n], list(range(n - 1, n - 1 + hs)), qs)
    return H


def mpo_dense(W):
    """W[n] has shape (mL, mR, bra, ket); open ends of size 1."""
    cur = np.ones((1, 1, 1), dtype=complex)     # (m, bra, ket)
    for w in W:
        t = np.tensordot(cur, w, axes=([0], [0]))   # bra ket mR b k
        t = np.transpose(t, (2, 0, 3, 1, 4))
        cur = t.reshape(t.shape[0], t.shape[1] * t.shape[2], t.shape[3] * t.shape[4])
    assert cur.shape[0] == 1
    return cur[0]


def rand_herm(rng, qs, real=False):
    d = int(np.prod(qs))
    M = rng.standard_normal((d, d))
    if not real:
        M = M + 1j * rng.standard_normal((d, d))
    return (M + M.conj().T) / 2


# ---------------------------------------------------------------- tangent space
def tangent_basis(A):
    """Matrix whose columns span {sum_n psi(A_1..dA_n..A_N)} (not orthonormal),
    with the psi vector itself contained in the span."""
    N = len(A)
    cols = []
    # left/right blocks
    L = [np.ones((1, 1), dtype=complex)]
    for a in A:
        t = np.tensordot(L[-1], a, axes=([-1], [1])).reshape(-1, a.shape[2])
        L.append(t)
    R = [np.ones((1, 1), dtype=complex)]
    for a in reversed(A):
        t = np.tensordot(a, R[0], axes=([2], [0]))        # q Dl rest
        t = np.transpose(t, (1, 0, 2)).reshape(a.shape[1], -1)
        R.insert(0, t)
    for n in range(N):
        q, Dl, Dr = A[n].shape
        l = L[n]            # (dl, Dl)
        r = R[n + 1]        # (Dr, dr)
        # column (s,a,b): l[:,a] x e_s x r[b,:]
        T = np.einsum('ia,bj,st->isjtab', l, r, np.eye(q))
        cols.append(T.reshape(l.shape[0] * q * r.shape[1], -1))
    return np.concatenate(cols, axis=1)


def projector_apply(T, v, rtol=1e-9):
    """Orthogonal projection of v onto the column space of T, and the rank."""
    U, s, _ = la.svd(T, full_matrices=False)
    k = int((s > rtol * s[0]).sum())
    U = U[:, :k]
    return U.dot(U.conj().T.dot(v)), k


def tangent_vector(A, B):
    """sum_n psi(A_1..B_n..A_N); entries of B may be None (zero)."""
    out = 0
    for n in range(len(A)):
        if B[n] is None:
            continue
        As = list(A)
        As[n] = B[n]
        out = out + dense(As)
    if np.isscalar(out):
        return np.zeros([a.shape[0] for a in A], dtype=complex)
    return out


def phase_dist(a, b):
    """Distance of two unit rays: || a - e^{i t} b || minimised over t."""
    a = a.ravel() / la.norm(a)
    b = b.ravel() / la.norm(b)
    o = np.vdot(b, a)
    if abs(o) < 1e-300:
        return float(np.sqrt(2))
    return float(la.norm(a - (o / abs(o)) * b))
