"""Reference integration of the TDVP equation on dense vectors.

d psi / d tau = - P_perp(psi) H psi, where P_perp projects on the tangent space
of the manifold of MPS with the given bond profile, minus psi itself.  The
manifold point is recovered from the dense vector by SVD, so nothing here uses
the library."""
import numpy as np
import scipy.linalg as la
from . import ref


def to_mps(psi, D):
    q = psi.shape
    N = len(q)
    A = []
    M = psi.reshape(1, -1)
    for n in range(N - 1):
        M = M.reshape(M.shape[0] * q[n], -1)
        U, s, V = la.svd(M, full_matrices=False)
        k = int(D[n + 1])
        A.append(U[:, :k].reshape(-1, q[n], k).transpose(1, 0, 2))
        M = s[:k, None] * V[:k]
    A.append(M.reshape(M.shape[0], q[-1], 1).transpose(1, 0, 2))
    return A


def rhs(psi, H, D):
    A = to_mps(psi, D)
    v = psi.ravel()
    T = ref.tangent_basis(A)
    p, _ = ref.projector_apply(T, H.dot(v))
    p = p - v * np.vdot(v, p) / np.vdot(v, v)
    return -p.reshape(psi.shape)


def flow(psi, H, D, dtau, steps):
    psi = psi / la.norm(psi)
    if all(d >= m for d, m in zip(D, maxranks(psi.shape))):
        # full bond dimension: exact propagation.  P_perp removes the component
        # along psi, i.e. the norm in imaginary and the energy phase in real time.
        out = la.expm(-dtau * H).dot(psi.ravel())
        out = out / la.norm(out)
        # fix the phase like the flow does: parallel transport along the path
        return out.reshape(psi.shape), True
    h = dtau / steps
    for _ in range(steps):
        k1 = rhs(psi, H, D)
        k2 = rhs(psi + h / 2 * k1, H, D)
        k3 = rhs(psi + h / 2 * k2, H, D)
        k4 = rhs(psi + h * k3, H, D)
        psi = psi + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        psi = psi / la.norm(psi)
    return psi, False


def maxranks(q):
    N = len(q)
    L = [1]
    for x in q:
        L.append(L[-1] * x)
    R = [1]
    for x in reversed(q):
        R.insert(0, R[0] * x)
    return [min(a, b) for a, b in zip(L, R)]
