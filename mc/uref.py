"""Reference model of infinite, block-translation-invariant chains.

A state is a list A = [A_0..A_{L-1}] of q x D x D tensors.  Everything is
obtained from dense transfer matrices and their full eigendecompositions."""
import numpy as np
import scipy.linalg as la

from . import ref


def lcm(a, b):
    x = a
    while x % b:
        x += a
    return x


def mixed_E(A, B):
    """Transfer matrix of one site: sum_s A_s (x) conj(B_s)."""
    q = A.shape[0]
    return sum(np.kron(A[s], B[s].conj()) for s in range(q))


def block_E(As, Bs=None, k=0):
    """Product of transfer matrices over one common block starting at site k."""
    Bs = As if Bs is None else Bs
    n = lcm(len(As), len(Bs))
    E = None
    for j in range(n):
        e = mixed_E(As[(k + j) % len(As)], Bs[(k + j) % len(Bs)])
        E = e if E is None else E.dot(e)
    return E, n


def normalise(As):
    """Tensors rescaled so that the block transfer matrix has radius one."""
    E, n = block_E(As)
    w = la.eigvals(E)
    lam = np.max(np.abs(w))
    f = lam ** (-0.5 / n)
    return [np.asarray(a) * f for a in As]


def herm(x):
    t = np.trace(x)
    x = x * (abs(t) / t) if abs(t) > 0 else x
    return (x + x.conj().T) / 2


class Inf(object):
    """Everything about the state given by tensors As (any gauge/scale)."""

    def __init__(self, As):
        self.A = normalise([np.array(a, dtype=complex) for a in As])
        self.L = len(self.A)
        self.q = self.A[0].shape[0]
        self.D = self.A[0].shape[1]
        E, _ = block_E(self.A)
        w, vl, vr = la.eig(E, left=True, right=True)
        o = np.argsort(-np.abs(w))
        self.spec = w[o]
        i = o[0]
        D = self.D
        l = herm(vl[:, i].reshape(D, D))
        r = herm(vr[:, i].reshape(D, D))
        n = np.vdot(l, r).real
        l = l / n
        self.l = [None] * self.L
        self.r = [None] * self.L
        self.l[-1] = l
        self.r[-1] = r
        # <l|E propagated to the right, E|r> to the left
        for k in range(self.L - 1):
            a = self.A[k]
            self.l[k] = sum(a[s].conj().T.dot(self.l[k - 1]).dot(a[s]) for s in range(self.q))
        for k in range(self.L - 1, 0, -1):
            a = self.A[k]
            self.r[k - 1] = sum(a[s].dot(self.r[k]).dot(a[s].conj().T) for s in range(self.q))

    def gap(self):
        """Relative gap of the block transfer matrix spectrum."""
        return 1. if len(self.spec) == 1 else float(1 - abs(self.spec[1]) / abs(self.spec[0]))

    def window(self, k, m):
        """Tensor (a, s_1..s_m, b) of m sites starting at site k."""
        return ref.dense_open([self.A[(k + j) % self.L] for j in range(m)])

    def rdm(self, k, m):
        """Density matrix of m sites starting at site k: <op> = tr(op rho)."""
        W = self.window(k, m)
        D = self.D
        d = self.q ** m
        W = W.reshape(D, d, D)
        l = self.l[(k - 1) % self.L]
        r = self.r[(k + m - 1) % self.L]
        # <op> = sum conj(W[a',s',b']) op[s',s] W[a,s,b] l[a',a] r[b,b']
        X = np.einsum('ca,asb->csb', l, W)
        X = np.einsum('csb,bd->csd', X, r)
        return np.einsum('csd,ctd->st', X, W.conj())

    def expect(self, op, k, m):
        d = self.q ** m
        return np.trace(np.asarray(op).reshape(d, d).dot(self.rdm(k, m)))

    def string(self, ops, k):
        """<o_1 o_2 ...> on consecutive sites starting at k (any length)."""
        l = self.l[(k - 1) % self.L]
        for j, o in enumerate(ops):
            a = self.A[(k + j) % self.L]
            if o is None:
                l = sum(a[s].conj().T.dot(l).dot(a[s]) for s in range(self.q))
            else:
                l = sum(o[s, t] * a[s].conj().T.dot(l).dot(a[t])
                        for s in range(self.q) for t in range(self.q))
        return np.trace(l.dot(self.r[(k + len(ops) - 1) % self.L]))

    def schmidt_sq(self, k):
        w = la.eigvals(self.l[k].dot(self.r[k])).real
        w = np.sort(np.clip(w, 0, None))[::-1]
        return w / w.sum()

    def overlap(self, other):
        """(spectral radius per site, dominant eigenvalue per common block)."""
        E, n = block_E(self.A, other.A)
        w = la.eigvals(E)
        i = np.argmax(np.abs(w))
        return abs(w[i]) ** (1. / n), w[i], n


def energy_density(inf, h, hs, k=0):
    return inf.expect(h, k, hs)


def big_vec(A, sites):
    pass
