"""Exact covariances of linear functionals of linear stochastic systems, in 80-bit arithmetic."""

import numpy as np

import lds
from lds import LD, ld

PI = LD("3.14159265358979323846264338327950288")


def blkdiag(A, B):
    out = np.zeros((len(A) + len(B), A.shape[1] + B.shape[1]), dtype=LD)
    out[: len(A), : A.shape[1]] = A
    out[len(A) :, A.shape[1] :] = B
    return out


def kron(A, B):
    return (A[:, None, :, None] * B[None, :, None, :]).reshape(
        A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]
    )


def provided(kind, p):
    """Drift, stationary covariance and observation of some of the provided kernels"""
    p = [LD(x) for x in p]
    if kind == "Exp":
        return ld([[-1 / p[0]]]), ld([[p[1] ** 2]]), ld([1])
    if kind == "Matern32":
        a = np.sqrt(LD(3)) / p[0]
        return (ld([[0, 1], [-(a**2), -2 * a]]), p[1] ** 2 * np.diag(ld([1, a**2])), ld([1, 0]))
    if kind == "Matern52":
        a = np.sqrt(LD(5)) / p[0]
        b = a**2 / 3
        return (ld([[0, 1, 0], [0, 0, 1], [-(a**3), -3 * a**2, -3 * a]]),
                p[1] ** 2 * ld([[1, 0, -b], [0, b, 0], [-b, 0, a**4]]), ld([1, 0, 0]))
    if kind == "SHO":
        w, q, s = p
        return (ld([[0, 1], [-(w**2), -w / q]]), s**2 * np.diag(ld([1, w**2])), ld([1, 0]))
    if kind == "Cosine":
        w = 2 * PI / p[0]
        return ld([[0, -w], [w, 0]]), p[1] ** 2 * np.eye(2, dtype=LD), ld([1, 0])
    raise KeyError(kind)


class Process:
    """x' = F x + noise with stationary covariance P, at and between given times"""

    def __init__(self, F, P, h, times):
        """h: the direction whose integrals are wanted (or None)"""
        F, P = ld(F), ld(P)
        d = len(F)
        sd = np.sqrt(np.diag(P))
        self.sd = sd
        Fn = F / sd[:, None] * sd
        Pn = P / sd[:, None] / sd
        W = -(Fn @ Pn)
        W = W + W.T
        hn = np.zeros(d, dtype=LD) if h is None else ld(h) * sd
        G = np.zeros((d + 1, d + 1), dtype=LD)
        G[:d, :d] = Fn
        Wz = np.zeros_like(G)
        Wz[:d, :d] = W
        self.times = sorted(set(float(t) for t in times))
        n = len(self.times)
        size = d + (n - 1) * (d + 1)
        S = np.zeros((size, size), dtype=LD)
        S[:d, :d] = Pn
        X = np.zeros((n, d, size), dtype=LD)
        Z = np.zeros((n, size), dtype=LD)  # integral since the first time
        X[0, :, :d] = np.eye(d)
        for k in range(1, n):
            dt = LD(self.times[k]) - LD(self.times[k - 1])
            G[d, :d] = hn / dt  # in units of the step
            A, Q = lds.discretise(G, Wz, dt)
            i = d + (k - 1) * (d + 1)
            S[i : i + d + 1, i : i + d + 1] = Q
            X[k] = A[:d, :d] @ X[k - 1]
            X[k, :, i : i + d] += np.eye(d)
            dz = A[d, :d] @ X[k - 1]
            dz[i + d] += 1
            Z[k] = Z[k - 1] + dz * dt
        self.X, self.Z, self.S = X, Z, S
        self.at = {t: k for k, t in enumerate(self.times)}

    def value(self, row, t):
        """row @ x(t)"""
        return (ld(row) * self.sd) @ self.X[self.at[float(t)]]

    def average(self, a, b):
        """The average of h @ x from a to b"""
        a, b = float(a), float(b)
        return (self.Z[self.at[b]] - self.Z[self.at[a]]) / (LD(b) - LD(a))

    def cov(self, A, B):
        return np.array(A) @ self.S @ np.array(B).T
