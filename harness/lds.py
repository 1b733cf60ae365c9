"""Linear dynamics in extended precision: matrix exponentials and their integrals by
Taylor series for a short step and repeated doubling."""

import numpy as np

LD = np.longdouble


def ld(x):
    return np.asarray(x, dtype=LD)


def mm(*ms):
    out = ms[0]
    for m in ms[1:]:
        out = out @ m
    return out


def steps(F, dt, target=0.25):
    norm = float(np.max(np.sum(np.abs(F), axis=0))) * abs(float(dt))
    s = max(0, int(np.ceil(np.log2(norm / target)))) if norm > target else 0
    return s, LD(dt) / LD(2) ** s


def expm(F, dt):
    F = ld(F)
    s, h = steps(F, dt)
    A = np.eye(len(F), dtype=LD)
    term = A
    for n in range(1, 24):
        term = term @ F * (h / n)
        A = A + term
    for _ in range(s):
        A = A @ A
    return A


def discretise(F, W, dt):
    """A = exp(F dt) and Q = int_0^dt exp(F s) W exp(F' s) ds"""
    F, W = ld(F), ld(W)
    s, h = steps(F, dt)
    n = len(F)
    A = np.eye(n, dtype=LD)
    term = A
    Q = W * h
    qt = W * h
    for j in range(1, 24):
        term = term @ F * (h / j)
        A = A + term
        qt = (F @ qt + qt @ F.T) * (h / (j + 1))
        Q = Q + qt
    for _ in range(s):
        Q = Q + A @ Q @ A.T
        A = A @ A
    return A, Q


def integrals(F, dt):
    """exp(F dt), its integral and its double integral over [0, dt]"""
    F = ld(F)
    n = len(F)
    s, h = steps(F, dt)
    I = np.eye(n, dtype=LD)
    A, B, C = I, I * h, I * (h * h / 2)
    term = I
    for j in range(1, 24):
        term = term @ F * (h / j)
        A = A + term
        B = B + term * (h / (j + 1))
        C = C + term * (h * h / ((j + 1) * (j + 2)))
    for _ in range(s):
        # int_0^2h = int_0^h + A int_0^h ; C(2h) = C + h B + A C ... (order commutes)
        C = C + B * h + A @ C
        B = B + A @ B
        A = A @ A
        h = 2 * h
    return A, B, C
