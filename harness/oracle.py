"""Reference model, independent of smolgp: closed-form covariances and dense GP
regression in extended precision (80-bit numpy longdouble).

A *spec* describes a kernel as nested dicts, e.g.
  {"k": "SHO", "p": {"omega": 1.0, "quality": 2.0, "sigma": 1.0}, "name": "a"}
  {"k": "Sum", "a": spec, "b": spec}, {"k": "Product", ...}
  {"k": "Scale", "a": spec, "c": 2.0}
Integrated leaves are "IExp", "IMatern32", "IMatern52", "ICosine", "ISHO".
"""

import numpy as np

LD = np.longdouble
CLD = np.clongdouble
PI = LD("3.14159265358979323846264338327950288")
SQRT3 = np.sqrt(LD(3))
SQRT5 = np.sqrt(LD(5))

# the SHO is treated as critically damped by smolgp within this of Q=1/2
# (jnp.allclose(q, 0.5)); the generators keep away from its edge
CRIT = 5.01e-6


def ld(x):
    return np.asarray(x, dtype=LD)


# ----------------------------------------------------------------------------
# Leaf covariances: k(tau), and for integrated models G (even, G''=k) split as
# G = linear part + decaying/oscillating part
# ----------------------------------------------------------------------------


def _sho_terms(w, q):
    """k(tau) = sum_i c_i exp(z_i tau), or None if critically damped"""
    w, q = LD(w), LD(q)
    if abs(q - LD(0.5)) <= LD(CRIT):
        return None
    if q > LD(0.5):
        n = np.sqrt(LD(1) - LD(1) / (4 * q * q))
        f = 2 * n * q
        z = CLD(complex(0)) + (-w / (2 * q)) + CLD(1j) * (n * w)
        # e^{at}(cos bt + sin(bt)/f) = Re[(1 - i/f) e^{zt}]
        return [(CLD(1) - CLD(1j) / f, z)]
    # overdamped: decay rates a = w/(2q) (1 -+ sqrt(1-4q^2)), without cancellation
    r = np.sqrt((1 - 2 * q) * (1 + 2 * q))
    f = r
    fast = -w * (1 + r) / (2 * q)
    slow = -w * 2 * q / (1 + r)
    return [
        (CLD((1 + 1 / f) / 2), CLD(slow)),
        (CLD((1 - 1 / f) / 2), CLD(fast)),
    ]


def leaf_terms(k, p):
    """Sum of exponentials representation [(c, z)], or None"""
    if k in ("Exp", "IExp"):
        return [(CLD(1), CLD(-1 / LD(p["scale"])))]
    if k in ("Cosine", "ICosine"):
        return [(CLD(1), CLD(1j) * (2 * PI / LD(p["scale"])))]
    if k in ("SHO", "ISHO"):
        return _sho_terms(p["omega"], p["quality"])
    return None


def leaf_lam(k, p):
    if k in ("Matern32", "IMatern32"):
        return SQRT3 / LD(p["scale"])
    if k in ("Matern52", "IMatern52"):
        return SQRT5 / LD(p["scale"])
    if k in ("SHO", "ISHO"):
        return LD(p["omega"])
    raise KeyError(k)


def bessel_ie(j, x):
    """exp(-x) I_j(x), modified Bessel function of the first kind (series)"""
    x = LD(x)
    if x == 0:
        return LD(1) if j == 0 else LD(0)
    # log-free series with running terms, scaled by exp(-x)
    term = np.exp(-x)
    for m in range(1, j + 1):
        term = term * (x / 2) / m
    s = term
    k = 1
    while True:
        term = term * (x / 2) ** 2 / (LD(k) * (k + j))
        s = s + term
        if term <= s * LD(1e-22) or k > 2000:
            return s
        k += 1


def ess_order(gamma):
    ell = np.sqrt(2 / gamma)
    return 4 if ell >= 1 else 6 if ell >= 0.5 else 8 if ell >= 0.25 else 16


def leaf_k(k, p, tau):
    """Covariance of an instantaneous leaf at (signed) lag tau"""
    tau = np.abs(ld(tau))
    s2 = LD(p.get("sigma", 1.0)) ** 2
    if k == "Constant":
        return s2 * np.ones_like(tau)
    terms = leaf_terms(k, p)
    if terms is not None:
        out = np.zeros_like(tau)
        for c, z in terms:
            out = out + np.real(c * np.exp(z * tau))
        return s2 * out
    if k in ("Matern32", "IMatern32") or k in ("SHO", "ISHO"):
        u = leaf_lam(k, p) * tau
        return s2 * (1 + u) * np.exp(-u)
    if k in ("Matern52", "IMatern52"):
        u = leaf_lam(k, p) * tau
        return s2 * (1 + u + u * u / 3) * np.exp(-u)
    if k == "ESS":  # the finite-order approximation documented for the state space form
        order = p.get("order") or ess_order(float(p["gamma"]))
        x = LD(p["gamma"]) / 2
        th = 2 * PI * tau / LD(p["period"])
        out = bessel_ie(0, x) * np.ones_like(tau)
        for j in range(1, int(order)):
            out = out + 2 * bessel_ie(j, x) * np.cos(j * th)
        return s2 * out
    raise KeyError(k)


def ess_exact(p, tau):
    tau = ld(tau)
    return LD(p.get("sigma", 1.0)) ** 2 * np.exp(
        -LD(p["gamma"]) * np.sin(PI * tau / LD(p["period"])) ** 2
    )


def _expm2(x):
    """exp(x) - 1 - x, accurately, complex longdouble"""
    x = np.asarray(x, dtype=CLD)
    small = np.abs(x) < 1
    xs = np.where(small, x, 0)
    s = np.zeros_like(xs)
    term = np.ones_like(xs)
    terms = []
    for n in range(1, 28):
        term = term * xs / n
        if n >= 2:
            terms.append(term)
    for t in reversed(terms):
        s = s + t
    big = np.exp(np.where(small, 0, x)) - 1 - np.where(small, 0, x)
    return np.where(small, s, big)


def _expm1(x):
    x = np.asarray(x, dtype=CLD)
    small = np.abs(x) < 1
    xs = np.where(small, x, 0)
    s = np.zeros_like(xs)
    term = np.ones_like(xs)
    terms = []
    for n in range(1, 27):
        term = term * xs / n
        terms.append(term)
    for t in reversed(terms):
        s = s + t
    big = np.exp(np.where(small, 0, x)) - 1
    return np.where(small, s, big)


def _matern_G(kind, u):
    """lam^2 G for Matern-3/2 (kind 3) and -5/2 (kind 5), u = lam*tau >= 0"""
    u = ld(u)
    # series of (polynomial)*exp(-u) minus its linear part, for small u
    small = u < LD(0.7)
    us = np.where(small, u, 0)
    # k(u) = sum a_n u^n ; G = sum a_n u^(n+2)/((n+1)(n+2))
    s = np.zeros_like(us)
    fact = LD(1)
    coef_e = []
    for n in range(0, 30):
        if n > 0:
            fact = fact * n
        coef_e.append(LD((-1) ** n) / fact)
    poly = [1, 1] if kind == 3 else [1, 1, LD(1) / 3]
    for n in range(29, -1, -1):
        a = sum(LD(poly[m]) * coef_e[n - m] for m in range(len(poly)) if n - m >= 0)
        s = s + a * us ** (n + 2) / LD((n + 1) * (n + 2))
    ub = np.where(small, 1, u)
    e = np.exp(-ub)
    if kind == 3:
        big = 2 * ub - 3 + (ub + 3) * e
    else:
        big = 8 * ub / 3 - 5 + (ub * ub / 3 + 7 * ub / 3 + 5) * e
    return np.where(small, s, big)


def _matern_Gdec(kind, u):
    """The decaying part of lam^2 G"""
    e = np.exp(-u)
    if kind == 3:
        return (u + 3) * e
    return (u * u / 3 + 7 * u / 3 + 5) * e


def _matern_g1(kind, u):
    """lam G' for u>=0 (the integral of k from 0 to tau), via -expm1 style forms"""
    u = ld(u)
    m = -np.expm1(-u)
    e = np.exp(-u)
    if kind == 3:
        return 2 * m - u * e
    return LD(8) / 3 * m - (u * u / 3 + 5 * u / 3) * e


def leaf_G(k, p, tau):
    """Even second antiderivative of k with G(0)=G'(0)=0, unit variance"""
    tau = np.abs(ld(tau))
    if k == "Constant":
        return tau * tau / 2
    terms = leaf_terms(k, p)
    if terms is not None:
        out = np.zeros_like(tau)
        for c, z in terms:
            out = out + np.real(c * _expm2(z * tau) / (z * z))
        return out
    lam = leaf_lam(k, p)
    kind = 5 if "Matern52" in k else 3
    return _matern_G(kind, lam * tau) / lam**2


def leaf_Gdec(k, p, tau):
    """G without its part linear in tau (enough for disjoint windows)"""
    tau = np.abs(ld(tau))
    terms = leaf_terms(k, p)
    if terms is not None:
        out = np.zeros_like(tau)
        for c, z in terms:
            out = out + np.real(c * np.exp(z * tau) / (z * z))
        return out
    lam = leaf_lam(k, p)
    kind = 5 if "Matern52" in k else 3
    return _matern_Gdec(kind, lam * tau) / lam**2


def leaf_g1(k, p, tau):
    """G'(tau) = sign(tau) * integral of k from 0 to |tau|, unit variance"""
    tau = ld(tau)
    s, tau = np.sign(tau), np.abs(tau)
    if k == "Constant":
        return s * tau
    terms = leaf_terms(k, p)
    if terms is not None:
        out = np.zeros_like(tau)
        for c, z in terms:
            out = out + np.real(c * _expm1(z * tau) / z)
        return s * out
    lam = leaf_lam(k, p)
    kind = 5 if "Matern52" in k else 3
    return s * _matern_g1(kind, lam * tau) / lam


def leaf_rate(k, p):
    """The fastest rate in the covariance"""
    terms = leaf_terms(k, p)
    if terms is not None:
        return max(abs(z) for _, z in terms)
    return leaf_lam(k, p)


def _gauss_legendre(n):
    x, _ = np.polynomial.legendre.leggauss(n)
    x = ld(x)
    for _ in range(3):  # polish to extended precision
        p0, p1 = np.ones_like(x), x
        for j in range(2, n + 1):
            p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
        dp = n * (p0 - x * p1) / (1 - x * x)
        x = x - p1 / dp
    p0, p1 = np.ones_like(x), x
    for j in range(2, n + 1):
        p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
    dp = n * (p0 - x * p1) / (1 - x * x)
    return x, 2 / ((1 - x * x) * dp * dp)


GLX, GLW = _gauss_legendre(14)


def leaf_window_cov(k, p, t1, d1, t2, d2):
    """Covariance between averages over [t-d/2, t+d/2] (d=0: point values)"""
    t1, d1 = ld(t1)[:, None], ld(d1)[:, None]
    t2, d2 = ld(t2)[None, :], ld(d2)[None, :]
    s2 = LD(p.get("sigma", 1.0)) ** 2
    if k == "Constant":
        return s2 * np.ones(np.broadcast(t1, t2).shape, dtype=LD)
    t1, d1, t2, d2 = np.broadcast_arrays(t1, d1, t2, d2)
    tau = np.abs(t1 - t2)
    out = leaf_k(k, p, tau) / s2 if s2 != 0 else np.zeros_like(tau)
    both = (d1 > 0) & (d2 > 0)
    one = (d1 > 0) ^ (d2 > 0)
    if np.any(one):
        dd = np.where(d1 > 0, d1, d2)
        dd_ = np.where(dd > 0, dd, 1)
        v = (leaf_g1(k, p, tau + dd / 2) - leaf_g1(k, p, tau - dd / 2)) / dd_
        out = np.where(one, v, out)
    if np.any(both):
        h1, h2 = d1 / 2, d2 / 2
        pr = np.where(both, d1 * d2, 1)
        args = (tau + h1 + h2, tau - h1 + h2, tau + h1 - h2, tau - h1 - h2)
        a, b, c, d = (leaf_G(k, p, x) for x in args)
        full = (a - b - c + d) / pr
        disjoint = tau >= h1 + h2
        a, b, c, d = (leaf_Gdec(k, p, np.where(disjoint, x, 0)) for x in args)
        dec = (a - b - c + d) / pr
        # short disjoint windows: exact quadrature instead of second differences
        short = disjoint & both & (leaf_rate(k, p) * np.maximum(d1, d2) < 2)
        if np.any(short):
            lag = (
                tau[short][:, None, None]
                + h1[short][:, None, None] * GLX[None, :, None]
                + h2[short][:, None, None] * GLX[None, None, :]
            )
            quad = np.einsum("nij,i,j->n", leaf_k(k, p, lag) / s2, GLW / 2, GLW / 2)
            dec[short] = quad
        out = np.where(both, np.where(disjoint, dec, full), out)
    return s2 * out


# ----------------------------------------------------------------------------
# Composite covariances
# ----------------------------------------------------------------------------


def cov(spec, t1, t2):
    """Covariance matrix of the (latent) process between times t1 and t2"""
    k = spec["k"]
    if k == "Sum":
        return cov(spec["a"], t1, t2) + cov(spec["b"], t1, t2)
    if k == "Product":
        return cov(spec["a"], t1, t2) * cov(spec["b"], t1, t2)
    if k == "Scale":
        return LD(spec["c"]) * cov(spec["a"], t1, t2)
    tau = ld(t1)[:, None] - ld(t2)[None, :]
    return leaf_k(k, spec["p"], tau)


def window_cov(spec, t1, d1, t2, d2):
    k = spec["k"]
    if k == "Sum":
        return window_cov(spec["a"], t1, d1, t2, d2) + window_cov(
            spec["b"], t1, d1, t2, d2
        )
    if k == "Scale":
        return LD(spec["c"]) * window_cov(spec["a"], t1, d1, t2, d2)
    return leaf_window_cov(k, spec["p"], t1, d1, t2, d2)


def components(spec):
    """The additive components (anything that is not a sum), left to right"""
    if spec["k"] == "Sum":
        return components(spec["a"]) + components(spec["b"])
    return [spec]


# ----------------------------------------------------------------------------
# Dense Gaussian process regression
# ----------------------------------------------------------------------------


class NotPD(Exception):
    pass


def cholesky(A):
    A = ld(A)
    n = A.shape[0]
    L = np.zeros_like(A)
    for j in range(n):
        d = A[j, j] - L[j, :j] @ L[j, :j]
        if not d > 0:
            raise NotPD()
        L[j, j] = np.sqrt(d)
        if j + 1 < n:
            L[j + 1 :, j] = (A[j + 1 :, j] - L[j + 1 :, :j] @ L[j, :j]) / L[j, j]
    return L


def solve_lower(L, B):
    B = ld(B)
    X = np.zeros_like(B)
    for i in range(L.shape[0]):
        X[i] = (B[i] - L[i, :i] @ X[:i]) / L[i, i]
    return X


class Dense:
    """GP regression given the data covariance (without noise)"""

    def __init__(self, K, diag, y):
        self.n = len(y)
        self.K = ld(K)
        self.diag = ld(np.broadcast_to(diag, (self.n,)))
        self.y = ld(y)
        self.S = self.K + np.diag(self.diag)
        self.L = cholesky(self.S)
        self.w = solve_lower(self.L, self.y)

    @property
    def llh(self):
        return float(
            -(self.w @ self.w) / 2
            - np.sum(np.log(np.diag(self.L)))
            - self.n * np.log(2 * PI) / 2
        )

    def llh_terms(self):
        """Sizes of the summed terms, for error scales"""
        return float(
            (self.w @ self.w) / 2
            + np.sum(np.abs(np.log(np.diag(self.L))))
            + self.n
        )

    def predict(self, Ks, kss):
        """Ks: (M, N) covariance of targets with data; kss: (M,) prior variances"""
        V = solve_lower(self.L, ld(Ks).T)
        mu = V.T @ self.w
        var = ld(kss) - np.sum(V * V, axis=0)
        return np.asarray(mu, float), np.asarray(var, float)

    def cond(self):
        """A cheap condition estimate: largest prior variance * N / smallest noise"""
        v = float(np.max(np.diag(self.K)))
        return self.n * v / max(float(np.min(self.diag)), 1e-300) + 1
