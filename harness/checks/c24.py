"""C24: the matrix-exponential helpers return the integrals they define."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import lds
from checks import inst
from common import EPS, sut

RULE = (
    "A case is a drift matrix, a noise-effect matrix, a positive semi-definite spectral "
    "density (slot: shapes and kind of matrix, or a provided kernel) and a lag; non-trivial "
    "if the lag is positive, the drift matrix is not zero and (for the noise integral) the "
    "round-off that the Van Loan block matrix allows is below 1e-6 of the answer."
)
ASSUMPTIONS = [
    "exponentials and integrals by Taylor series and doubling in 80-bit arithmetic",
    "tolerances follow round-off through scaling and squaring of the defining block matrix, "
    "whose blocks exp(-F dt) grow for damped systems with long lags",
]
KINDS = ["dense", "nilpotent", "skew", "stable", "companion", "diagonal"]
KERNELS = [["Exp"], ["Matern32"], ["Matern52"], ["SHO"], ["Cosine"], ["Constant"],
           ["+", ["SHO"], ["Exp"]]]


def slots(tier, seed):
    out = []
    big = tier != "quick"
    for i, kind in enumerate(KINDS):
        for b in (1, 2, 3, 4) if not big else (1, 2, 3, 4, 5, 6):
            if kind in ("skew", "nilpotent", "companion") and b == 1:
                continue
            m = 1 + (i + b) % min(b, 3)
            out.append(dict(kind=kind, b=b, m=m, mode="jit", examples=120))
    out.append(dict(kind="dense", b=2, m=1, mode="eager", examples=4))
    out.append(dict(kind="stable", b=3, m=2, mode="eager", examples=4))
    for s in KERNELS:
        out.append(dict(kind="kernel", struct=s, b=gen.dim(s), m=0, mode="jit", examples=80))
    for s in out:
        s["cost"] = s["b"]
        s["examples"] *= 8 if big else 1
    return out


num = st.one_of(
    st.integers(-16, 16).map(lambda i: i / 8),
    st.sampled_from([0.0, 1.0, -1.0]),
    st.integers(-999, 999).map(lambda i: i / 500),
)


def matrix(draw, n, m):
    return [[draw(num) for _ in range(m)] for _ in range(n)]


def strategy(slot):
    b, m, kind = slot["b"], slot["m"], slot["kind"]

    @st.composite
    def build(draw):
        lag = draw(st.one_of(gen.logu(-2, 1), gen.logu(-1, 0.7), gen.logu(-8, -2, step=4),
                             st.just(0.0), st.just(1.0)))
        unit = 10.0 ** draw(st.sampled_from([0, 0, 0, -2, 2, -5, 5]))
        if kind == "kernel":
            e = round(np.log10(unit))
            return {"params": draw(gen.params(slot["struct"], -1 + e, 1 + e)),
                    "dt": lag * unit, "t": draw(st.integers(-8, 8)) / 4 * unit}
        M = np.array(matrix(draw, b, b))
        if kind == "nilpotent":
            F = np.triu(M, 1)
            P = draw(st.permutations(range(b)))
            F = F[np.ix_(P, P)]
        elif kind == "skew":
            F = M - M.T
        elif kind == "stable":
            F = -M @ M.T / b + (np.triu(M, 1) - np.triu(M, 1).T) / 2
        elif kind == "companion":
            F = np.diag(np.ones(b - 1), 1)
            F[-1] = -np.abs(M[0])
        elif kind == "diagonal":
            F = -np.diag(np.abs(M[0]))
        else:
            F = M
        B = np.array(matrix(draw, m, m))
        return {
            "F": (F / unit).tolist(),
            "L": matrix(draw, b, m),
            "Qc": (B @ B.T * draw(gen.logu(-3, 3))).tolist(),
            "dt": lag * unit,
            "t": draw(st.integers(-8, 8)) / 4 * unit,
        }

    return build()


def prepare(slot):
    import build
    import jax.numpy as jnp
    from smolgp import helpers
    from smolgp.kernels.base import StateSpaceModel

    def both(F, L, Qc, dt):
        return {
            "Q": helpers.Q_from_VanLoan(F, L, Qc, dt),
            "Phibar": helpers.Phibar_from_VanLoan(F, dt),
            "blocks": helpers.VanLoan(F, L, Qc, dt),
        }

    def f(F, L, Qc, t, dt):
        return both(F, L, Qc, dt)

    def g(params, t, dt):
        k = build.kernel(slot["struct"], params)
        F, L, Qc = k.design_matrix(), k.noise_effect_matrix(), k.noise()
        out = both(F, L, Qc, (t + dt) - t)
        out.update(F=F, L=L, Qc=Qc, P=k.stationary_covariance())
        if gen.is_leaf(slot["struct"]):
            out["Qk"] = StateSpaceModel.process_noise(k, t, t + dt, use_van_loan=True)
            out["Ak"] = StateSpaceModel.transition_matrix(k, t, t + dt)
        return out

    if slot["kind"] == "kernel":
        jg = jax.jit(g)
        return lambda c: jg(build.asarray(c["params"]), *map(jnp.asarray, (c["t"], c["dt"])))
    jf = jax.jit(f) if slot["mode"] == "jit" else f
    return lambda c: jf(*(jnp.asarray(c[k], dtype=float) for k in ("F", "L", "Qc", "t", "dt")))


def balance(C):
    """Norm of C after diagonal scaling"""
    d = np.ones(len(C))
    B = np.abs(C - np.diag(np.diag(C)))
    for _ in range(8):
        M = B * d / d[:, None]
        r, c = M.sum(axis=1), M.sum(axis=0)
        ok = (r > 0) & (c > 0)
        d = d * np.where(ok, np.where(ok, r, 1) / np.where(ok, c, 1), 1.0) ** 0.25
    return float(np.max(np.sum(np.abs(C * d / d[:, None]), axis=0)))


def blockmax(M, b):
    n = len(M) // b
    m = M.reshape(n, b, n, b).max(axis=(1, 3))
    return np.repeat(np.repeat(m, b, axis=0), b, axis=1)


def exponential(C, dt, u):
    """
    exp(C dt) and the round-off of computing it by scaling and squaring, where u are the
    units of the rows: relative to the largest element of each block in these units
    """
    b = len(u[0])
    u = lds.ld(np.concatenate(u))
    C = lds.ld(C) * lds.LD(dt) / u[:, None] * u
    norm = balance(C.astype(float))
    s = int(max(0, np.ceil(np.log2(norm)))) if norm > 0 else 0
    h = C / lds.LD(2) ** s
    E, term = np.eye(len(C), dtype=lds.LD), np.eye(len(C), dtype=lds.LD)
    T, tt = E, E
    for n in range(1, 40):
        term = term @ h / n
        tt = tt @ np.abs(h) / n
        E, T = E + term, T + tt
    err = 20 * EPS * blockmax(T, b)
    for _ in range(s):
        a = np.abs(E)
        err = a @ err + err @ a + err @ err + 2 * len(C) * EPS * (a @ a)
        E = E @ E
    return E * u[:, None] / u, 10 * err * u[:, None] / u


def blocks_of(E, b):
    n = len(E) // b
    return {(i, j): E[i * b : (i + 1) * b, j * b : (j + 1) * b]
            for i in range(n) for j in range(n)}


NAMES = {"F1": (0, 0), "G1": (0, 1), "H1": (0, 2), "K1": (0, 3), "F2": (1, 1), "G2": (1, 2),
         "H2": (1, 3), "F3": (2, 2), "G3": (2, 3), "F4": (3, 3)}


def check(slot, case, run, ctx):
    with sut("helpers"):
        out = jax.tree_util.tree_map(lambda v: np.asarray(v).astype(float), run(case))
    dt = case["dt"]
    if slot["kind"] == "kernel":
        F, L, Qc = out["F"], out["L"], out["Qc"]
        dt = float((case["t"] + dt) - case["t"])
    else:
        F, L, Qc = (np.array(case[k], dtype=float) for k in ("F", "L", "Qc"))
    b = len(F)
    u = np.sqrt(np.diag(out["P"])) if "P" in out else np.ones(b)
    W = lds.ld(L) @ lds.ld(Qc) @ lds.ld(L).T
    I, Z = np.eye(b), np.zeros((b, b))
    C = np.block([[-lds.ld(F), I, Z, Z], [Z, -lds.ld(F), W, Z], [Z, Z, lds.ld(F).T, I],
                  [Z, Z, Z, Z]])
    E, err = exponential(C, dt, [u, u, 1 / u, 1 / u])
    want, tol = blocks_of(E, b), blocks_of(err, b)
    ctx.require(set(out["blocks"]) == set(NAMES), f"blocks named {sorted(out['blocks'])}")
    for name, ij in NAMES.items():
        ctx.close(f"block {name}", out["blocks"][name], want[ij].astype(float),
                  tol[ij].astype(float) + 1e-300)
    S, U = np.outer(lds.ld(u), 1 / lds.ld(u)), np.outer(lds.ld(u), lds.ld(u))
    Q = lds.discretise(lds.ld(F) / S, W / U, dt)[1] * U
    Pb = lds.integrals(lds.ld(F) / S, dt)[1] * S
    E2, err2 = exponential(np.block([[-lds.ld(F), W], [Z, lds.ld(F).T]]), dt,
                          [u, 1 / u])
    a, ta = blocks_of(E2, b), blocks_of(err2, b)
    qtol = (np.abs(a[1, 1].T) @ ta[0, 1] + ta[1, 1].T @ np.abs(a[0, 1])
            + ta[1, 1].T @ ta[0, 1]).astype(float)
    ctx.close("Q", out["Q"], Q.astype(float), qtol + 1e-300)
    E3, err3 = exponential(np.block([[lds.ld(F), I], [Z, Z]]), dt, [u, u])
    ctx.close("Phibar", out["Phibar"], Pb.astype(float),
              blocks_of(err3, b)[0, 1].astype(float) + 1e-300)
    scale = float(np.max(np.abs(Q)))
    if scale > 0 and np.max(qtol) < 1e-6 * scale:
        ctx.note("sharp noise integral")
    if "Qk" in out:
        ctx.close("process_noise(use_van_loan=True)", out["Qk"], Q.astype(float), qtol + 1e-300)
        E4, err4 = exponential(F, dt, [u])
        ctx.close("default transition", out["Ak"], E4.astype(float), err4.astype(float) + 1e-300)
    # what the blocks are for
    B = out["blocks"]
    tl = (np.abs(want[2, 2].T) @ tol[1, 2] + tol[2, 2].T @ np.abs(want[1, 2])
          + tol[2, 2].T @ tol[1, 2]).astype(float)
    ctx.close("noise integral from the blocks", B["F3"].T @ B["G2"], Q.astype(float), tl + 1e-300)
    ctx.close("integral of the exponential from the blocks", B["G3"].T, Pb.astype(float),
              tol[2, 3].T.astype(float) + 1e-300)


def nontrivial(slot, case):
    if slot["kind"] == "kernel":
        return case["dt"] > 0
    F = np.array(case["F"])
    return case["dt"] > 0 and bool(np.any(F != 0)) and np.linalg.norm(F) * case["dt"] < 10


def labels(slot, case):
    out = [f"matrix:{slot['kind']}", "lag:0" if case["dt"] == 0 else "lag:+"]
    if slot["kind"] != "kernel":
        out.append("noise:0" if not np.any(np.array(case["Qc"])) else "noise")
    return out
