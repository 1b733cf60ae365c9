"""C15: the periodic kernel is its stated approximation, within its error bound."""

import warnings

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
from common import EPS, sut

RULE = (
    "A case is a number of terms (slot, or automatic), period, gamma, sigma and lags; "
    "non-trivial if some lag is not a multiple of half a period."
)
ASSUMPTIONS = [
    "Bessel functions by series in 80-bit arithmetic; the automatic order is 'small' if the "
    "error is below 7% of the variance wherever no warning is given",
]
SMALL = 0.07


def slots(tier, seed):
    orders = [1, 2, 3, 4, 6, 8, 11, 16, 25, 40]
    out = [dict(order=o, mode="jit", examples=150) for o in orders]
    if tier != "quick":
        out += [dict(order=o, mode="jit", examples=150) for o in (5, 7, 9, 13, 20, 32, 60)]
    out += [dict(order=None, mode="eager", part=i, examples=10) for i in range(6)]
    out += [dict(order=o, mode="eager", examples=5) for o in (1, 5)]
    for s in out:
        s["cost"] = (s["order"] or 8) / 8 * (4 if s["mode"] == "eager" else 1)
        s["examples"] *= 1 if tier == "quick" else 8
    return out


def strategy(slot):
    gammas = st.one_of(
        gen.logu(-2, 1), gen.logu(0.5, 2.9), st.sampled_from([2.0, 8.0, 32.0, 1.99, 7.99, 31.9])
    )

    @st.composite
    def build(draw):
        period = draw(gen.logu(-2, 2))
        lags = [
            draw(st.integers(-40, 40)) / 40 + draw(st.sampled_from([0, 0, 1, 7, 1000, 10**6]))
            for _ in range(5)
        ]
        return {
            "period": period,
            "gamma": draw(gammas),
            "sigma": draw(gen.logu(-2, 2)),
            "lags": [x * period for x in lags],
            "periods": draw(st.sampled_from([1, 2, 10, 1000])),
        }

    return build()


GRID = np.linspace(0, 0.5, 17)


def prepare(slot):
    import build
    import jax.numpy as jnp

    def f(period, gamma, sigma, lags, shifted):
        K = build.K.ExpSineSquared
        kw = {} if slot["order"] is None else {"order": slot["order"]}
        k = K(period=period, gamma=gamma, sigma=sigma, **kw)
        z = jnp.zeros(1)
        grid = jnp.asarray(GRID) * period
        out = {
            "k": k(lags, z)[:, 0],
            "shifted": k(shifted, z)[:, 0],
            "grid": k(grid, z)[:, 0],
            "var": k(lags),
            "bound": k.error_bound(),
        }
        if slot["order"] is None:
            out["order"] = k.order
        else:
            k2 = K(period=period, gamma=gamma, sigma=sigma, order=slot["order"] + 1)
            out["grid2"] = k2(grid, z)[:, 0]
        return out

    return jax.jit(f) if slot["mode"] == "jit" else f


def check(slot, case, run, ctx):
    import jax.numpy as jnp

    p = {k: case[k] for k in ("period", "gamma", "sigma")}
    lags = np.asarray(case["lags"])
    shifted = lags + case["periods"] * p["period"]
    args = [p["period"], p["gamma"], p["sigma"]]
    if slot["mode"] == "jit":
        args = [jnp.asarray(a) for a in args]
    with warnings.catch_warnings(record=True) as warned, sut("ExpSineSquared"):
        warnings.simplefilter("always")
        out = run(*args, jnp.asarray(lags), jnp.asarray(shifted))
        out = {k: np.asarray(v).astype(float) for k, v in out.items()}
    v = p["sigma"] ** 2
    order = slot["order"]
    if order is None:
        order = int(out["order"])
    p["order"] = order
    tol = v * (1e-11 + 50 * EPS * 2 * np.pi * order * (1 + np.abs(lags) / p["period"]))
    ctx.close("kernel as truncated expansion", out["k"], oracle.leaf_k("ESS", p, lags).astype(float),
              tol)
    k0 = float(oracle.leaf_k("ESS", p, 0.0))
    ctx.close("variance", out["var"], np.full(len(lags), k0), 1e-11 * v)
    big = 50 * EPS * 2 * np.pi * order * (np.abs(shifted) + np.abs(lags)) / p["period"]
    ctx.close("kernel after whole periods", out["shifted"], out["k"], v * (1e-12 + big))
    exact = oracle.ess_exact(p, lags).astype(float)
    err = np.abs(out["k"] - exact)
    bound = float(out["bound"])
    ctx.require(np.isfinite(bound) and bound >= 0, f"error bound is {bound}")
    ctx.require(bool(np.all(err <= bound * (1 + 1e-9) + tol)),
                f"error {np.max(err):.6g} exceeds the error bound {bound:.6g}")
    grid = oracle.ess_exact(p, GRID * p["period"]).astype(float)
    e1 = np.max(np.abs(out["grid"] - grid))
    ctx.require(e1 <= bound * (1 + 1e-9) + np.min(tol),
                f"error {e1:.6g} exceeds the error bound {bound:.6g}")
    # at zero lag, all neglected terms add up: there the bound is meant to be reached
    if "grid2" in out:
        e2 = np.max(np.abs(out["grid2"] - grid))
        ctx.require(e2 <= e1 + 1e-11 * v, f"error grows from {e1:.6g} to {e2:.6g} with one more term")
    else:
        told = any("order" in str(w.message) for w in warned)
        ctx.note("warned of a high order" if told else "automatic order without warning")
        if not told:
            ctx.require(e1 <= SMALL * v, f"automatic order {order} has error {e1 / v:.3g} sigma^2")
        ctx.require(told or p["gamma"] <= 32.01, "no warning for a short length scale")


def nontrivial(slot, case):
    x = np.asarray(case["lags"]) / case["period"] * 2
    return bool(np.any(np.abs(x - np.round(x)) > 1e-6))


def labels(slot, case):
    out = [slot["mode"], "automatic order" if slot["order"] is None else f"order {slot['order']}"]
    g = case["gamma"]
    out.append("gamma < 1" if g < 1 else "gamma < 32" if g < 32 else "gamma >= 32")
    if np.max(np.abs(case["lags"])) > 1e4 * case["period"]:
        out.append("lag > 1e4 periods")
    return out
