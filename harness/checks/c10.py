"""C10: kernel functions equal their documented closed forms."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
from checks import inst
from common import EPS, sut

RULE = (
    "A case is one kernel (slot) with hyperparameters and two sets of coordinates; non-trivial "
    "if some lag lies between 1e-6 and 1e3 of the fastest time scale."
)
ASSUMPTIONS = ["closed forms evaluated in 80-bit arithmetic"]

LEAVES = [["Exp"], ["Matern32"], ["Matern52"], ["Cosine"], ["Constant"], ["SHO"],
          ["ESS", 1], ["ESS", 2], ["ESS", 5], ["ESS", 12]]
SHO_CRIT = st.tuples(
    st.sampled_from([-1, 1]), gen.logu(-4.5, -1, step=4)
).map(lambda x: 0.5 * (1 + x[0] * x[1]))


def slots(tier, seed):
    out = []
    for s in LEAVES:
        k = 3 if s[0] == "SHO" else 1
        for mode in ("jit", "eager"):
            ex = 250 if mode == "jit" else 6
            out.append(dict(struct=s, N=6, M=4, mode=mode, crit=False, examples=ex * k))
        if s[0] == "SHO":
            out.append(dict(struct=s, N=6, M=4, mode="jit", crit=True, examples=400))
    for s in out:
        s["cost"] = 1
        s["examples"] *= 1 if tier == "quick" else 10
    return out


@st.composite
def lags(draw, n, unit):
    x, out = 0.0, []
    for _ in range(n):
        out.append(x * unit)
        x = draw(st.integers(-20, 20)) * draw(st.one_of(
            gen.logu(-3, 2, step=8), gen.logu(-8, 6, step=2)))
    return out


def strategy(slot):
    @st.composite
    def build(draw):
        unit = 10.0 ** draw(st.integers(-2, 2))
        lo, hi = -1 + np.log10(unit), 1 + np.log10(unit)
        p = list(draw(gen.node_params(slot["struct"], lo, hi)))
        if slot["crit"]:
            p[1] = draw(SHO_CRIT)
        if slot["struct"][0] == "ESS":
            p[1] = draw(gen.logu(-1.5, 1.6))
        p[-1] = draw(gen.logu(-3, 3))
        x1 = draw(lags(slot["N"], unit))
        x2 = draw(st.permutations(x1))[: slot["M"] // 2] + draw(lags(slot["M"] // 2, unit))
        return {"params": [p], "x1": x1, "x2": x2}

    return build()


def prepare(slot):
    import build

    def f(params, x1, x2):
        k = build.kernel(slot["struct"], params)
        return {
            "K": k(x1, x2),
            "KT": k(x2, x1),
            "sq": k(x1, x1),
            "diag": k(x1),
            "scalar": k.evaluate(x1[-1], x2[-1]),
            "origin": k.evaluate(x1[-1], x1[-1]),
            "flip": k.evaluate(x2[-1], x1[-1]),
        }

    return jax.jit(f) if slot["mode"] == "jit" else f


def check(slot, case, run, ctx):
    import build
    import jax.numpy as jnp

    spec = gen.to_spec(slot["struct"], case["params"])
    x1, x2 = np.asarray(case["x1"]), np.asarray(case["x2"])
    p = build.asarray(case["params"]) if slot["mode"] == "jit" else case["params"]
    with sut("kernel evaluation"):
        out = run(p, jnp.asarray(x1), jnp.asarray(x2))
        out = {k: np.asarray(v) for k, v in out.items()}
    v = float(oracle.cov(spec, [0.0], [0.0])[0, 0])
    f = 1.0
    if slot["struct"][0] == "SHO":
        q = case["params"][0][1]
        f = min(1.0, np.sqrt(abs(1 - 4 * q * q)) or 1.0)
    # rounding of the coordinates themselves: eps * |x| * rate
    rate = max((float(oracle.leaf_rate(spec["k"], spec["p"]))
                if spec["k"] not in ("Constant", "ESS") else 0.0),
               inst.phase(spec, np.array([0.0, 1.0])))
    big = max(np.max(np.abs(x1)), np.max(np.abs(x2)))
    tol = v * EPS * 200 / f * (1 + inst.phase(spec, x1, x2)) + 4 * v * EPS * big * rate / f
    tol = min(tol, 1.5 * v)
    ctx.close("k(X1, X2)", out["K"], oracle.cov(spec, x1, x2).astype(float), tol)
    ctx.close("k(X2, X1)", out["KT"].T, out["K"], tol)
    ctx.close("k(X)", out["diag"], np.full(len(x1), v), 100 * EPS * v)
    ctx.close("k.evaluate", out["scalar"], out["K"][-1, -1], tol)
    ctx.close("k.evaluate reversed", out["flip"], out["scalar"], tol)
    ctx.close("k.evaluate at zero lag", out["origin"], v, 100 * EPS * v)
    ctx.require(np.all(np.abs(out["K"]) <= v * (1 + 1e-10)), "|k| exceeds its value at zero lag")
    w = np.linalg.eigvalsh((out["sq"] + out["sq"].T) / 2)
    ctx.require(w[0] >= -len(x1) * (tol + 1e-13 * v), f"covariance matrix has eigenvalue {w[0]:.3g}")


def nontrivial(slot, case):
    spec = gen.to_spec(slot["struct"], case["params"])
    x = np.abs(np.subtract.outer(case["x1"], case["x2"]))
    sc = case["params"][0][0] if spec["k"] != "Constant" else 1.0
    sc = 1 / sc if spec["k"] == "SHO" else sc
    return bool(np.any((x / sc > 1e-6) & (x / sc < 1e3)))


def labels(slot, case):
    out = inst.param_labels(slot["struct"], case["params"]) + [slot["struct"][0], slot["mode"]]
    if slot["crit"]:
        out.append("near-critical")
    x = np.abs(np.subtract.outer(case["x1"], case["x2"]))
    if np.max(x) > 1e4:
        out.append("lag > 1e4")
    return out
