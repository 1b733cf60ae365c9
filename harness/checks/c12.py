"""C12: the discretised dynamics agree with the stochastic differential equation."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import lds
import slots as slotgen
from checks import inst
from common import EPS, sut

RULE = (
    "A case is a kernel structure (slot), hyperparameters and three times in order; non-trivial "
    "if both lags are positive and one is between 1e-6 and 1e3 time units."
)
ASSUMPTIONS = [
    "exponentials and noise integrals of the reported drift and noise matrices, computed by "
    "series and doubling in 80-bit arithmetic",
]


def slots(tier, seed):
    out = []
    for i, s in enumerate(inst.CORE):
        out.append(dict(struct=s, mode="jit", coords=["plain", "tuple"][i % 2], examples=100))
    for i, s in enumerate([["Exp"], ["SHO"], ["Matern32"], ["Matern52"], ["Cosine"], ["Constant"],
                           ["ESS", 2], ["*", ["Exp"], ["s", ["SHO"]]]]):
        out.append(dict(struct=s, mode="eager", coords="plain", examples=6))
    for nu in (0.5, 1.5, 2.5, 3.5):
        out.append(dict(struct=["Exp"], matern=nu, mode="eager", coords="plain", examples=6))
    rnd = gen.structure(max_leaves=4, max_dim=14).filter(lambda s: not gen.is_leaf(s))
    for i, s in enumerate(slotgen.draw(rnd, 20 if tier == "quick" else 200, seed)):
        out.append(dict(struct=s, mode="jit", coords=["plain", "tuple"][i % 2], examples=60))
    for s in out:
        s["cost"] = gen.dim(s["struct"])
        s["examples"] *= 1 if tier == "quick" else 6
    return out


def strategy(slot):
    lag = st.one_of(
        gen.logu(-2, 1), gen.logu(-2, 1), gen.logu(-10, -2, step=4), gen.logu(1, 4, step=8),
        gen.logu(4, 15, step=4), st.just(0.0),
    )

    @st.composite
    def build(draw):
        e = draw(st.sampled_from([0, 0, -1, 1, -2, 2]))
        pars = draw(gen.params(slot["struct"], -1 + e, 1 + e))
        if "matern" in slot:
            pars[0][0] = draw(gen.logu(-0.5, 0.5))
            e = 0
        t = draw(st.one_of(st.just(0.0), st.integers(-40, 40).map(lambda i: i / 8)))
        a, b = draw(lag), draw(lag)
        if "matern" in slot:
            a, b = min(a, 1e3), min(b, 1e3)
        unit = 10.0**e
        return {"params": pars, "t": [t * unit, (t + a) * unit, (t + a + b) * unit]}

    return build()


def prepare(slot):
    import build
    import jax.numpy as jnp

    def f(params, t):
        if "matern" in slot:
            from smolgp.kernels.base import Matern

            k = Matern(slot["matern"], params[0][0], sigma=params[0][1])
        else:
            k = build.kernel(slot["struct"], params)
        x = [(ti, 0.0 * ti) for ti in t] if slot["coords"] == "tuple" else list(t)
        out = {
            "F": k.design_matrix(),
            "P": k.stationary_covariance(),
            "L": k.noise_effect_matrix(),
            "Qc": k.noise(),
            "dim": jnp.asarray(k.dimension),
        }
        for name, (i, j) in {"01": (0, 1), "12": (1, 2), "02": (0, 2), "00": (0, 0)}.items():
            out["A" + name] = k.transition_matrix(x[i], x[j])
            out["Q" + name] = k.process_noise(x[i], x[j])
        if "matern" in slot:
            out["V02"] = k.process_noise(x[0], x[2], use_van_loan=True)
        return out

    if slot["mode"] == "jit":
        g = jax.jit(f)
        return lambda p, t: g(build.asarray(p), tuple(jnp.asarray(x) for x in t))
    return lambda p, t: f(p, [float(x) for x in t])


def closeness(spec):
    """How close to critical damping: cancellations in the closed forms"""
    f = 1.0
    for p in inst.all_leaves(spec):
        if p["k"] == "SHO" and p["p"]["quality"] != 0.5:
            f *= min(1.0, abs(1 - 4 * p["p"]["quality"] ** 2))
    return f


def check(slot, case, run, ctx):
    with sut("model matrices"):
        out = run(case["params"], case["t"])
        out = {k: np.asarray(v) for k, v in out.items()}
    spec = gen.to_spec(slot["struct"], case["params"])
    t = np.asarray(case["t"])
    n = int(out["dim"])
    F, P = out["F"].astype(float), out["P"].astype(float)
    ctx.require(F.shape == (n, n) == P.shape, f"dimension {n}, F {F.shape}, Pinf {P.shape}")
    if "matern" in slot:
        ctx.require(n == round(slot["matern"] + 0.5), f"Matern dimension {n}")
    W = lds.mm(lds.ld(out["L"]), lds.ld(out["Qc"]), lds.ld(out["L"]).T)
    ctx.require(W.shape == (n, n), f"L Qc L' has shape {W.shape}")
    sd = np.sqrt(np.maximum(np.diag(P), 1e-300))
    S, U = lds.ld(sd)[:, None] / lds.ld(sd)[None, :], lds.ld(sd)[:, None] * lds.ld(sd)[None, :]
    Fn, Wn, Pn = lds.ld(F) / S, W / U, lds.ld(P) / U
    rate = float(np.max(np.abs(Fn))) + 1e-300

    # the stationary covariance solves the Lyapunov equation
    c = 1e6 if "matern" in slot else 1000.0
    lyap = Fn @ Pn + Pn @ Fn.T + Wn
    ctx.close("stationary covariance: F P + P F' + L Qc L'", lyap / rate, np.zeros((n, n)),
              c * EPS)
    ctx.close("stationary covariance is symmetric", Pn, Pn.T, c * EPS)
    w = np.linalg.eigvalsh(Pn.astype(float))
    ctx.require(w[0] > -1e-13, f"stationary covariance has eigenvalue {w[0]:.3g}")

    ph = inst.phase(spec, t)
    base = c * EPS * (1 + ph) / closeness(spec)
    fast = max([1.0 / p["p"]["scale"] if "scale" in p["p"] else p["p"].get("omega", 0.0)
                for p in inst.all_leaves(spec)])
    fast = max(fast, rate)
    coord = 2 * EPS * float(np.max(np.abs(t)))
    for name, (i, j) in {"01": (0, 1), "12": (1, 2), "02": (0, 2)}.items():
        dt = lds.ld(t[j]) - lds.ld(t[i])
        A, Q = lds.discretise(Fn, Wn, dt)
        tol = min(base + 4 * fast * coord, 4.0)
        ctx.close("transition", out["A" + name] / S, A.astype(float), tol)
        ctx.close("process noise", out["Q" + name] / U, Q.astype(float), 2 * tol)
    for name in ("01", "12", "02", "00"):
        Q = out["Q" + name] / U
        ctx.close("process noise is symmetric", Q, Q.T, 100 * EPS)
        w = np.linalg.eigvalsh((Q.astype(float) + Q.T.astype(float)) / 2)
        ctx.require(w[0] > -n * 10 * base, f"process noise has eigenvalue {w[0]:.3g}")
    ctx.close("transition over no lag", out["A00"], np.eye(n), 100 * c * EPS * np.asarray(S, float))
    ctx.close("process noise over no lag", out["Q00"] / U, np.zeros((n, n)), c * EPS)
    A01, A12, A02 = (lds.ld(out["A" + x]) / S for x in ("01", "12", "02"))
    Q01, Q12, Q02 = (lds.ld(out["Q" + x]) / U for x in ("01", "12", "02"))
    tol = min(4 * n * (base + 4 * fast * coord), 4.0)
    ctx.close("transitions compose", A12 @ A01, A02.astype(float), tol)
    ctx.close("process noise composes", A12 @ Q01 @ A12.T + Q12, Q02.astype(float), tol)
    if "V02" in out and rate * (t[2] - t[0]) < 20:
        ctx.close("process noise by Van Loan's method", out["V02"] / U, Q02.astype(float),
                  1e-9 * np.exp(2 * rate * (t[2] - t[0])) / 1e3 + 1e-9)


def nontrivial(slot, case):
    a, b = np.diff(case["t"])
    return bool(a > 0 and b > 0 and (1e-6 < a < 1e3 or 1e-6 < b < 1e3))


def labels(slot, case):
    out = inst.param_labels(slot["struct"], case["params"]) + [slot["mode"]]
    out.append("composite" if not gen.is_leaf(slot["struct"]) else
               "generic Matern" if "matern" in slot else "single kernel")
    d = np.diff(case["t"])
    if np.any(d == 0):
        out.append("zero lag")
    if np.any(d > 1e4):
        out.append("lag > 1e4")
    if np.any((d > 0) & (d < 1e-4)):
        out.append("lag < 1e-4")
    return out
