"""Shared pieces for the checks of instantaneous models."""

import numpy as np
from hypothesis import strategies as st

import gen
import oracle
from common import EPS

# every single kernel, the sums, products and scalings of each pair type, and
# deeper nestings that random structures reach only sometimes
CORE = [
    ["SHO"],
    ["Matern32"],
    ["Matern52"],
    ["Exp"],
    ["Cosine"],
    ["Constant"],
    ["ESS", 1],
    ["ESS", 3],
    ["ESS", 5],
    ["+", ["SHO"], ["Matern32"]],
    ["*", ["SHO"], ["Cosine"]],
    ["*", ["Matern52"], ["ESS", 2]],
    ["s", ["+", ["Exp"], ["Constant"]]],
    ["+", ["s", ["Matern52"]], ["*", ["Exp"], ["SHO"]]],
    ["*", ["s", ["Matern32"]], ["+", ["Exp"], ["SHO"]]],
    ["+", ["+", ["SHO"], ["SHO"]], ["s", ["s", ["Cosine"]]]],
    ["*", ["*", ["Exp"], ["Cosine"]], ["Constant"]],
]


# long series: far more steps than any transient of the recursions
LONG = [
    (["SHO"], 401),
    (["+", ["Matern32"], ["Exp"]], 73),
    (["*", ["Cosine"], ["Matern52"]], 71),
    (["Exp"], 130),
    (["ESS", 2], 64),
]


def long_slots(tier, examples, mode=("vector", "scalar"), few=None, **kw):
    out = []
    for i, (s, n) in enumerate(LONG[: few if tier == "quick" else None]):
        k = examples if n < 200 else max(examples // 3, 1)
        out.append(dict(struct=s, N=n, diag=mode[i % 2], mode="jit", examples=k, **kw))
    return out


def data_case(slot, huge=True, lo=-5, big=4):
    """Parameters, sorted times, noise, data (and test times if the slot has any)"""
    struct, n, m = slot["struct"], slot["N"], slot.get("M")

    @st.composite
    def build(draw):
        unit = 10.0 ** draw(st.sampled_from([0, 0, 0, -1, 1]))
        case = {
            "params": draw(gen.params(struct)),
            "t": draw(gen.sorted_times(n, unit, huge=huge, big=big)),
            "diag": draw(gen.noise(slot["diag"], n, lo=lo)),
            "y": draw(gen.values(n, 10.0 ** draw(st.sampled_from([0, 0, -1, 1])))),
        }
        if m is not None:
            case["tt"] = draw(gen.test_times(case["t"], m, unit, huge))
        return case

    return build()


def diag_of(case):
    return gen.default_diag() if case["diag"] is None else np.asarray(case["diag"])


def reference(slot, case):
    spec = gen.to_spec(slot["struct"], case["params"])
    t = np.asarray(case["t"])
    return spec, t, oracle.Dense(oracle.cov(spec, t, t), diag_of(case), case["y"])


def phase(spec, *times):
    """The largest argument of an undamped oscillation (its rounding is relative)"""
    span = max(float(np.max(t)) for t in times) - min(float(np.min(t)) for t in times)
    out = 0.0
    for p in all_leaves(spec):
        if p["k"] in ("Cosine", "ICosine"):
            out = max(out, 2 * np.pi * span / p["p"]["scale"])
        elif p["k"] == "ESS":
            order = p["p"].get("order") or 16
            out = max(out, 2 * np.pi * order * span / p["p"]["period"])
        elif p["k"] in ("SHO", "ISHO"):
            q, w = p["p"]["quality"], p["p"]["omega"]
            out = max(out, min(w * span, 2 * q))
    return out


def all_leaves(spec):
    if spec["k"] in ("Sum", "Product"):
        return all_leaves(spec["a"]) + all_leaves(spec["b"])
    if spec["k"] == "Scale":
        return all_leaves(spec["a"])
    return [spec]


def rounding(D, spec, *times):
    """Relative effect of rounding errors on the results"""
    return EPS * D.cond() * (1 + phase(spec, *times))


def llh_tol(D, spec, t, c=200.0):
    return c * rounding(D, spec, t) * D.llh_terms()


def tols(D, spec, t, tt, kss, mu, c=200.0):
    """Tolerances of a mean and a variance with prior variances kss"""
    v = max(float(np.max(np.diag(D.K))), float(np.max(kss, initial=0.0)))
    f = c * rounding(D, spec, t, tt)
    amp = max(float(np.max(np.abs(D.y), initial=0)), float(np.max(np.abs(mu), initial=0)))
    return f * (amp + np.sqrt(v)) + 1e-300, f * v + 1e-300


def gap_labels(t):
    d = np.diff(np.asarray(t))
    out = []
    if np.any(d == 0):
        out.append("repeated times")
    if len(d) and np.max(d) > 100:
        out.append("gap > 100")
    if np.any((d > 0) & (d < 1e-3)):
        out.append("gap < 1e-3")
    return out


def param_labels(struct, params):
    out = []
    for n, p in zip(gen.nodes(struct), params):
        if n[0] in ("SHO", "ISHO"):
            q = p[1]
            out.append("critical" if q == 0.5 else "underdamped" if q > 0.5 else "overdamped")
    return out


def jit_args(slot, case):
    import build
    import jax.numpy as jnp

    p = build.asarray(case["params"]) if slot["mode"] == "jit" else case["params"]
    d = None if case["diag"] is None else jnp.asarray(case["diag"], float)
    out = [p, jnp.asarray(case["t"], float), d, jnp.asarray(case["y"], float)]
    if "tt" in case:
        out.append(jnp.asarray(case["tt"], float))
    return tuple(out)


def make_gp(slot, params, X, diag, wrap=None, **kw):
    import build

    kern = build.kernel(
        slot["struct"], params, ninst=slot.get("ninst", 1), names=slot.get("names")
    )
    if wrap is not None:
        kern = wrap(kern)
    if diag is not None:
        kw["diag"] = diag
    return build.GP(kern, X, solver=build.SOLVERS[slot.get("solver")], **kw)


def correlated(case, reach=30):
    d = np.diff(np.sort(np.asarray(case["t"])))
    return bool(np.any((d > 0) & (d < reach)) and np.any(case["y"]))


def common_labels(slot, case):
    return (
        gap_labels(case["t"])
        + param_labels(slot["struct"], case["params"])
        + [f"diag {slot['diag']}", f"mode {slot['mode']}"]
    )
