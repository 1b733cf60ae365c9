"""C21: accepted input gives a finite or -inf likelihood; bad input is refused."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import slots as slotgen
from checks import inst, integ
from common import Violation, sut

RULE = (
    "A case is a model (slot) with extreme but valid hyperparameters, times, noise and data; or "
    "one whose likelihood does not exist (non-finite data, noise that is too negative); or an "
    "integer-valued one given with and without integer types; or a use that the interface "
    "declares invalid; non-trivial unless the data are all zero (always for invalid uses)."
)
ASSUMPTIONS = [
    "which uses are invalid: those that the interface checks and reports or documents as such",
    "negative noise makes the likelihood undefined if the 80-bit covariance of the data has a "
    "clearly negative leading minor",
]
MODES = ["scalar", "vector", "default"]
INST = [
    ["SHO"], ["Matern32"], ["Matern52"], ["Exp"], ["Cosine"], ["ESS", 3], ["Constant"],
    ["+", ["SHO"], ["Matern32"]], ["*", ["SHO"], ["Cosine"]], ["*", ["Exp"], ["Matern52"]],
    ["s", ["+", ["Exp"], ["ESS", 2]]],
]
INTEG = [["ISHO"], ["IExp"], ["IMatern32"], ["IMatern52"], ["+", ["IExp"], ["ISHO"]], ["ICosine"]]
TYPED = ["t", "y", "diag", "params", "texp"]


def slots(tier, seed):
    out = []
    big = tier != "quick"
    S, I = ["seq", "par"], ["iseq", "ipar"]
    for i, s in enumerate(INST):
        for sv in S if big else [S[(i + seed) % 2]]:
            out.append(dict(kind="extreme", struct=s, N=[6, 1, 9, 4][i % 4], M=4,
                            diag=MODES[i % 3], solver=sv, mode="jit"))
    for i, s in enumerate(INTEG):
        for sv in I if big else [I[(i + seed) % 2]]:
            out.append(dict(kind="extreme", struct=s, N=[5, 3, 4][i % 3], M=3, ninst=1 + i % 2,
                            layout=["free", "lattice"][i % 2], diag=MODES[i % 3], solver=sv,
                            mode="jit"))
    for i, s in enumerate(INST[:10:2]):
        out.append(dict(kind="broken", struct=s, N=4, diag=MODES[i % 2], solver=S[(i + seed) % 2],
                        mode="jit"))
    for i, s in enumerate(INTEG[:3]):
        out.append(dict(kind="broken", struct=s, N=4, ninst=1, layout="free", diag=MODES[i % 2],
                        solver=I[(i + seed) % 2], mode="jit"))
    for i, s in enumerate([["SHO"], ["+", ["Exp"], ["Cosine"]], ["*", ["Matern32"], ["ESS", 2]],
                           ["s", ["Matern52"]]]):
        out.append(dict(kind="types", struct=s, N=4, M=3, diag=MODES[i % 2], solver=S[(i + seed) % 2],
                        mode="jit", ints=[TYPED[:1], TYPED[:4], TYPED[1:4], TYPED[3:4]][i]))
    for i, s in enumerate([["ISHO"], ["+", ["IExp"], ["IMatern32"]]]):
        out.append(dict(kind="types", struct=s, N=4, M=3, ninst=1 + i, layout="lattice",
                        diag=MODES[i % 2], solver=I[(i + seed) % 2], mode="jit",
                        ints=[TYPED, ["t", "texp"]][i]))
    for i, s in enumerate([["SHO"], ["+", ["Exp"], ["Matern52"]], ["Cosine"]]):
        out.append(dict(kind="types", struct=s, N=3, M=2, diag=MODES[i % 2], solver=S[i % 2],
                        mode="eager", ints=[TYPED[:4], ["t"], TYPED[:4]][i]))
    out.append(dict(kind="types", struct=["ISHO"], N=3, M=2, ninst=1, layout="lattice",
                    diag="scalar", solver="iseq", mode="eager", ints=TYPED))
    out.append(dict(kind="refused", struct=["SHO"], N=3, mode="eager"))
    out.append(dict(kind="refused", struct=["ISHO"], N=3, mode="eager", ninst=1))
    if big:
        for kinds, sol, ops in ((gen.INST, S, ("+", "*", "s")), (gen.INTEG, I, ("+", "s"))):
            rnd = st.tuples(
                gen.structure(kinds=kinds, max_leaves=3, max_dim=10, ops=ops),
                st.sampled_from([1, 3, 8]), st.sampled_from(MODES), st.sampled_from(sol))
            for s, n, d, sv in slotgen.draw(rnd, 30, seed):
                sl = dict(kind="extreme", struct=s, N=n, M=4, diag=d, solver=sv, mode="jit")
                if sol is I:
                    sl.update(ninst=1, layout="free")
                out.append(sl)
    for s in out:
        s["examples"] = {"extreme": 60, "broken": 25, "types": 20, "refused": 6}[s["kind"]]
        if s["mode"] == "eager" and s["kind"] != "refused":
            s["examples"] = 3
        s["examples"] *= 1 if not big else 6
        s["cost"] = gen.dim(s["struct"], s.get("ninst", 0)) + (25 if "ninst" in s else 0)
        s["cost"] += 60 if s["mode"] == "eager" else 0
    return out


def strategy(slot):
    return globals()["case_" + slot["kind"]](slot)


def scaled_params(struct, params, unit, amp):
    """Hyperparameters in other units: of time, and (for additive components) of the data"""
    out = []
    it = iter(params)

    def go(s, a):
        if s[0] == "s":
            out.append([next(it)[0] * a * a])
            return go(s[1], 1.0)
        if s[0] == "+":
            go(s[1], a)
            return go(s[2], a)
        if s[0] == "*":
            go(s[1], a)
            return go(s[2], 1.0)
        p = list(next(it))
        k = s[0].lstrip("I")
        if k == "SHO":
            p = [p[0] / unit, p[1], p[2] * a]
        elif k == "ESS":
            p = [p[0] * unit, p[1], p[2] * a]
        elif k == "Constant":
            p = [p[0] * a]
        else:
            p = [p[0] * unit, p[1] * a]
        out.append(p)

    go(struct, amp)
    return out


@st.composite
def case_extreme(draw, slot):
    if "ninst" in slot:
        case = draw(integ.data_case(slot, huge="ICosine" not in gen.show(slot["struct"])))
    else:
        case = draw(inst.data_case(slot, lo=-6))
    unit = draw(gen.logu(-8, 8, step=1))
    amp = draw(gen.logu(-8, 8, step=1))
    for k in ("t", "tt", "texp"):
        if k in case:
            case[k] = [x * unit for x in case[k]]
    big = draw(gen.logu(0, 6, step=1))
    case["y"] = [x * amp * big for x in case["y"]]
    if case["diag"] is not None:
        case["diag"] = (np.asarray(case["diag"], float) * amp * amp).tolist()
    elif amp > 1:  # the default noise is for data of order one
        amp = 1.0
    case["params"] = scaled_params(slot["struct"], case["params"], unit, amp)
    return case


@st.composite
def case_broken(draw, slot):
    if "ninst" in slot:
        case = draw(integ.data_case(slot, huge=False))
    else:
        case = draw(inst.data_case(slot, huge=False))
    case["how"] = draw(st.sampled_from(["y", "y", "diag", "negative", "huge", "params"]))
    i = draw(st.integers(0, slot["N"] - 1))
    bad = draw(st.sampled_from(["nan", "inf", "-inf"]))
    if case["how"] == "y":
        case["bad"] = [i, bad]
    elif case["how"] == "diag":
        case["bad"] = [i, "nan"]
    elif case["how"] == "params":
        j = draw(st.integers(0, len(case["params"]) - 1))
        k = draw(st.integers(0, len(case["params"][j]) - 1))
        case["bad"] = [[j, k], "nan"]
    elif case["how"] == "negative":
        case["bad"] = [i, draw(gen.logu(0.5, 3, step=4))]
    else:
        case["bad"] = [i, draw(gen.logu(100, 300, step=1))]
    return case


@st.composite
def case_types(draw, slot):
    n, m = slot["N"], slot["M"]
    t, case = draw(st.integers(-5, 5)), {}
    ts = []
    for _ in range(n):
        ts.append(t)
        t += draw(st.integers(1, 4)) * (2 if "ninst" in slot else 1)
    case["t"] = ts
    case["y"] = draw(st.lists(st.integers(-5, 5), min_size=n, max_size=n))
    d = st.integers(1, 3)
    case["diag"] = draw(d if slot["diag"] == "scalar" else st.lists(d, min_size=n, max_size=n))
    case["tt"] = draw(st.lists(st.integers(-8, 20), min_size=m, max_size=m))
    if "ninst" in slot:
        case["texp"] = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
        case["instid"] = [draw(st.integers(0, slot["ninst"] - 1)) for _ in range(n)]
    case["params"] = [[draw(st.integers(1, 4)) for _ in p]
                      for p in draw(gen.params(slot["struct"]))]
    for s, p in zip(gen.nodes(slot["struct"]), case["params"]):
        if s[0] in ("Cosine", "ICosine"):
            p[0] = draw(st.sampled_from([3, 5, 7]))
    case["container"] = draw(st.sampled_from(["numpy", "jax"]))
    return case


INVALID = {
    "SHO": ["add number", "add to number", "add foreign kernel", "multiply by array",
            "multiply by text", "multiply text", "no data for prediction", "no data at all",
            "component mean before data", "all component means before data",
            "test points of other dimension", "test points of other structure",
            "two-dimensional mean", "foreign kernel"],
    "ISHO": ["only times", "tuple of times", "add number", "multiply by array",
             "no data for prediction", "component mean before data",
             "test points of other dimension", "only test times", "add instantaneous times",
             "product only times", "scaled only times"],
}


@st.composite
def case_refused(draw, slot):
    return {
        "params": draw(gen.params(slot["struct"])),
        "t": draw(gen.sorted_times(slot["N"], 1.0, huge=False, zero=False)),
        "y": draw(gen.values(slot["N"])),
        "value": draw(st.integers(1, 9)) / 2,
    }


# ---------------------------------------------------------------------------


def prepare(slot):
    if slot["kind"] == "refused":
        return lambda case, what: refused(slot, case, what)

    def f(params, X, diag, y, tt=None):
        gp = inst.make_gp(slot, params, X, diag)
        res = gp.condition(y)
        out = {"llh": gp.log_probability(y), "cond": res.log_probability}
        if slot["kind"] != "broken":
            out["data"] = (res.gp.loc, res.gp.variance)
            out["test"] = res.gp.predict(tt, return_var=True)
        return out

    return jax.jit(f) if slot["mode"] == "jit" else f


def check(slot, case, run, ctx):
    globals()["check_" + slot["kind"]](slot, case, run, ctx)


def check_extreme(slot, case, run, ctx):
    ref = integ if "ninst" in slot else inst
    with sut("model"):
        out = run(*ref.jit_args(slot, case))
        out = jax.tree_util.tree_map(np.asarray, out)
    spec = gen.to_spec(slot["struct"], case["params"])
    prior = float(oracle.cov(spec, [0.0], [0.0])[0, 0])
    ctx.require(np.isfinite(out["llh"]), f"log probability is {out['llh']}")
    ctx.require(np.isfinite(out["cond"]), f"log probability of conditioning is {out['cond']}")
    slack = 1e-3 if "ninst" in slot else 1e-6
    slack += 1e-9 * prior / float(np.min(inst.diag_of(case)))
    for where in ("data", "test"):
        mu, var = out[where]
        for what, x in (("mean", mu), ("variance", var)):
            ctx.require(np.all(np.isfinite(x)), f"{what} at the {where} points is {x}")
        ctx.close(f"negative part of the variance at the {where} points",
                  np.minimum(var, 0.0), 0 * var, slack * prior)
        ctx.close(f"variance above the prior at the {where} points",
                  np.maximum(var - prior, 0.0), 0 * var, slack * prior)


def check_broken(slot, case, run, ctx):
    import jax.numpy as jnp

    ref = integ if "ninst" in slot else inst
    args = list(ref.jit_args(slot, case))
    i, bad = case["bad"]
    how = case["how"]
    diag = np.array(np.broadcast_to(inst.diag_of(case), (slot["N"],)), float)
    y = np.array(case["y"], float)
    want = None
    if how == "params":
        args[0][i[0]][i[1]] = jnp.asarray(np.nan)
        want = -np.inf
    elif how in ("y", "huge"):
        y[i] = float(bad)
        args[3] = jnp.asarray(y)
        if how == "y":
            want = -np.inf
    else:
        if how == "diag":
            diag[i] = float(bad)
            want = -np.inf
        else:
            spec = gen.to_spec(slot["struct"], case["params"])
            diag[i] = -bad * float(oracle.cov(spec, [0.0], [0.0])[0, 0])
            # a diagonal element of the covariance is then clearly negative
            want = -np.inf
        args[2] = jnp.asarray(diag if np.ndim(case["diag"]) else diag[i])
    with sut("model"):
        out = run(*args)
        out = jax.tree_util.tree_map(np.asarray, out)
    for name in ("llh", "cond"):
        v = float(out[name])
        ctx.require(not np.isnan(v), f"{name} is not a number for {how} {bad}")
        ctx.require(v < np.inf, f"{name} is plus infinity for {how} {bad}")
        if want is not None:
            ctx.require(v == want, f"{name} is {v} for {how} {bad}, expected {want}")


def convert(slot, case, typed):
    import jax.numpy as jnp

    eager = slot["mode"] == "eager"
    arr = np.asarray if eager and case["container"] == "numpy" else jnp.asarray

    def conv(key, x):
        kind = int if key in typed else float
        if eager and (np.ndim(x) == 0 or key == "params"):
            return jax.tree_util.tree_map(kind, x)
        if key == "params":
            return jax.tree_util.tree_map(lambda v: arr(kind(v)), x)
        return arr(np.asarray(x, kind))

    X = conv("t", case["t"])
    if "ninst" in slot:
        X = (X, conv("texp", case["texp"]), arr(np.asarray(case["instid"], int)))
    return (conv("params", case["params"]), X, conv("diag", case["diag"]), conv("y", case["y"]),
            conv("t", case["tt"]))


def check_types(slot, case, run, ctx):
    with sut("model with integers"):
        a = run(*convert(slot, case, slot["ints"]))
        a = jax.tree_util.tree_map(np.asarray, a)
    with sut("model with floating-point numbers"):
        b = run(*convert(slot, case, []))
        b = jax.tree_util.tree_map(np.asarray, b)
    tol = 1e-6 if "ninst" in slot else 1e-10
    scale = 1 + abs(float(b["llh"])) + slot["N"]
    ctx.close("log probability", a["llh"], b["llh"], 1e-10 * scale)
    ctx.close("log probability of conditioning", a["cond"], b["cond"], 1e-10 * scale)
    for where in ("data", "test"):
        for what, x, y in zip(("mean", "variance"), a[where], b[where]):
            s = 1 + float(np.max(np.abs(y)))
            ctx.close(f"{what} at the {where} points", x, y, tol * s)


def refused(slot, case, what):
    """Attempt an invalid use: the error, or what was answered"""
    import build
    import jax.numpy as jnp
    import tinygp

    val = case["value"]
    kern = build.kernel(slot["struct"], case["params"])
    t = jnp.asarray(case["t"], float)
    y = jnp.asarray(case["y"], float)
    X = (t, 0 * t + 1e-3, jnp.zeros(len(t), int)) if "ninst" in slot else t
    foreign = tinygp.kernels.ExpSquared(val)
    gp = build.GP(kern, X, diag=1.0)
    use = {
        "add number": lambda: kern + val,
        "add to number": lambda: val + kern,
        "add foreign kernel": lambda: kern + foreign,
        "multiply by array": lambda: kern * jnp.full(2, val),
        "multiply by text": lambda: kern * "2",
        "multiply text": lambda: "2" * kern,
        "no data for prediction": lambda: gp.predict(t),
        "no data at all": lambda: gp.predict(),
        "component mean before data": lambda: gp.get_component_mean(kern.name),
        "all component means before data": lambda: gp.get_all_component_means(),
        "test points of other dimension": lambda: gp.condition(
            y, jax.tree_util.tree_map(lambda x: x[:, None] * jnp.ones(2), X)),
        "test points of other structure": lambda: gp.condition(y, (t, t)),
        "only test times": lambda: gp.condition(y, t),
        "two-dimensional mean": lambda: build.GP(
            kern, X, diag=1.0, mean=lambda x: jnp.full(2, val)),
        "foreign kernel": lambda: build.GP(foreign, X, diag=1.0),
        "only times": lambda: build.GP(kern, t, diag=1.0),
        "tuple of times": lambda: build.GP(kern, (t,), diag=1.0),
        "add instantaneous times": lambda: build.GP(kern + build.leaf("Exp", [1.0, val]), t, diag=1.0),
        "product only times": lambda: build.GP(kern * build.leaf("Exp", [1.0, val]), t, diag=1.0),
        "scaled only times": lambda: build.GP(val * kern, t, diag=1.0),
    }[what]
    try:
        got = use()
    except Exception as e:  # noqa: BLE001
        return e, None
    return None, got


def check_refused(slot, case, run, ctx):
    for what in INVALID[slot["struct"][0]]:
        err, got = run(case, what)
        if err is None:
            raise Violation(f"{what}: answered with {type(got).__name__} instead of an error")
        ctx.note(f"refused {what}: {type(err).__name__}")


def nontrivial(slot, case):
    return slot["kind"] == "refused" or bool(np.any(case["y"]))


def labels(slot, case):
    out = [slot["kind"]]
    if slot["kind"] == "broken":
        out.append(f"broken {case['how']}")
    if slot["kind"] != "refused":
        out.append(f"solver:{slot['solver']}")
    return out
