"""C18: results do not depend on the choice of units or on the time origin."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import slots as slotgen
from checks import inst, integ
from common import EPS, sut

RULE = (
    "A case is a model (slot) with data and test times, a shift of the time origin, new units "
    "of time and of the observed quantity, a second data set and two weights; non-trivial if "
    "the data are correlated and non-zero and each transformation changes something."
)
ASSUMPTIONS = [
    "metamorphic: transformed problems are compared with the original one; the dense reference "
    "only sets the size of the rounding errors",
    "times lie on a binary lattice so that shifting them is exact",
]
MODES = ["scalar", "vector"]
TIME = {"Exp": {0: 1}, "Matern32": {0: 1}, "Matern52": {0: 1}, "Cosine": {0: 1}, "SHO": {0: -1},
        "ESS": {0: 1}, "Constant": {}, "s": {}}
SIGMA = {"Exp": 1, "Matern32": 1, "Matern52": 1, "Cosine": 1, "SHO": 2, "ESS": 2, "Constant": 0}


def slots(tier, seed):
    out = []
    S = ["seq", "par"]
    for i, s in enumerate(inst.CORE):
        out.append(dict(struct=s, N=3 + i % 5, M=3, diag=MODES[i % 2], solver=S[(i + seed) % 2],
                        examples=40))
    I = ["iseq", "ipar"]
    for i, s in enumerate(integ.CORE):
        lay = ["free", "lattice"][(i + seed) % 2]
        out.append(dict(struct=s, N=4 + i % 2, M=3, ninst=1 if lay == "free" else 2, layout=lay,
                        diag=MODES[i % 2], solver=I[(i + seed) % 3 % 2], examples=30))
    rnd = st.tuples(
        gen.structure(max_leaves=4, max_dim=12),
        st.sampled_from([2, 4, 7]),
        st.sampled_from(MODES),
        st.sampled_from(S),
    )
    for s, n, d, sv in slotgen.draw(rnd, 10 if tier == "quick" else 120, seed):
        out.append(dict(struct=s, N=n, M=3, diag=d, solver=sv, examples=40))
    if tier != "quick":
        rnd = st.tuples(
            gen.structure(kinds=gen.INTEG, max_leaves=3, max_dim=8, ops=("+", "s")),
            st.sampled_from([3, 6]),
            st.sampled_from([1, 2, 3]),
            st.sampled_from(MODES),
            st.sampled_from(I),
        )
        for s, n, k, d, sv in slotgen.draw(rnd, 40, seed):
            out.append(dict(struct=s, N=n, M=3, ninst=k, layout="free" if k == 1 else "lattice",
                            diag=d, solver=sv, examples=30))
    for s in out:
        s["mode"] = "jit"
        s["cost"] = gen.dim(s["struct"], s.get("ninst", 0)) + (25 if s["solver"] == "ipar" else 0)
        s["examples"] *= 1 if tier == "quick" else 4
    return out


def lattice(case, keys, step):
    for k in keys:
        case[k] = [float(np.round(x / step) * step) for x in case[k]]
    return case


def strategy(slot):
    integrated = "ninst" in slot
    huge = not integrated
    if integrated:
        base = integ.data_case(slot, huge=False)
    else:
        base = inst.data_case(slot, huge=huge, big=2)

    @st.composite
    def build(draw):
        case = draw(base)
        n = slot["N"]
        if integrated and slot["layout"] == "free":
            # edges (midpoint -+ half the exposure) on the lattice, in order
            step = 2.0**-22
            t, d = np.asarray(case["t"]), np.asarray(case["texp"])
            o = np.argsort(t, kind="stable")
            e = np.round(np.column_stack([t - d / 2, t + d / 2])[o].ravel() / step)
            e = np.maximum.accumulate(e) * step
            t[o] = (e[0::2] + e[1::2]) / 2
            d[o] = e[1::2] - e[0::2]
            case["t"], case["texp"] = t.tolist(), d.tolist()
            case["tt"] = lattice(case, ["tt"], step)["tt"]
        elif not integrated:
            lattice(case, ["t", "tt"], 2.0**-22)
        else:
            lattice(case, ["tt"], 2.0**-22)
        # origin: up to a Julian date, an integer number of time units
        case["shift"] = float(draw(st.one_of(
            st.integers(-1000, 1000),
            st.sampled_from([2**21, -(2**20), 2450000]),
        )))
        case["unit"] = draw(st.one_of(
            st.sampled_from([86400.0, 1 / 86400, 1e-3, 1e3, 0.001 / 365.25, 1e6, 1e-6]),
            gen.logu(-4, 4),
        ))
        case["gain"] = draw(st.one_of(
            st.sampled_from([1e3, 1e-3, 1e6, 1e-6]),
            gen.logu(-4, 4),
        ))
        case["y2"] = draw(gen.values(n))
        case["weights"] = [draw(st.integers(-20, 20)) / 8 for _ in range(2)]
        return case

    return build()


def prepare(slot):
    def f(params, X, diag, y, tt):
        gp = inst.make_gp(slot, params, X, diag)
        res = gp.condition(y)
        mu, var = res.gp.predict(tt, return_var=True)
        return {"llh": gp.log_probability(y), "cond": res.log_probability, "loc": res.gp.loc,
                "var": res.gp.variance, "mean": mu, "pvar": var}

    return jax.jit(f)


def retime(struct, params, c):
    out = []
    for n, p in zip(gen.nodes(struct), params):
        p = list(p)
        for j, e in TIME[n[0].lstrip("I") if n[0] in gen.INTEG else n[0]].items():
            p[j] = p[j] * c if e == 1 else p[j] / c
        out.append(p)
    return out


def amplify(struct, params, c):
    """Multiply the process by c: all terms of sums, one factor of products"""
    it = iter(params)

    def go(s, c):
        if s[0] == "+":
            return go(s[1], c) + go(s[2], c)
        if s[0] == "*":
            return go(s[1], c) + go(s[2], 1.0)
        if s[0] == "s":
            k = next(it)[0]
            return [[k * c * c]] + go(s[1], 1.0)
        p = list(next(it))
        j = SIGMA[s[0].lstrip("I") if s[0] in gen.INTEG else s[0]]
        p[j] *= c
        return [p]

    return go(struct, c)


def check(slot, case, run, ctx):
    integrated = "ninst" in slot
    ref = integ if integrated else inst

    def ask(what, **new):
        with sut(what):
            out = run(*ref.jit_args(slot, dict(case, **new)))
            return jax.tree_util.tree_map(np.asarray, out)

    par = slot["solver"] in ("par", "ipar")
    if integrated:
        spec, t, d, D = integ.reference(slot, case)
        c = 20000.0 if par else 300.0
        tl = integ.llh_tol(D, spec, case, c)
    else:
        spec, t, D = inst.reference(slot, case)
        c = 3000.0 if par else 300.0
        tl = inst.llh_tol(D, spec, t, c)
    y, y2 = np.asarray(case["y"]), np.asarray(case["y2"])
    n = len(t)
    base = ask("the original problem")

    def tols(amp=0.0):
        k0 = np.diag(D.K).astype(float)
        mu = np.append(base["loc"], amp)
        if integrated:
            return integ.tols(D, spec, case, k0, mu, c)
        return inst.tols(D, spec, t, np.asarray(case["tt"]), k0, mu, c)

    def same(what, out, mul=1.0, amp=0.0, extra=1.0):
        tm, tv = tols(amp)
        for k in ("loc", "mean"):
            ctx.close(f"{k} {what}", out[k] / mul, base[k], extra * tm)
        for k in ("var", "pvar"):
            ctx.close(f"{k} {what}", out[k] / mul**2, base[k], extra * tv)

    def same_llh(what, out, shift=0.0, extra=1.0):
        for k in ("llh", "cond"):
            ctx.close(f"{k} {what}", out[k] + shift, base[k],
                      extra * tl + 8 * EPS * abs(shift))

    # 1. the origin of time
    s = case["shift"]
    tt = np.asarray(case["tt"])
    out = ask("shifted times", t=(t + s).tolist(), tt=(tt + s).tolist())
    same_llh("with shifted times", out)
    same("with shifted times", out)

    # 2. the unit of time; lags round differently in other units
    u = case["unit"]
    new = dict(t=(t * u).tolist(), tt=(tt * u).tolist(),
               params=retime(slot["struct"], case["params"], u))
    if integrated:
        new["texp"] = (np.asarray(case["texp"]) * u).tolist()
    out = ask("another unit of time", **new)
    # and pivots are chosen differently
    x = 10 + rate(spec) * (float(np.max(np.abs(np.append(t, tt)))) + 1e-300)
    same_llh("in another unit of time", out, extra=x)
    same("in another unit of time", out, extra=x)

    # 3. the unit of the data
    g = case["gain"]
    new = dict(params=amplify(slot["struct"], case["params"], g),
               diag=(np.asarray(case["diag"]) * g * g).tolist(), y=(y * g).tolist())
    out = ask("another unit of the data", **new)
    same_llh("in another unit of the data", out, shift=n * np.log(g))
    same("in another unit of the data", out, mul=g)

    # 4. the sign of the data
    out = ask("negated data", y=(-y).tolist())
    same_llh("of negated data", out)
    same("of negated data", dict(out, loc=-out["loc"], mean=-out["mean"]))

    # 5. linearity
    a, b = case["weights"]
    two = ask("other data", y=y2.tolist())
    mix = ask("mixed data", y=(a * y + b * y2).tolist())
    amp = float(max(abs(a) * np.max(np.abs(y)), abs(b) * np.max(np.abs(y2)),
                    np.max(np.abs(two["loc"])), np.max(np.abs(mix["loc"]))))
    tm, tv = tols(amp)
    w = 1 + abs(a) + abs(b)
    for k in ("loc", "mean"):
        ctx.close(f"{k} of mixed data", mix[k], a * base[k] + b * two[k], w * tm)
    for k in ("var", "pvar"):
        ctx.close(f"{k} of other data", two[k], base[k], tv)
        ctx.close(f"{k} of mixed data", mix[k], base[k], tv)


def rate(spec):
    """The fastest rate: how strongly the covariance depends on the lag"""
    out = 0.0
    for p in inst.all_leaves(spec):
        k, q = p["k"].lstrip("I"), p["p"]
        if "omega" in q:
            out = max(out, q["omega"] * max(1.0, 1 / q["quality"]))
        elif "period" in q:
            out = max(out, 2 * np.pi * (q.get("order") or 16) / q["period"])
        elif k.startswith("Cos"):
            out = max(out, 2 * np.pi / q["scale"])
        elif "scale" in q:
            out = max(out, 3 / q["scale"])
    return out


def nontrivial(slot, case):
    ok = case["shift"] != 0 and case["unit"] != 1 and case["gain"] != 1
    ok = ok and all(case["weights"]) and np.any(case["y2"])
    if "ninst" in slot:
        return bool(ok and integ.nontrivial(slot, case))
    return bool(ok and inst.correlated(case))


def labels(slot, case):
    out = ["|shift| > 1e5"] if abs(case["shift"]) > 1e5 else []
    if not 1e-3 < case["unit"] < 1e3:
        out.append("unit of time changed by > 1000")
    if not 1e-3 < case["gain"] < 1e3:
        out.append("unit of the data changed by > 1000")
    if "ninst" in slot:
        return integ.labels(slot, case) + out
    return inst.common_labels(slot, case) + out
