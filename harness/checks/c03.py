"""C03: predictions at arbitrary test times are the exact posterior."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import slots as slotgen
from checks import inst
from common import sut

RULE = (
    "A case is a kernel structure (slot), hyperparameters, sorted data times, noise, data "
    "and unsorted test times placed on, near, between and outside the data; non-trivial if "
    "the data are correlated (two distinct times closer than 30 time units) and non-zero."
)
ASSUMPTIONS = ["dense reference computed in 80-bit arithmetic from closed forms"]


def slots(tier, seed):
    out = []
    modes = ["scalar", "vector", "default"]
    for i, s in enumerate(inst.CORE):
        out.append(dict(struct=s, N=4 + i % 4, M=[6, 3, 9][i % 3], diag=modes[i % 3],
                        mode="jit", route=["after", "direct", "after", "condition"][i % 4],
                        examples=80))
    for i, s in enumerate([["SHO"], ["Exp"], ["+", ["Constant"], ["Matern52"]], ["Cosine"]]):
        out.append(dict(struct=s, N=[1, 2, 1, 3][i], M=[1, 1, 4, 1][i], diag=modes[i % 3],
                        mode="jit", route="after", examples=50))
    for i, s in enumerate([["Matern32"], ["+", ["Exp"], ["SHO"]], ["*", ["Cosine"], ["Exp"]]]):
        out.append(dict(struct=s, N=[5, 1, 4][i], M=5, diag=modes[i % 3], mode="eager",
                        route=["after", "condition", "direct"][i], examples=10))
    out += inst.long_slots(tier, 6, M=45, route="after")
    rnd = st.tuples(
        gen.structure(max_leaves=4),
        st.sampled_from([1, 2, 4, 7]),
        st.sampled_from([1, 3, 8]),
        st.sampled_from(modes),
        st.sampled_from(["after", "after", "direct", "condition"]),
    )
    for s, n, m, d, r in slotgen.draw(rnd, 18 if tier == "quick" else 150, seed):
        out.append(dict(struct=s, N=n, M=m, diag=d, mode="jit", route=r, examples=60))
    for s in out:
        s["cost"] = gen.dim(s["struct"])
        s["examples"] *= 1 if tier == "quick" else 4
    return out


def strategy(slot):
    return inst.data_case(slot)


def prepare(slot):
    def f(params, t, diag, y, tt):
        gp = inst.make_gp(slot, params, t, diag)
        if slot["route"] == "after":
            mu, var = gp.condition(y).gp.predict(tt, return_var=True)
        elif slot["route"] == "direct":
            mu, var = gp.predict(tt, y, return_var=True)
        else:
            c = gp.condition(y, tt).gp
            mu, var = c.loc, c.variance
        return {"mean": mu, "var": var}

    return jax.jit(f) if slot["mode"] == "jit" else f


def check(slot, case, run, ctx):
    spec, t, D = inst.reference(slot, case)
    tt = np.asarray(case["tt"])
    with sut("predict"):
        out = run(*inst.jit_args(slot, case))
        out = {k: np.asarray(v) for k, v in out.items()}
    kss = np.array([float(oracle.cov(spec, tt[i : i + 1], tt[i : i + 1])[0, 0]) for i in range(len(tt))])
    mu, var = D.predict(oracle.cov(spec, tt, t), kss)
    tm, tv = inst.tols(D, spec, t, tt, kss, mu)
    ctx.close("predicted mean", out["mean"], mu, tm)
    ctx.close("predicted variance", out["var"], var, tv)


def nontrivial(slot, case):
    return inst.correlated(case)


def labels(slot, case):
    t, tt = np.asarray(case["t"]), np.asarray(case["tt"])
    out = inst.common_labels(slot, case) + [f"route {slot['route']}"]
    if np.any(tt < t[0]):
        out.append("retrodiction")
    if np.any(tt > t[-1]):
        out.append("extrapolation")
    if np.any(np.isin(tt, t)):
        out.append("on the data")
    if np.any((tt > t[0]) & (tt < t[-1])):
        out.append("interpolation")
    if np.any(np.diff(tt) < 0):
        out.append("unsorted")
    return out
