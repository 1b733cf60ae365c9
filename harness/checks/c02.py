"""C02: the conditioned mean and variance at the data are the exact posterior."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import slots as slotgen
from checks import inst
from common import sut

RULE = (
    "A case is a kernel structure (slot), hyperparameters, sorted times, noise and data; "
    "non-trivial if at least two distinct times are closer than 30 time units and the "
    "data are non-zero."
)
ASSUMPTIONS = ["dense reference computed in 80-bit arithmetic from closed forms"]


def slots(tier, seed):
    out = []
    modes = ["scalar", "vector", "default"]
    for i, s in enumerate(inst.CORE):
        out.append(dict(struct=s, N=4 + i % 4, diag=modes[(i + 2) % 3], mode="jit", examples=80))
    for i, s in enumerate([["SHO"], ["Exp"], ["+", ["Constant"], ["Matern52"]], ["Cosine"]]):
        out.append(dict(struct=s, N=[1, 2, 1, 3][i], diag=modes[i % 3], mode="jit", examples=40))
    for i, s in enumerate([["Matern32"], ["+", ["Exp"], ["SHO"]], ["*", ["Cosine"], ["Exp"]]]):
        out.append(dict(struct=s, N=[5, 1, 4][i], diag=modes[i % 3], mode="eager", examples=12))
    out += inst.long_slots(tier, 8)
    rnd = st.tuples(
        gen.structure(max_leaves=4), st.sampled_from([1, 2, 4, 7, 10]), st.sampled_from(modes)
    )
    for s, n, d in slotgen.draw(rnd, 22 if tier == "quick" else 150, seed):
        out.append(dict(struct=s, N=n, diag=d, mode="jit", examples=60))
    for s in out:
        s["cost"] = gen.dim(s["struct"])
        s["examples"] *= 1 if tier == "quick" else 4
    return out


def strategy(slot):
    return inst.data_case(slot)


def prepare(slot):
    def f(params, t, diag, y):
        gp = inst.make_gp(slot, params, t, diag).condition(y).gp
        return {"mean": gp.loc, "var": gp.variance}

    return jax.jit(f) if slot["mode"] == "jit" else f


def check(slot, case, run, ctx):
    spec, t, D = inst.reference(slot, case)
    with sut("condition"):
        out = run(*inst.jit_args(slot, case))
        out = {k: np.asarray(v) for k, v in out.items()}
    kss = np.diag(D.K).astype(float)
    mu, var = D.predict(D.K, kss)
    tm, tv = inst.tols(D, spec, t, t, kss, mu)
    ctx.close("mean at the data", out["mean"], mu, tm)
    ctx.close("variance at the data", out["var"], var, tv)


def nontrivial(slot, case):
    return inst.correlated(case)


def labels(slot, case):
    return inst.common_labels(slot, case)
