"""C01: the marginal likelihood equals the dense Gaussian-process likelihood."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import slots as slotgen
from checks import inst
from common import sut

RULE = (
    "A case is a kernel structure (slot), hyperparameters, sorted times, noise and data; "
    "non-trivial if it has at least two distinct times closer than 30 time units "
    "(so that the data are correlated) and non-zero data."
)
ASSUMPTIONS = ["dense reference computed in 80-bit arithmetic from closed forms"]


def slots(tier, seed):
    k = 1 if tier == "quick" else 4
    out = []
    modes = ["scalar", "vector", "default"]
    for i, s in enumerate(inst.CORE):
        out.append(dict(struct=s, N=5 + i % 3, diag=modes[i % 3], mode="jit",
                        cond=i % 3 == 0, examples=60 * k))
    for i, s in enumerate(inst.CORE[:6]):
        out.append(dict(struct=s, N=[1, 2, 3][i % 3], diag=modes[(i + 1) % 3],
                        mode="jit", cond=i % 2 == 0, examples=40 * k))
    # eager, as in interactive use
    for i, s in enumerate([["SHO"], ["+", ["Exp"], ["SHO"]], ["*", ["Cosine"], ["Matern32"]]]):
        out.append(dict(struct=s, N=4 + i, diag=modes[i % 3], mode="eager", cond=True,
                        examples=12 * k))
    out += inst.long_slots(tier, 8, cond=True)
    rnd = st.tuples(
        gen.structure(max_leaves=4),
        st.sampled_from([1, 2, 4, 7, 8, 12]),
        st.sampled_from(modes),
        st.booleans(),
    )
    for s, n, d, c in slotgen.draw(rnd, 22 if tier == "quick" else 150, seed):
        out.append(dict(struct=s, N=n, diag=d, mode="jit", cond=c, examples=50 * k))
    for s in out:
        s["cost"] = gen.dim(s["struct"]) + (5 if s["cond"] else 0)
    return out


def strategy(slot):
    return inst.data_case(slot)


def prepare(slot):
    def f(params, t, diag, y):
        gp = inst.make_gp(slot, params, t, diag)
        out = {"llh": gp.log_probability(y)}
        if slot["cond"]:
            out["cond"] = gp.condition(y).log_probability
        return out

    return jax.jit(f) if slot["mode"] == "jit" else f


def check(slot, case, run, ctx):
    spec, t, D = inst.reference(slot, case)
    with sut("log_probability"):
        out = run(*inst.jit_args(slot, case))
        out = {k: np.asarray(v) for k, v in out.items()}
    tol = inst.llh_tol(D, spec, t)
    ctx.close("log_probability", out["llh"], D.llh, tol)
    if slot["cond"]:
        ctx.close("condition().log_probability", out["cond"], D.llh, tol)


def nontrivial(slot, case):
    return inst.correlated(case)


def labels(slot, case):
    return inst.common_labels(slot, case)
