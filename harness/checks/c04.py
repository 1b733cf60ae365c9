"""C04: the integrated likelihood equals the exactly averaged dense likelihood."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import slots as slotgen
from checks import inst, integ
from common import sut

RULE = integ.RULE
ASSUMPTIONS = ["window averages of the covariances computed in closed form in 80-bit arithmetic"]
MODES = ["scalar", "vector", "default"]


def slots(tier, seed):
    out = []
    for i, s in enumerate(integ.CORE):
        out.append(dict(struct=s, N=5 + i % 3, ninst=1, layout="free", diag=MODES[i % 3],
                        mode="jit", cond=False, solver=None, examples=80))
        out.append(dict(struct=s, N=6 + i % 3, ninst=2 + i % 2, layout="lattice",
                        diag=MODES[(i + 1) % 3], mode="jit", cond=i % 3 == 0, solver=None,
                        examples=80))
    for i, s in enumerate([["ISHO"], ["IExp"], ["+", ["IExp"], ["IMatern32"]]]):
        out.append(dict(struct=s, N=[1, 2, 1][i], ninst=1, layout="free", diag=MODES[i],
                        mode="jit", cond=True, solver=None, examples=40))
        out.append(dict(struct=s, N=5, ninst=2, layout="lattice", diag=MODES[i],
                        mode="eager", cond=False, solver=None, examples=10))
    out += integ.long_slots(tier, 8, cond=False)
    rnd = st.tuples(
        gen.structure(kinds=gen.INTEG, max_leaves=3, max_dim=8, ops=("+", "s")),
        st.sampled_from([3, 6, 9]),
        st.sampled_from([1, 2, 2, 3]),
        st.sampled_from(MODES),
        st.booleans(),
    )
    for s, n, k, d, c in slotgen.draw(rnd, 12 if tier == "quick" else 120, seed):
        out.append(dict(struct=s, N=n, ninst=k, layout="free" if k == 1 else "lattice",
                        diag=d, mode="jit", cond=c, solver=None, examples=80))
    for s in out:
        s["cost"] = gen.dim(s["struct"], s["ninst"]) + 4 * s["cond"]
        s["examples"] *= 1 if tier == "quick" else 4
    return out


def strategy(slot):
    return integ.data_case(slot)


def prepare(slot):
    def f(params, X, diag, y):
        gp = inst.make_gp(slot, params, X, diag)
        out = {"llh": gp.log_probability(y)}
        if slot["cond"]:
            out["cond"] = gp.condition(y).log_probability
        return out

    return jax.jit(f) if slot["mode"] == "jit" else f


def check(slot, case, run, ctx):
    spec, t, d, D = integ.reference(slot, case)
    with sut("log_probability"):
        out = run(*integ.jit_args(slot, case))
        out = {k: np.asarray(v) for k, v in out.items()}
    tol = integ.llh_tol(D, spec, case)
    ctx.close("log_probability", out["llh"], D.llh, tol)
    if slot["cond"]:
        ctx.close("condition().log_probability", out["cond"], D.llh, tol)


nontrivial = integ.nontrivial
labels = integ.labels
