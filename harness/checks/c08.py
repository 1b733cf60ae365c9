"""C08: the parallel and the sequential integrated solvers agree."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import slots as slotgen
from checks import integ
from checks.inst import make_gp
from common import sut

RULE = integ.RULE + " Every case is solved by both solvers."
ASSUMPTIONS = [
    "differential between the two solvers, and of the parallel one against window averages of "
    "the covariances in closed form in 80-bit arithmetic"
]
MODES = ["scalar", "vector", "default"]


def slots(tier, seed):
    out = []
    for i, s in enumerate(integ.CORE):
        if i % 2 == 0 or tier != "quick":
            out.append(dict(struct=s, N=4 + i % 3, M=6, ninst=1, layout="free",
                            diag=MODES[i % 3], mode="jit", examples=50))
        out.append(dict(struct=s, N=5 + i % 4, M=6, ninst=2 + i % 2, layout="lattice",
                        diag=MODES[(i + 1) % 3], mode="jit", examples=40))
    for i, s in enumerate([["ISHO"], ["IExp"]]):
        out.append(dict(struct=s, N=[1, 2][i], M=[3, 1][i], ninst=1, layout="free",
                        diag=MODES[i], mode="jit", examples=30))
        out.append(dict(struct=s, N=[19, 12][i], M=2, ninst=[1, 3][i], layout="lattice",
                        diag=MODES[i], mode="jit", examples=20))
    out.append(dict(struct=["IMatern32"], N=4, M=3, ninst=2, layout="lattice", diag="scalar",
                    mode="eager", examples=5))
    out += integ.long_slots(tier, 4, few=2, M=9)
    rnd = st.tuples(
        gen.structure(kinds=gen.INTEG, max_leaves=2, max_dim=8, ops=("+", "s")),
        st.sampled_from([2, 5, 8]),
        st.sampled_from([1, 2, 2, 3]),
        st.sampled_from(MODES),
    )
    for s, n, k, d in slotgen.draw(rnd, 8 if tier == "quick" else 100, seed):
        out.append(dict(struct=s, N=n, M=4, ninst=k, layout="free" if k == 1 else "lattice",
                        diag=d, mode="jit", examples=40))
    for i, s in enumerate(out):
        s["llh"] = i % 3 == 0
        s["cost"] = 2 * gen.dim(s["struct"], s["ninst"])
        s["examples"] *= 1 if tier == "quick" else 4
    return out


def strategy(slot):
    return integ.data_case(slot, huge="ICosine" not in gen.show(slot["struct"]))


def prepare(slot):
    def f(params, X, diag, y, tt):
        out = {}
        for k in ("iseq", "ipar"):
            gp = make_gp(dict(slot, solver=k), params, X, diag)
            cond = gp.condition(y)
            mu, var = cond.gp.predict(tt, return_var=True)
            out[k] = {
                "cllh": cond.log_probability,
                "loc": cond.gp.loc,
                "variance": cond.gp.variance,
                "mean": mu,
                "var": var,
                "comps": cond.gp.get_all_component_means(return_var=True),
            }
            if k == "ipar" and slot["llh"]:
                out[k]["llh"] = gp.log_probability(y)
        return out

    return jax.jit(f) if slot["mode"] == "jit" else f


def check(slot, case, run, ctx):
    spec, t, d, D = integ.reference(slot, case)
    tt = np.asarray(case["tt"])
    with sut("a solver"):
        out = run(*integ.jit_args(slot, case))
        out = jax.tree_util.tree_map(np.asarray, out)
    a, b = out["iseq"], out["ipar"]
    # the reduction tree rounds more than the recursion
    c = 20000.0
    tol = integ.llh_tol(D, spec, case, c)
    ctx.close("parallel condition().log_probability", b["cllh"], D.llh, tol)
    ctx.close("condition().log_probability", b["cllh"], a["cllh"], tol)
    if slot["llh"]:
        ctx.close("parallel log_probability", b["llh"], D.llh, tol)
    kss = np.diag(D.K).astype(float)
    mu, var = D.predict(D.K, kss)
    tm, tv = integ.tols(D, spec, case, kss, mu, c)
    ctx.close("parallel mean at the data", b["loc"], mu, tm)
    ctx.close("parallel variance at the data", b["variance"], var, tv)
    ctx.close("mean at the data", b["loc"], a["loc"], 2 * tm)
    ctx.close("variance at the data", b["variance"], a["variance"], 2 * tv)
    ctx.require(list(a["comps"]) == list(b["comps"]), "component names differ")
    for name in a["comps"]:
        ctx.close("component mean", b["comps"][name][0], a["comps"][name][0], 2 * tm)
        ctx.close("component variance", b["comps"][name][1], a["comps"][name][1], 2 * tv)
    z = np.zeros(len(tt))
    kss = np.full(len(tt), float(oracle.cov(spec, [0.0], [0.0])[0, 0]))
    mu, var = D.predict(oracle.window_cov(spec, tt, z, t, d), kss)
    tm, tv = integ.tols(D, spec, case, kss, mu, c)
    ctx.close("parallel latent mean", b["mean"], mu, tm)
    ctx.close("parallel latent variance", b["var"], var, tv)
    ctx.close("latent mean", b["mean"], a["mean"], 2 * tm)
    ctx.close("latent variance", b["var"], a["var"], 2 * tv)


nontrivial = integ.nontrivial
labels = integ.labels
