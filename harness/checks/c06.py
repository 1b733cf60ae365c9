"""C06: latent predictions from integrated models are exact everywhere."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import slots as slotgen
from checks import inst, integ
from common import sut

RULE = integ.RULE + " Test times lie outside, between, inside and on the edges of exposures."
ASSUMPTIONS = ["window averages of the covariances computed in closed form in 80-bit arithmetic"]
MODES = ["scalar", "vector", "default"]
ROUTES = ["after", "direct", "full"]


def slots(tier, seed):
    out = []
    for i, s in enumerate(integ.CORE):
        out.append(dict(struct=s, N=4 + i % 3, M=8, ninst=1, layout="free", diag=MODES[i % 3],
                        mode="jit", route=ROUTES[i % 3], solver=None, examples=70))
        out.append(dict(struct=s, N=5 + i % 3, M=8, ninst=2 + i % 2, layout="lattice",
                        diag=MODES[(i + 1) % 3], mode="jit", route=ROUTES[(i + 1) % 3],
                        solver=None, examples=70))
    for i, s in enumerate([["ISHO"], ["IExp"]]):
        out.append(dict(struct=s, N=[1, 2][i], M=[3, 1][i], ninst=1, layout="free",
                        diag=MODES[i], mode="jit", route="after", solver=None, examples=40))
    out.append(dict(struct=["IMatern32"], N=4, M=5, ninst=2, layout="lattice", diag="scalar",
                    mode="eager", route="after", solver=None, examples=6))
    out += integ.long_slots(tier, 6, M=45, route="after")
    rnd = st.tuples(
        gen.structure(kinds=gen.INTEG, max_leaves=2, max_dim=8, ops=("+", "s")),
        st.sampled_from([2, 5]),
        st.sampled_from([1, 2, 2, 3]),
        st.sampled_from(MODES),
        st.sampled_from(ROUTES),
    )
    for s, n, k, d, r in slotgen.draw(rnd, 8 if tier == "quick" else 100, seed):
        out.append(dict(struct=s, N=n, M=6, ninst=k, layout="free" if k == 1 else "lattice",
                        diag=d, mode="jit", route=r, solver=None, examples=70))
    for s in out:
        s["cost"] = gen.dim(s["struct"], s["ninst"])
        s["examples"] *= 1 if tier == "quick" else 4
    return out


def strategy(slot):
    return integ.data_case(slot, huge="ICosine" not in gen.show(slot["struct"]))


def prepare(slot):
    def f(params, X, diag, y, tt):
        gp = inst.make_gp(slot, params, X, diag)
        if slot["route"] == "direct":
            mu, var = gp.predict(tt, y, return_var=True)
        elif slot["route"] == "full":
            full = gp.condition(y).gp.predict(tt, return_full_state=True)
            mu, var = full.loc, full.variance
        else:
            mu, var = gp.condition(y).gp.predict(tt, return_var=True)
        return {"mean": mu, "var": var}

    return jax.jit(f) if slot["mode"] == "jit" else f


def check(slot, case, run, ctx):
    spec, t, d, D = integ.reference(slot, case)
    tt = np.asarray(case["tt"])
    with sut("predict"):
        out = run(*integ.jit_args(slot, case))
        out = {k: np.asarray(v) for k, v in out.items()}
    z = np.zeros(len(tt))
    kss = np.full(len(tt), float(oracle.cov(spec, [0.0], [0.0])[0, 0]))
    mu, var = D.predict(oracle.window_cov(spec, tt, z, t, d), kss)
    tm, tv = integ.tols(D, spec, case, kss, mu)
    ctx.close("latent mean", out["mean"], mu, tm)
    ctx.close("latent variance", out["var"], var, tv)


nontrivial = integ.nontrivial


def labels(slot, case):
    t, d, tt = (np.asarray(case[k]) for k in ("t", "texp", "tt"))
    s, e = t - d / 2, t + d / 2
    out = integ.labels(slot, case) + [f"route {slot['route']}"]
    if np.any((tt[:, None] > s) & (tt[:, None] < e)):
        out.append("test inside an exposure")
    if np.any((tt[:, None] == s) | (tt[:, None] == e)):
        out.append("test on an edge")
    if np.any(tt < s.min()):
        out.append("retrodiction")
    if np.any(tt > e.max()):
        out.append("extrapolation")
    return out
