"""C07: the parallel and the sequential instantaneous solvers agree."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import slots as slotgen
from checks import inst
from common import sut

RULE = (
    "A case is a kernel structure (slot), hyperparameters, sorted data times, noise, data "
    "and test times, solved by both solvers; non-trivial if the data are correlated (two "
    "distinct times closer than 30 time units) and non-zero."
)
ASSUMPTIONS = [
    "differential: the sequential solver is the reference for the states; the dense reference "
    "decides log probability, values at the data and predictions as well"
]
MODES = ["scalar", "vector", "default"]


def slots(tier, seed):
    out = []
    for i, s in enumerate(inst.CORE):
        out.append(dict(struct=s, N=5 + i % 5, M=5, diag=MODES[i % 3], mode="jit", examples=50))
    for i, s in enumerate([["SHO"], ["Exp"], ["+", ["Matern52"], ["Exp"]], ["Cosine"]]):
        out.append(dict(struct=s, N=[1, 2, 3, 1][i], M=[1, 3, 2, 4][i], diag=MODES[i % 3],
                        mode="jit", examples=40))
    # long series: several levels of the scan's reduction tree, odd and even lengths
    for i, (s, n) in enumerate([(["SHO"], 31), (["+", ["Matern32"], ["Exp"]], 17), (["Matern52"], 24)]):
        out.append(dict(struct=s, N=n, M=4, diag=MODES[i % 2], mode="jit", examples=25))
    for i, s in enumerate([["Matern32"], ["+", ["Exp"], ["SHO"]]]):
        out.append(dict(struct=s, N=4 + i, M=3, diag=MODES[i], mode="eager", examples=6))
    out += inst.long_slots(tier, 5, few=3, M=9)
    rnd = st.tuples(
        gen.structure(max_leaves=4, max_dim=10),
        st.sampled_from([1, 2, 3, 4, 6, 9, 16]),
        st.sampled_from(MODES),
    )
    for s, n, d in slotgen.draw(rnd, 10 if tier == "quick" else 120, seed):
        out.append(dict(struct=s, N=n, M=4, diag=d, mode="jit", examples=50))
    # coordinates of several parts, one of which picks how the process is observed
    for i, (s, n) in enumerate([(["SHO"], 6), (["+", ["Matern32"], ["Exp"]], 9), (["Matern52"], 3)]):
        out.append(dict(struct=s, N=n, M=5, diag=MODES[i], mode="jit", examples=30, labels=3))
    for s in out:
        s["cost"] = 2 * gen.dim(s["struct"]) + 6
        s["examples"] *= 1 if tier == "quick" else 4
    return out


def strategy(slot):
    base = inst.data_case(slot)
    if "labels" not in slot:
        return base
    lab = lambda n: st.lists(st.integers(0, slot["labels"] - 1), min_size=n, max_size=n)
    gains = st.lists(gen.logu(-1, 0.7), min_size=slot["labels"], max_size=slot["labels"])
    return st.tuples(base, lab(slot["N"]), lab(slot["M"]), gains).map(
        lambda x: dict(x[0], lab=x[1], tlab=x[2], gains=x[3]))


def results(gp, y, tt):
    llh = gp.log_probability(y)
    cond = gp.condition(y)
    c = cond.gp
    s = c.states
    mu, var = c.predict(tt, return_var=True)
    out = {
        "llh": llh,
        "cllh": cond.log_probability,
        "loc": c.loc,
        "variance": c.variance,
        "mean": mu,
        "var": var,
        "states": {
            k: (getattr(s, k + "_mean"), getattr(s, k + "_cov"))
            for k in ("predicted", "filtered", "smoothed")
        },
        "comps": c.get_all_component_means(return_var=True),
        "t": s.t_states,
    }
    return out


def prepare(slot):
    def f(params, t, diag, y, tt, lab=None):
        out = {}
        wrap = None
        if lab is not None:
            import users

            t, tt = (t, lab[0]), (tt, lab[1])
            wrap = lambda kernel: users.Channels(kernel, lab[2])  # noqa: E731
        for k in ("seq", "par"):
            gp = inst.make_gp(dict(slot, solver=k), params, t, diag, wrap=wrap)
            out[k] = results(gp, y, tt)
        return out

    return jax.jit(f) if slot["mode"] == "jit" else f


def check(slot, case, run, ctx):
    import oracle

    spec, t, D = inst.reference(slot, case)
    tt = np.asarray(case["tt"])
    args = inst.jit_args(slot, case)
    g, gt = np.ones(len(t)), np.ones(len(tt))
    if "labels" in slot:
        import jax.numpy as jnp

        gains = np.asarray(case["gains"], float)
        g, gt = gains[case["lab"]], gains[case["tlab"]]
        D = oracle.Dense(oracle.cov(spec, t, t) * np.outer(g, g), inst.diag_of(case), case["y"])
        args += ((jnp.asarray(case["lab"]), jnp.asarray(case["tlab"]), jnp.asarray(gains)),)
    with sut("a solver"):
        out = run(*args)
        out = jax.tree_util.tree_map(np.asarray, out)
    a, b = out["seq"], out["par"]
    # the reduction tree rounds more than the recursion
    c = 3000.0
    tol = inst.llh_tol(D, spec, t, c)
    ctx.close("parallel log_probability", b["llh"], D.llh, tol)
    ctx.close("parallel against sequential log_probability", b["llh"], a["llh"], tol)
    ctx.close("condition().log_probability", b["cllh"], a["cllh"], tol)
    k0 = np.diag(D.K).astype(float)
    mu, var = D.predict(D.K, k0)
    tm, tv = inst.tols(D, spec, t, tt, k0, mu, c)
    ctx.close("parallel mean at the data", b["loc"], mu, tm)
    ctx.close("parallel variance at the data", b["variance"], var, tv)
    ctx.close("mean at the data", b["loc"], a["loc"], tm)
    ctx.close("variance at the data", b["variance"], a["variance"], tv)
    kss = float(oracle.cov(spec, [0.0], [0.0])[0, 0]) * gt**2
    mu, var = D.predict(oracle.cov(spec, tt, t) * np.outer(gt, g), kss)
    tm, tv = inst.tols(D, spec, t, tt, kss, mu, c)
    ctx.close("parallel prediction", b["mean"], mu, tm)
    ctx.close("parallel predicted variance", b["var"], var, tv)
    ctx.close("prediction", b["mean"], a["mean"], tm)
    ctx.close("predicted variance", b["var"], a["var"], tv)
    ctx.require(list(a["comps"]) == list(b["comps"]), "component names differ")
    for name in a["comps"]:
        ctx.close("component mean", b["comps"][name][0], a["comps"][name][0], 30 * tm)
        ctx.close("component variance", b["comps"][name][1], a["comps"][name][1], 30 * tv)
    # states, in units of their prior standard deviations
    ctx.close("state times", b["t"], a["t"], 0)
    P0 = np.diag(a["states"]["predicted"][1][0])
    sd = np.sqrt(np.maximum(P0, 1e-300))
    k0 = float(np.max(k0))
    f = tv / k0
    amp = np.sqrt(max(1.0, float(np.max((D.y / g) ** 2)) * float(np.max(g**2)) / k0))
    for k in ("predicted", "filtered", "smoothed"):
        (ma, Pa), (mb, Pb) = a["states"][k], b["states"][k]
        big = max(amp, float(np.max(np.abs(ma / sd))))
        ctx.close(f"{k} state mean", mb / sd, ma / sd, f * 10 * big)
        ctx.close(f"{k} state covariance", Pb / np.outer(sd, sd), Pa / np.outer(sd, sd), 10 * f)


nontrivial = lambda slot, case: inst.correlated(case)  # noqa: E731


def labels(slot, case):
    return inst.common_labels(slot, case) + [f"N {slot['N']}"] + ["labels"] * ("labels" in slot)
