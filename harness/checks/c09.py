"""C09: component means and variances are exact and complete."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import slots as slotgen
from checks import inst, integ
from common import sut

RULE = (
    "A case is a sum of kernels with (possibly equal or clashing) names and a subset of its "
    "components (slot), hyperparameters, data and test times; non-trivial if the sum has at "
    "least two components and the data are non-zero."
)
ASSUMPTIONS = [
    "dense reference in 80-bit arithmetic; components are listed left to right",
]
MODES = ["scalar", "vector", "default"]

SUMS = [
    ["+", ["SHO"], ["Matern32"]],
    ["+", ["+", ["Exp"], ["SHO"]], ["Cosine"]],
    ["+", ["Matern52"], ["+", ["Exp"], ["Constant"]]],
    ["+", ["*", ["SHO"], ["Cosine"]], ["Matern32"]],
    ["+", ["Exp"], ["*", ["Exp"], ["SHO"]]],
    ["+", ["s", ["Matern32"]], ["s", ["Matern32"]]],
    ["+", ["+", ["SHO"], ["SHO"]], ["+", ["SHO"], ["SHO"]]],
    ["+", ["s", ["+", ["Exp"], ["SHO"]]], ["Exp"]],
    ["+", ["ESS", 2], ["+", ["*", ["Exp"], ["ESS", 2]], ["Constant"]]],
    ["+", ["*", ["Exp"], ["Cosine"]], ["*", ["Exp"], ["Cosine"]]],
    ["+", ["+", ["*", ["+", ["Exp"], ["SHO"]], ["Matern32"]], ["Exp"]], ["s", ["SHO"]]],
    ["SHO"],
    ["*", ["Exp"], ["SHO"]],
]
ISUMS = [
    ["+", ["ISHO"], ["IExp"]],
    ["+", ["+", ["IExp"], ["IMatern32"]], ["ISHO"]],
    ["+", ["s", ["IMatern52"]], ["IExp"]],
    ["+", ["IMatern32"], ["IMatern32"]],
    ["s", ["+", ["IExp"], ["IExp"]]],
]
POOL = ["a", "a", "a", "b", "a_1", "a_2", "b_1", "SHO", "x", "y", "z"]


def slots(tier, seed):
    out = []
    for i, s in enumerate(SUMS):
        n = len(gen.leaves(s))
        names = [None, ["a"] * n, [f"k{j}" for j in range(n)], (["a", "a", "a_1", "b", "a_2"] * n)[:n]]
        out.append(dict(struct=s, N=5 + i % 3, M=5, diag=MODES[i % 3], names=names[i % 4],
                        solver=None, examples=50))
    for i, s in enumerate(ISUMS):
        n = len(gen.leaves(s))
        names = [["a"] * n, None, ["a_1", "a", "a"][:n]]
        out.append(dict(struct=s, N=5, M=4, diag=MODES[i % 3], names=names[i % 3],
                        ninst=1 + i % 2, layout=["free", "lattice"][i % 2],
                        solver=[None, None, "ipar"][i % 3], examples=40))
    term = gen.structure(max_leaves=2, max_dim=5, ops=("*", "s"))

    def comb(ts):
        s = ts[0]
        for j, t in enumerate(ts[1:]):
            s = ["+", s, t] if j % 2 == 0 else ["+", t, s]
        return s

    rnd = st.tuples(
        st.lists(term, min_size=2, max_size=4).map(comb).filter(lambda s: gen.dim(s) <= 14),
        st.sampled_from([1, 3, 6]),
        st.sampled_from(MODES),
        st.lists(st.sampled_from(POOL), min_size=8, max_size=8),
        st.integers(0, 4),
    )
    for s, n, d, nm, k in slotgen.draw(rnd, 14 if tier == "quick" else 120, seed):
        names = None if k == 0 else nm[: len(gen.leaves(s))]
        out.append(dict(struct=s, N=n, M=4, diag=d, names=names,
                        solver="par" if k == 1 else None, examples=40))
    for i, s in enumerate(out):
        nt = len(gen.terms(s["struct"]))
        s["mode"] = "jit"
        # the group of components asked for, in an arbitrary order
        g = [j for j in range(nt) if (i * 7 + 3 * j) % 3 != 1] or [nt - 1]
        s["group"] = g[::-1] if i % 2 else g
        s["unique"] = i % 5 != 4
        s["cost"] = gen.dim(s["struct"], s.get("ninst", 0)) + (5 if "ninst" in s else 0)
        s["examples"] *= 1 if tier == "quick" else 4
    return out


def strategy(slot):
    if "ninst" in slot:
        return integ.data_case(slot, huge="ICosine" not in gen.show(slot["struct"]))
    return inst.data_case(slot)


def prepare(slot):
    meta = {}

    def f(params, X, diag, y, tt):
        gp = inst.make_gp(slot, params, X, diag)
        res = gp.condition(y)
        c = res.gp
        comps = c.get_all_component_means(return_var=True)
        meta["names"] = names = list(comps)
        full = c.predict(tt, return_full_state=True)
        pcomps = full.get_all_components(return_var=True)
        meta["pnames"] = list(pcomps)
        meta["plain"] = list(c.get_all_component_means())
        mu, var = c.predict(tt, return_var=True)
        out = {
            "llh": res.log_probability,
            "loc": c.loc,
            "mean": mu,
            "comps": list(comps.values()),
            "plain": list(c.get_all_component_means().values()),
            "pcomps": list(pcomps.values()),
        }
        if len(names) == len(gen.terms(slot["struct"])):
            g = [names[j] for j in slot["group"]]
            out["group"] = c.get_component_mean(g, return_var=True)
            out["pgroup"] = full.get_component(g, return_var=True)
            out["single"] = c.get_component_mean(g[0])
            out["predict"] = c.predict(tt, kernel=g[0], return_var=True)
        if not slot["unique"]:
            gp2 = inst.make_gp(slot, params, X, diag, use_unique_names=False)
            out["llh2"] = gp2.log_probability(y)
        return out

    g = jax.jit(f)
    return lambda *a: (g(*a), meta)


def check(slot, case, run, ctx):
    integrated = "ninst" in slot
    ref = integ if integrated else inst
    if integrated:
        spec, t, d, D = integ.reference(slot, case)
    else:
        spec, t, D = inst.reference(slot, case)
        d = np.zeros(len(t))
    tt = np.asarray(case["tt"])
    z = np.zeros(len(tt))
    with sut("component extraction"):
        out, meta = run(*ref.jit_args(slot, case))
        out = jax.tree_util.tree_map(np.asarray, out)
    comps = oracle.components(spec)
    n = len(comps)
    names = meta["names"]
    ctx.require(len(names) == n, f"{n} components are listed as {names}")
    ctx.require(names == meta["pnames"] == meta["plain"], "component names differ between calls")
    if slot["names"] is not None:
        # components that are single kernels keep a name nothing else has
        it = iter(slot["names"])
        own = []
        for term in gen.terms(slot["struct"]):
            mine = [next(it) for _ in gen.leaves(term)]
            own.append(mine[0] if gen.is_leaf(term) else None)
        for j, o in enumerate(own):
            if o is not None and slot["names"].count(o) == 1:
                ctx.require(names[j] == o, f"component {o!r} is listed as {names[j]!r}")
    K = oracle.window_cov if integrated else (lambda s, a, _, b, __: oracle.cov(s, a, b))
    if integrated:
        c = 200.0
        tl = integ.llh_tol(D, spec, case)
        tols = lambda kss, mu: integ.tols(D, spec, case, kss, mu, c)  # noqa: E731
    else:
        c = 3000.0 if slot["solver"] == "par" else 200.0
        tl = inst.llh_tol(D, spec, t, c)
        tols = lambda kss, mu: inst.tols(D, spec, t, tt, kss, mu, c)  # noqa: E731
    ctx.close("log_probability", out["llh"], D.llh, tl)
    if "llh2" in out:
        ctx.close("log_probability without unique names", out["llh2"], D.llh, tl)

    kd = np.diag(D.K).astype(float)
    mu_f, _ = D.predict(D.K, kd)
    tm, tv = tols(kd, mu_f)
    kt = np.full(len(tt), float(oracle.cov(spec, [0.0], [0.0])[0, 0]))
    mu_t, _ = D.predict(K(spec, tt, z, t, d), kt)
    ptm, ptv = tols(kt, mu_t)

    def want(which):
        Kd = sum(K(comps[j], t, d, t, d) for j in which)
        Kt = sum(K(comps[j], tt, z, t, d) for j in which)
        k0 = sum(float(oracle.cov(comps[j], [0.0], [0.0])[0, 0]) for j in which)
        return D.predict(Kd, np.diag(Kd)), D.predict(Kt, np.full(len(tt), k0))

    for j in range(n):
        (m, v), (pm, pv) = want([j])
        ctx.close("component mean at the data", out["comps"][j][0], m, tm)
        ctx.close("component variance at the data", out["comps"][j][1], v, tv)
        ctx.close("component mean alone", out["plain"][j], m, tm)
        ctx.close("component prediction", out["pcomps"][j][0], pm, ptm)
        ctx.close("component predicted variance", out["pcomps"][j][1], pv, ptv)
    g = slot["group"]
    (m, v), (pm, pv) = want(g)
    ctx.close("group mean at the data", out["group"][0], m, tm * len(g))
    ctx.close("group variance at the data", out["group"][1], v, tv * len(g))
    ctx.close("group prediction", out["pgroup"][0], pm, ptm * len(g))
    ctx.close("group predicted variance", out["pgroup"][1], pv, ptv * len(g))
    (m, v), (pm, pv) = want(g[:1])
    ctx.close("one component at the data", out["single"], m, tm)
    ctx.close("predict of one component", out["predict"][0], pm, ptm)
    ctx.close("predicted variance of one component", out["predict"][1], pv, ptv)
    ctx.close("sum of component means", sum(x[0] for x in out["comps"]), out["loc"], n * tm)
    ctx.close("sum of component predictions", sum(x[0] for x in out["pcomps"]), out["mean"], n * ptm)


def nontrivial(slot, case):
    return len(gen.terms(slot["struct"])) > 1 and bool(np.any(case["y"]))


def labels(slot, case):
    out = [f"{len(gen.terms(slot['struct']))} components", f"diag {slot['diag']}"]
    out.append("integrated" if "ninst" in slot else "instantaneous")
    nm = slot["names"]
    out.append("default names" if nm is None else
               "equal names" if len(set(nm)) < len(nm) else "distinct names")
    return out
