"""C16: compilation, batching and differentiation do not change results."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import slots as slotgen
from checks import inst, integ
from common import EPS, sut

RULE = (
    "A case is a model (slot) with hyperparameters, data and test times (three of them for "
    "batches) run eagerly, compiled, batched or differentiated; non-trivial if the data are "
    "correlated and non-zero."
)
ASSUMPTIONS = [
    "dense reference and its derivatives (closed form, central differences of covariances) in "
    "80-bit arithmetic",
]
MODES = ["scalar", "vector", "default"]
B = 3


def slots(tier, seed):
    out = []
    k = 1 if tier == "quick" else 4
    S = ["seq", "par"]
    grads = [["SHO"], ["Matern52"], ["Cosine"], ["ESS", 3], ["+", ["SHO"], ["Matern32"]],
             ["*", ["s", ["Exp"]], ["SHO"]], ["+", ["Constant"], ["*", ["Exp"], ["ESS", 2]]]]
    for i, s in enumerate(grads):
        out.append(dict(kind="grad", struct=s, N=5, diag=MODES[i % 3], examples=60,
                        solver=S[(i + seed) % 3 % 2]))
    igrads = [["IExp"], ["IMatern32"], ["IMatern52"], ["ISHO"], ["+", ["ICosine"], ["s", ["IExp"]]]]
    for i, s in enumerate(igrads):
        out.append(dict(kind="grad", struct=s, N=4, ninst=1 + i % 2, diag=MODES[i % 3],
                        layout=["free", "lattice"][i % 2], solver=["iseq", "ipar"][(i + seed) % 3 % 2],
                        examples=40))
    batch = [["SHO"], ["+", ["Exp"], ["Matern32"]], ["*", ["SHO"], ["Cosine"]],
             ["s", ["Matern52"]], ["ESS", 2], ["+", ["Constant"], ["s", ["Exp"]]]]
    over = ["params", "data", "all", "kernel", "times"]
    for i, s in enumerate(batch):
        out.append(dict(kind="batch", struct=s, N=5, M=3, diag=MODES[i % 2],
                        over=over[(i + seed) % 5], solver=S[i // 2 % 2], examples=30))
    for i, s in enumerate([["ISHO"], ["+", ["IExp"], ["s", ["IMatern32"]]], ["IMatern52"]]):
        out.append(dict(kind="batch", struct=s, N=4, M=3, ninst=1 + i % 2, diag=MODES[i % 2],
                        layout=["free", "lattice"][i % 2], over=over[(i + seed) % 5],
                        solver=["iseq", "ipar", None][i], examples=25))
    eager = [["SHO"], ["*", ["Exp"], ["Cosine"]], ["+", ["Matern52"], ["s", ["ESS", 2]]],
             ["Constant"]]
    for i, s in enumerate(eager):
        out.append(dict(kind="eager", struct=s, N=4, M=3, diag=MODES[i % 3], solver=S[i % 2],
                        examples=4))
    for i, s in enumerate([["ISHO"], ["+", ["IExp"], ["IMatern52"]]]):
        out.append(dict(kind="eager", struct=s, N=3, M=2, ninst=2 - i, diag=MODES[i % 3],
                        layout=["lattice", "free"][i], solver=["iseq", "ipar"][i], examples=3))
    rnd = st.tuples(
        gen.structure(max_leaves=3, max_dim=10),
        st.sampled_from(["grad", "grad", "batch"]),
        st.sampled_from([1, 3, 6]),
        st.sampled_from(MODES[:2]),
        st.sampled_from(over),
        st.sampled_from(S),
    )
    for s, kind, n, d, o, sv in slotgen.draw(rnd, 8 if tier == "quick" else 90, seed):
        sl = dict(kind=kind, struct=s, N=n, diag=d, solver=sv, examples=40)
        if kind == "batch":
            sl.update(M=3, over=o)
        out.append(sl)
    for s in out:
        s["mode"] = "eager" if s["kind"] == "eager" else "jit"
        s["cost"] = gen.dim(s["struct"], s.get("ninst", 0)) + (20 if "ninst" in s else 0)
        s["examples"] *= k
    return out


def data_case(slot):
    lo = -3 if slot["kind"] == "grad" else -4
    huge = slot["kind"] != "grad" and "ICosine" not in gen.show(slot["struct"])
    if "ninst" in slot:
        return integ.data_case(slot, huge=huge, lo=lo)
    return inst.data_case(slot, huge=huge, lo=lo)


def strategy(slot):
    one = data_case(slot)
    if slot["kind"] == "grad":

        def away(case):  # from the boundary of critical damping
            for n, p in zip(gen.nodes(slot["struct"]), case["params"]):
                if n[0] in ("SHO", "ISHO") and abs(p[1] - 0.5) < 0.005:
                    p[1] = 0.56
            return case

        return one.map(away)
    if slot["kind"] == "eager":
        return one
    return st.lists(one, min_size=B, max_size=B).map(lambda x: {"cases": share(slot, x)})


def share(slot, cases):
    """Batches share whatever is not batched over"""
    keys = {"params": ["params"], "kernel": ["params"], "data": ["y"], "times": ["t", "tt"],
            "all": ["params", "t", "texp", "diag", "y", "tt"]}[slot["over"]]
    out = []
    for c in cases:
        d = dict(cases[0])
        for k in keys:
            if k in c:
                d[k] = c[k]
        if "ninst" in slot and slot["over"] in ("times", "all"):
            # a data set is valid as a whole: times, exposures and instruments
            for k in ("t", "texp", "instid", "tt"):
                d[k] = c[k]
        out.append(d)
    return out


def prepare(slot):
    import build
    import jax.numpy as jnp

    def model(params, X, diag, y, tt):
        gp = inst.make_gp(slot, params, X, diag)
        res = gp.condition(y)
        mu, var = res.gp.predict(tt, return_var=True)
        return {"llh": gp.log_probability(y), "cond": res.log_probability, "loc": res.gp.loc,
                "var": res.gp.variance, "mean": mu, "pvar": var}

    if slot["kind"] == "grad":

        def llh(params, X, diag, y):
            return inst.make_gp(slot, params, X, diag).log_probability(y)

        argnums = (0, 3) if slot["diag"] == "default" else (0, 2, 3)
        f = jax.jit(jax.value_and_grad(llh, argnums=argnums))
        # forward mode and the reverse mode must agree
        g = jax.jit(jax.jacfwd(llh, argnums=3))
        return lambda *a: (f(*a), g(*a))
    if slot["kind"] == "eager":
        g = jax.jit(model)

        def both(params, X, diag, y, tt):
            e = model(params, X, diag, y, tt)
            again = model(params, X, diag, y, tt)
            kern = build.kernel(slot["struct"], params, ninst=slot.get("ninst", 1))
            kw = {} if diag is None else {"diag": diag}
            gp = build.GP(kern, X, solver=build.SOLVERS[slot["solver"]], **kw)
            # models and conditioned models as arguments of compiled functions
            arg = jax.jit(lambda gp, y: gp.log_probability(y))(gp, y)
            cond = jax.jit(lambda gp, y: gp.condition(y).gp)(gp, y)
            pred = jax.jit(lambda c, tt: c.predict(tt, return_var=True))(cond, tt)
            return e, again, g(build.asarray(params), X, diag, y, tt), arg, pred

        return both
    ax = {"params": (0, None, None, None, None), "kernel": (0, None, None, None, None),
          "data": (None, None, None, 0, None), "times": (None, 0, None, None, 0),
          "all": (0, 0, 0, 0, 0)}[slot["over"]]
    if slot["over"] == "kernel":

        def batched(params, X, diag, y, tt):
            ks = jax.vmap(lambda p: build.kernel(slot["struct"], p, ninst=slot.get("ninst", 1)))(
                params)
            kw = {} if diag is None else {"diag": diag}

            def one(k):
                gp = build.GP(k, X, solver=build.SOLVERS[slot["solver"]], **kw)
                res = gp.condition(y)
                mu, var = res.gp.predict(tt, return_var=True)
                return {"llh": gp.log_probability(y), "cond": res.log_probability,
                        "loc": res.gp.loc, "var": res.gp.variance, "mean": mu, "pvar": var}

            return jax.vmap(one)(ks)

        f = jax.jit(batched)
    else:
        f = jax.jit(jax.vmap(model, in_axes=ax))
    g = jax.jit(model)

    def batch(args):
        stacked = [
            jax.tree_util.tree_map(lambda *x: jnp.stack(x), *[a[i] for a in args])
            if ax[i] == 0 else args[0][i]
            for i in range(5)
        ]
        return f(*stacked), g(*args[-1])

    return batch


def compare(slot, case, out, ctx, which):
    if "ninst" in slot:
        spec, t, d, D = integ.reference(slot, case)
        c = 20000.0 if slot["solver"] == "ipar" else 200.0
        tl = integ.llh_tol(D, spec, case, c)
        tols = lambda kss, mu: integ.tols(D, spec, case, kss, mu, c)  # noqa: E731
    else:
        spec, t, D = inst.reference(slot, case)
        d = np.zeros(len(t))
        c = 3000.0 if slot["solver"] == "par" else 200.0
        tl = inst.llh_tol(D, spec, t, c)
        tols = lambda kss, mu: inst.tols(D, spec, t, np.asarray(case["tt"]), kss, mu, c)  # noqa: E731
    tt = np.asarray(case["tt"])
    ctx.close("log_probability" + which, out["llh"], D.llh, tl)
    ctx.close("condition().log_probability" + which, out["cond"], D.llh, tl)
    kd = np.diag(D.K).astype(float)
    mu, var = D.predict(D.K, kd)
    tm, tv = tols(kd, mu)
    ctx.close("mean at the data" + which, out["loc"], mu, tm)
    ctx.close("variance at the data" + which, out["var"], var, tv)
    z = np.zeros(len(tt))
    Ks = oracle.window_cov(spec, tt, z, t, d) if "ninst" in slot else oracle.cov(spec, tt, t)
    kt = np.full(len(tt), float(oracle.cov(spec, [0.0], [0.0])[0, 0]))
    mu, var = D.predict(Ks, kt)
    tm, tv = tols(kt, mu)
    ctx.close("predicted mean" + which, out["mean"], mu, tm)
    ctx.close("predicted variance" + which, out["pvar"], var, tv)
    return tl, tm, tv


def check(slot, case, run, ctx):
    ref = integ if "ninst" in slot else inst
    to_np = lambda x: jax.tree_util.tree_map(np.asarray, x)  # noqa: E731
    if slot["kind"] == "grad":
        return check_grad(slot, case, run, ctx)
    if slot["kind"] == "eager":
        with sut("eager and compiled evaluation"):
            e, again, j, arg, pred = to_np(run(*ref.jit_args(slot, case)))
        tl, tm, tv = compare(slot, case, e, ctx, " (eager)")
        compare(slot, case, j, ctx, " (compiled)")
        for k in e:
            ctx.close(k + " (eager, again)", again[k], e[k], 0.0)
        ctx.close("log_probability (model as an argument)", arg, e["llh"], 2 * tl)
        ctx.close("predicted mean (model as an argument)", pred[0], e["mean"], 2 * tm)
        ctx.close("predicted variance (model as an argument)", pred[1], e["pvar"], 2 * tv)
        return
    cases = case["cases"]
    with sut("batched evaluation"):
        out, last = to_np(run([ref.jit_args(slot, c) for c in cases]))
    for i, c in enumerate(cases):
        compare(slot, c, {k: v[i] for k, v in out.items()}, ctx, " (batched)")
    compare(slot, cases[-1], last, ctx, " (compiled)")


def check_grad(slot, case, run, ctx):
    integrated = "ninst" in slot
    ref = integ if integrated else inst
    if integrated:
        spec, t, d, D = integ.reference(slot, case)
        rnd = integ.rounding(D, spec, case)
    else:
        spec, t, D = inst.reference(slot, case)
        d = np.zeros(len(t))
        rnd = inst.rounding(D, spec, t)
    with sut("gradient of log_probability"):
        (val, grads), fwd = run(*ref.jit_args(slot, case))
        val, grads, fwd = jax.tree_util.tree_map(np.asarray, (val, grads, fwd))
    c = 3e4 if slot["solver"] in ("par", "ipar") else 3e3
    ctx.close("log_probability (differentiated)", val, D.llh,
              (integ.llh_tol(D, spec, case, c) if integrated else inst.llh_tol(D, spec, t, c)))
    n = len(t)
    Li = oracle.solve_lower(D.L, np.eye(n, dtype=oracle.LD))
    Si = Li.T @ Li
    a = Si @ D.y
    sd = np.sqrt(np.diag(Si))
    # data and noise
    s = np.abs(a) + np.sum(np.abs(Si) * np.abs(D.y), axis=1)
    s = (np.max(s) + 1e-300).astype(float)
    ctx.close("gradient with respect to the data", grads[-1], -a.astype(float), c * rnd * s)
    ctx.close("forward-mode gradient with respect to the data", fwd, -a.astype(float), c * rnd * s)
    dn = (a * a - np.diag(Si)) / 2
    sn = np.max(np.abs(a) ** 2 + np.diag(Si)).astype(float)
    if slot["diag"] == "vector":
        ctx.close("gradient with respect to the noise", grads[1], dn.astype(float), c * rnd * sn)
    elif slot["diag"] == "scalar":
        ctx.close("gradient with respect to the noise", grads[1], float(np.sum(dn)),
                  c * rnd * sn * n)
    # hyperparameters
    W = (np.outer(a, a) - Si) / 2
    Wa = np.outer(np.abs(a), np.abs(a)) + np.outer(sd, sd)
    nodes = gen.nodes(slot["struct"])
    for i, p in enumerate(case["params"]):
        for j, x in enumerate(p):
            dK = derivative(slot, case, t, d, i, j)
            want = float(np.sum(W * dK))
            cl = 1.0
            if nodes[i][0] in ("SHO", "ISHO"):
                cl = min(1.0, abs(1 - 4 * p[1] ** 2)) ** 1.5
            # all entries of the covariance contribute to the rounding
            scale = float(np.sum(Wa) * max(np.max(np.abs(dK)), np.max(np.abs(D.K)) / x * 1e-3))
            # integrals over windows lose digits that their derivatives lose again
            ci = 100.0 if integrated else 3.0
            ctx.close("gradient with respect to a hyperparameter", grads[0][i][j], want,
                      ci * c * rnd * scale / cl + 1e-300)


def derivative(slot, case, t, d, i, j):
    """dK/dtheta by central differences with one extrapolation"""

    def K(x):
        pars = [list(p) for p in case["params"]]
        pars[i][j] = x
        spec = gen.to_spec(slot["struct"], pars)
        if "ninst" in slot:
            return oracle.window_cov(spec, t, d, t, d)
        return oracle.cov(spec, t, t)

    x = oracle.LD(case["params"][i][j])
    h = x * oracle.LD(2) ** -14
    d1 = (K(x + h) - K(x - h)) / (2 * h)
    d2 = (K(x + 2 * h) - K(x - 2 * h)) / (4 * h)
    d4 = (K(x + 4 * h) - K(x - 4 * h)) / (8 * h)
    r1, r2 = (4 * d1 - d2) / 3, (4 * d2 - d4) / 3
    return (16 * r1 - r2) / 15


def nontrivial(slot, case):
    cases = case.get("cases", [case])
    f = integ.nontrivial if "ninst" in slot else (lambda s, c: inst.correlated(c))
    return any(f(slot, c) for c in cases)


def labels(slot, case):
    out = [slot["kind"], "integrated" if "ninst" in slot else "instantaneous",
           f"solver {slot['solver']}"]
    if slot["kind"] == "batch":
        out.append(f"over {slot['over']}")
    for c in case.get("cases", [case]):
        out += inst.param_labels(slot["struct"], c["params"])
    return sorted(set(out))
