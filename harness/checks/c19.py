"""C19: every route to the same answer gives the same answer, in any history of calls."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import slots as slotgen
from checks import inst, integ
from common import sut

RULE = (
    "A case is a kernel structure and solver (slot), hyperparameters, two data sets over the "
    "same coordinates, two sets of test points and a history of calls on the process and the "
    "conditioned processes obtained before (in the slot if compiled as a whole, else part of "
    "the case); non-trivial if the history has at least three calls, both data sets are used "
    "and not zero."
)
ASSUMPTIONS = [
    "each question is answered alone by dense regression in 80-bit arithmetic",
    "a process conditioned at test points is not conditioned further",
]
MODES = ["scalar", "vector", "default"]
STRUCTS = [
    ["SHO"], ["+", ["SHO"], ["Matern32"]], ["+", ["*", ["Exp"], ["Cosine"]], ["s", ["Matern52"]]],
    ["s", ["+", ["Exp"], ["ESS", 2]]], ["+", ["+", ["Exp"], ["Exp"]], ["Exp"]],
    ["*", ["SHO"], ["Matern32"]],
]
ISTRUCTS = [["ISHO"], ["+", ["IExp"], ["ISHO"]], ["s", ["+", ["IMatern32"], ["IMatern32"]]]]

i2 = st.integers(0, 1)
h5 = st.integers(0, 4)
comps = st.lists(st.integers(0, 3), min_size=1, max_size=3)
OPS = st.one_of(
    st.tuples(st.just("llh"), i2),
    st.tuples(st.just("llh"), i2),
    st.tuples(st.just("condition"), i2),
    st.tuples(st.just("condition at"), i2, i2),
    st.tuples(st.just("condition component"), i2, st.integers(0, 2), h5),
    st.tuples(st.just("direct"), i2, st.integers(0, 2), h5),
    st.tuples(st.just("direct"), i2, st.integers(0, 2), h5),
    st.tuples(st.just("predict"), h5, st.integers(0, 2)),
    st.tuples(st.just("predict"), h5, st.integers(0, 2)),
    st.tuples(st.just("loc"), h5),
    st.tuples(st.just("component"), h5, comps),
    st.tuples(st.just("all"), h5),
    st.tuples(st.just("predict component"), h5, st.integers(0, 2), h5, st.booleans()),
    st.tuples(st.just("full"), h5, i2, comps),
    st.tuples(st.just("observe"), h5, st.integers(0, 2), h5),
    st.tuples(st.just("direct observe"), i2, st.integers(0, 2), h5),
    st.tuples(st.just("direct observe"), i2, st.integers(0, 2), h5),
    st.tuples(st.just("round trip"), h5),
).map(list)


def history(lo, hi):
    """Histories that ask about both data sets"""
    return st.tuples(
        st.lists(OPS, min_size=lo, max_size=hi), st.integers(0, 1), st.integers(0, 1)
    ).map(lambda x: [["condition" if x[2] else "condition at", x[1], 0][: 3 - x[2]],
                     ["condition", 1 - x[1]]] + x[0])


def slots(tier, seed):
    out = []
    big = tier != "quick"
    hist = iter(slotgen.draw(history(6, 12), 400, seed))
    S, I = ["seq", "par", None], ["iseq", "ipar", None]
    for r in range(2 if not big else 12):
        for i, s in enumerate(STRUCTS):
            out.append(dict(struct=s, N=4 + i % 2, M=5, diag=MODES[i % 3],
                            solver=S[(i + r + seed) % 3], mode="jit", ops=next(hist)))
    for r in range(1 if not big else 6):
        for i, s in enumerate(ISTRUCTS):
            out.append(dict(struct=s, N=4, M=4, ninst=1 + i % 2, diag=MODES[i % 3],
                            layout=["free", "lattice"][i % 2], solver=I[(i + r + seed) % 3],
                            mode="jit", ops=next(hist)))
    for i, s in enumerate(STRUCTS[1:5]):
        out.append(dict(struct=s, N=4, M=5, diag=MODES[i % 3], solver=S[i % 3], mode="eager"))
    for i, s in enumerate(ISTRUCTS[1:]):
        out.append(dict(struct=s, N=3, M=4, ninst=2 - i, diag=MODES[i], layout="lattice",
                        solver=I[i + 1], mode="eager"))
    for s in out:
        s["examples"] = 30 if s["mode"] == "jit" else 4
        s["examples"] *= 1 if not big else 5
        s["cost"] = 10 * gen.dim(s["struct"], s.get("ninst", 0)) * (4 if "ninst" in s else 1)
        s["cost"] += 200 if s["mode"] == "eager" else 0
    return out


def strategy(slot):
    base = (
        integ.data_case(slot, huge=False)
        if "ninst" in slot
        else inst.data_case(slot, lo=-4)
    )

    @st.composite
    def build(draw):
        case = draw(base)
        scale = max(np.max(np.abs(case["y"])), 1e-2)
        case["y2"] = draw(gen.values(slot["N"], 10.0 ** round(float(np.log10(scale)))))
        if "ops" not in slot:
            case["ops"] = draw(history(3, 7))
        return case

    return build()


# ---------------------------------------------------------------------------


def cut(slot):
    return 2 if slot["M"] > 3 else 1


def execute(slot, gp, ops, ys, Xt, meta):
    """Run a history; the answers as a list of (question, answer)"""
    from smolgp.kernels.base import extract_leaf_kernels

    kernels = extract_leaf_kernels(gp.kernel)
    names = [k.name for k in kernels]
    out = []
    handles = []  # (process, data set, test set or None)

    def answer(question, value):
        meta.append(question)
        out.append(value)

    def keep(g, i, j, c=None):
        handles.append((g, i, j, c))

    nk = len(kernels)
    for op in ops:
        name, a = op[0], op[1:]
        if name == "llh":
            answer(("llh", a[0]), gp.log_probability(ys[a[0]]))
        elif name == "condition":
            res = gp.condition(ys[a[0]])
            answer(("llh", a[0]), res.log_probability)
            answer(("both", a[0], None, None), (res.gp.loc, res.gp.variance))
            keep(res.gp, a[0], None)
        elif name == "condition at":
            res = gp.condition(ys[a[0]], Xt[a[1]])
            answer(("llh", a[0]), res.log_probability)
            answer(("both", a[0], a[1], None), (res.gp.loc, res.gp.variance))
            keep(res.gp, a[0], a[1])
        elif name == "condition component":
            j = a[1] if a[1] < 2 else None
            k = a[2] % nk
            res = gp.condition(ys[a[0]], None if j is None else Xt[j], kernel=kernels[k])
            answer(("llh", a[0]), res.log_probability)
            answer(("both", a[0], j, [k]), (res.gp.loc, res.gp.variance))
            keep(res.gp, a[0], j, [k])
        elif name == "direct":
            j = a[1] if a[1] < 2 else None
            kw = {} if a[2] < 3 else {"kernel": names[a[2] % nk]}
            which = None if a[2] < 3 else [a[2] % nk]
            X = None if j is None else Xt[j]
            answer(("both", a[0], j, which), gp.predict(X, ys[a[0]], return_var=True, **kw))
            answer(("mean", a[0], j, which), gp.predict(X, y=ys[a[0]], **kw))
        elif name == "direct observe":
            k = a[2] % nk
            H = lambda X: gp.kernel.observation_model(X, component=names[k])  # noqa: E731
            j = a[1] if a[1] < 2 else None
            got = gp.predict(None if j is None else Xt[j], ys[a[0]], observation_model=H,
                             return_var=True)
            answer(("both", a[0], j, [k]), got)
        else:
            g, i, at, only = handles[a[0] % len(handles)]
            if name == "loc":
                answer(("both", i, at, only), (g.loc, g.variance))
                answer(("both", i, at, only), g.predict(return_var=True))
            elif name == "predict":
                if a[1] == 2:
                    answer(("mean", i, at, only), g.predict())
                else:
                    answer(("both", i, a[1], None), g.predict(Xt[a[1]], return_var=True))
            elif name == "component":
                which = sorted({x % nk for x in a[1]}, key=[x % nk for x in a[1]].index)
                arg = [names[x] for x in which]
                arg = arg[0] if len(arg) == 1 else arg
                answer(("both", i, at, which), g.get_component_mean(arg, return_var=True))
            elif name == "all":
                res = g.get_all_component_means(return_var=True)
                for k, n in enumerate(names):
                    answer(("both", i, at, [k]), res[n])
            elif name == "predict component":
                j = a[1] if a[1] < 2 else at
                k = a[2] % nk
                X = None if a[1] == 2 else Xt[j]
                arg = names[k] if a[3] else kernels[k]
                answer(("both", i, j, [k]), g.predict(X, kernel=arg, return_var=True))
            elif name == "full":
                full = g.predict(Xt[a[1]], return_full_state=True)
                which = sorted({x % nk for x in a[2]})
                answer(("both", i, a[1], None), (full.loc, full.variance))
                answer(("both", i, a[1], which),
                       full.get_component([names[x] for x in which], return_var=True))
                for k, v in enumerate(full.get_all_components().values()):
                    answer(("mean", i, a[1], [k]), v)
            elif name == "observe":
                k = a[2] % nk
                H = lambda X: gp.kernel.observation_model(X, component=names[k])  # noqa: E731
                j, X = (a[1], Xt[a[1]]) if a[1] < 2 else (at, None)
                answer(("both", i, j, [k]),
                       g.predict(X, observation_model=H, return_var=True))
            elif name == "round trip":
                leaves, tree = jax.tree_util.tree_flatten(g)
                keep(jax.tree_util.tree_unflatten(tree, leaves), i, at, only)
    # what was obtained first still answers the same
    for g, i, at, only in handles:
        answer(("both", i, at, only), (g.loc, g.variance))
    return out


def coordinates(slot, X, tt):
    import jax.numpy as jnp

    c = cut(slot)
    parts = [tt[:c], tt[c:]]
    if "ninst" in slot:
        zero = jnp.zeros if not isinstance(tt, np.ndarray) else np.zeros
        parts = [(p, zero(p.shape), zero(p.shape, dtype=int)) for p in parts]
    return parts


def prepare(slot):
    if slot["mode"] == "jit":
        meta = []

        def f(params, X, diag, y, y2, tt):
            gp = inst.make_gp(slot, params, X, diag)
            del meta[:]
            return execute(slot, gp, slot["ops"], (y, y2), coordinates(slot, X, tt), meta)

        g = jax.jit(f)

        def run(case, ctx):
            import jax.numpy as jnp

            ref = integ if "ninst" in slot else inst
            p, X, d, y, tt = ref.jit_args(slot, case)
            with sut("history of calls"):
                out = g(p, X, d, y, jnp.asarray(case["y2"], float), tt)
                return list(meta), jax.tree_util.tree_map(np.asarray, out)

        return run

    def run(case, ctx):
        # plain numpy arrays, which calls could modify
        t = np.array(case["t"], float)
        X = (t, np.array(case["texp"], float), np.array(case["instid"], int)) \
            if "ninst" in slot else t
        dg = None if case["diag"] is None else np.array(case["diag"], float)
        ys = (np.array(case["y"], float), np.array(case["y2"], float))
        Xt = coordinates(slot, X, np.array(case["tt"], float))
        mine = [np.copy(x) for x in jax.tree_util.tree_leaves((X, dg, ys, Xt))]
        meta = []
        with sut("history of calls"):
            gp = inst.make_gp(slot, case["params"], X, dg)
            before = [np.copy(x) for x in jax.tree_util.tree_leaves((gp, gp.kernel))]
            shown = str(jax.tree_util.tree_structure(gp.kernel))
            out = execute(slot, gp, case["ops"], ys, Xt, meta)
            out = jax.tree_util.tree_map(np.asarray, out)
            after = jax.tree_util.tree_leaves((gp, gp.kernel))
            still = str(jax.tree_util.tree_structure(gp.kernel))
        now = jax.tree_util.tree_leaves((X, dg, ys, Xt))
        ctx.require(all(np.array_equal(a, b) for a, b in zip(mine, now)),
                    "a call changed the caller's arrays")
        ctx.require(len(before) == len(after) and shown == still
                    and all(np.array_equal(a, b) for a, b in zip(before, after)),
                    "a call changed the process")
        return meta, out

    return run


def check(slot, case, run, ctx):
    questions, answers = run(case, ctx)
    integrated = "ninst" in slot
    if integrated:
        spec, t, d, D = integ.reference(slot, case)
    else:
        spec, t, D = inst.reference(slot, case)
        d = np.zeros(len(t))
    K = oracle.window_cov if integrated else (lambda s, a, _, b, __: oracle.cov(s, a, b))
    Ds = [D, oracle.Dense(D.K, D.diag, case["y2"])]
    tt = np.asarray(case["tt"])
    c = cut(slot)
    Xt = [tt[:c], tt[c:]]
    parts = oracle.components(spec)
    ll = integ.llh_tol if integrated else inst.llh_tol
    con = 3000.0 if slot["solver"] == "par" else 20000.0 if slot["solver"] == "ipar" else 200.0
    memo = {}

    def want(i, j, which):
        key = (i, j, tuple(which) if which is not None else None)
        if key in memo:
            return memo[key]
        use = parts if which is None else [parts[k] for k in which]
        x, w = (t, d) if j is None else (Xt[j], np.zeros(len(Xt[j])))
        cross = sum(K(s, x, w, t, d) for s in use)
        if j is None:
            own = np.diag(cross)
        else:
            own = np.full(len(x), sum(float(oracle.cov(s, [0.0], [0.0])[0, 0]) for s in use))
        mu, var = Ds[i].predict(cross, own)
        if integrated:
            tm, tv = integ.tols(Ds[i], spec, case, own, mu, con)
        else:
            tm, tv = inst.tols(Ds[i], spec, t, tt, own, mu, con)
        n = 1 if which is None else len(which)
        memo[key] = (mu, var, tm * n, tv * n)
        return memo[key]

    for q, got in zip(questions, answers):
        if q[0] == "llh":
            tol = (ll(Ds[q[1]], spec, case, con) if integrated
                   else ll(Ds[q[1]], spec, t, con))
            ctx.close("log probability", got, Ds[q[1]].llh, tol)
            continue
        mu, var, tm, tv = want(*q[1:])
        where = "at the data" if q[2] is None else "at test points"
        what = "" if q[3] is None else " of components"
        if q[0] == "mean":
            ctx.close(f"mean{what} {where}", got, mu, tm)
        else:
            ctx.close(f"mean{what} {where}", got[0], mu, tm)
            ctx.close(f"variance{what} {where}", got[1], var, tv)
    ctx.note("questions", len(questions))


def nontrivial(slot, case):
    return bool(np.any(case["y"]) and np.any(case["y2"])) and len(
        slot.get("ops") or case["ops"]) >= 3


def labels(slot, case):
    ops = slot.get("ops") or case["ops"]
    out = ["integrated" if "ninst" in slot else "instantaneous", f"mode {slot['mode']}"]
    return out + sorted({f"op {o[0]}" for o in ops})
