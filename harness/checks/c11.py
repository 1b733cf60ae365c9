"""C11: kernel algebra - sums add, products multiply, scaling scales, in any nesting."""

import random

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import slots as slotgen
from checks import inst, integ
from common import Violation, sut

RULE = (
    "A case is a kernel expression and an algebraically equal rewriting of it (slot), "
    "hyperparameters, times, noise, data and test times, or an invalid operand; non-trivial if "
    "the expression combines or scales kernels and the data are correlated and non-zero, or "
    "the operand is invalid."
)
ASSUMPTIONS = ["dense reference in 80-bit arithmetic"]
MODES = ["scalar", "vector", "default"]

CORE = [
    ["s", ["SHO"]],
    ["+", ["Exp"], ["s", ["Matern32"]]],
    ["*", ["s", ["SHO"]], ["Cosine"]],
    ["s", ["s", ["Matern52"]]],
    ["s", ["+", ["Exp"], ["SHO"]]],
    ["*", ["+", ["Exp"], ["SHO"]], ["Cosine"]],
    ["*", ["Matern32"], ["+", ["Exp"], ["ESS", 2]]],
    ["s", ["*", ["s", ["Exp"]], ["+", ["Constant"], ["SHO"]]]],
    ["*", ["*", ["Exp"], ["Cosine"]], ["Matern32"]],
    ["+", ["+", ["Exp"], ["SHO"]], ["+", ["Cosine"], ["Constant"]]],
    ["s", ["ESS", 3]],
    ["s", ["Constant"]],
]
ICORE = [
    ["s", ["IExp"]],
    ["s", ["+", ["ISHO"], ["IExp"]]],
    ["+", ["s", ["IMatern52"]], ["s", ["s", ["IMatern32"]]]],
    ["+", ["IExp"], ["+", ["ICosine"], ["IExp"]]],
]
SCALARS = ["float", "int", "np", "jnp"]
# (operator, operand)
INVALID = [
    (op, x)
    for op in ("k+x", "x+k", "k*x", "x*k")
    for x in ("jnp1", "jnp2", "list", "str", "None", "object", "tinygp", "float")
    if not (x == "float" and "*" in op)  # a scalar may multiply ...
    # ... and what numbers, lists and kernels of tinygp on the left do is up to them
    and not (x == "tinygp" and op[0] == "x")
]


# -- expressions -----------------------------------------------------------------
# ["L", id, absorbed], ["+", a, b], ["*", a, b], ["c*", ids, a], ["*c", ids, a], ["sum", list]


def number(s):
    """A structure as an expression, its nodes numbered as in gen.nodes"""
    it = iter(range(10**6))

    def go(s):
        if s[0] in "+*":
            a = go(s[1])
            return [s[0], a, go(s[2])]
        if s[0] == "s":
            i = next(it)
            return ["c*", [i], go(s[1])]
        return ["L", next(it), []]

    return go(s)


def rewrite(e, r):
    """A random algebraically equal expression"""
    k = e[0]
    if k == "L":
        return e
    if k == "sum":
        e = ["sum", [rewrite(x, r) for x in e[1]]]
        return e
    if k in ("c*", "*c"):
        ids, a = e[1], e[2]
        a = rewrite(a, r)
        how = r.randrange(5)
        if a[0] in ("c*", "*c") and how < 2:
            return [r.choice(["c*", "*c"]), ids + a[1], a[2]]
        if a[0] == "+" and how < 3:
            return ["+", [r.choice(["c*", "*c"]), ids, a[1]], [r.choice(["c*", "*c"]), ids, a[2]]]
        if a[0] == "sum" and how < 3:
            return ["sum", [["*c", ids, x] for x in a[1]]]
        if a[0] == "*" and how < 3:
            j = r.choice([1, 2])
            out = list(a)
            out[j] = [r.choice(["c*", "*c"]), ids, a[j]]
            return out
        if a[0] == "L" and how < 2:
            return ["L", a[1], a[2] + ids]
        return [r.choice(["c*", "*c"]), ids, a]
    a, b = rewrite(e[1], r), rewrite(e[2], r)
    how = r.randrange(6)
    if k == "+":
        if how == 0:
            ts = flat([k, a, b])
            r.shuffle(ts)
            return ["sum", ts]
        if how == 1 and a[0] == "+":
            return ["+", a[1], ["+", a[2], b]]
        if how == 1 and b[0] == "+":
            return ["+", ["+", a, b[1]], b[2]]
    else:
        if how < 2 and a[0] == "+":
            return ["+", ["*", a[1], b], ["*", a[2], b]]
        if how < 2 and b[0] == "+":
            return ["+", ["*", a, b[1]], ["*", a, b[2]]]
        if how == 2 and a[0] == "*":
            return ["*", a[1], ["*", a[2], b]]
        if how == 3 and a[0] in ("c*", "*c"):
            return [a[0], a[1], ["*", a[2], b]]
        if how == 3 and b[0] in ("c*", "*c"):
            return ["*c", b[1], ["*", b[2], a]]
    return [k, b, a] if r.random() < 0.6 else [k, a, b]


def flat(e):
    return flat(e[1]) + flat(e[2]) if e[0] == "+" else [e]


def evaluate(e, leaf, scalar, total):
    """Fold an expression with the operators + and * of its leaves' values"""
    k = e[0]
    if k == "L":
        return leaf(e[1], e[2])
    if k == "sum":
        return total([evaluate(x, leaf, scalar, total) for x in e[1]])
    if k == "c*":
        return scalar(e[1]) * evaluate(e[2], leaf, scalar, total)
    if k == "*c":
        return evaluate(e[2], leaf, scalar, total) * scalar(e[1])
    a, b = (evaluate(x, leaf, scalar, total) for x in e[1:])
    return a + b if k == "+" else a * b


def kernel(slot, e, params):
    import build
    import jax.numpy as jnp

    ns = gen.nodes(slot["struct"])

    def leaf(i, absorbed):
        p = list(params[i])
        for j in absorbed:
            p[-1] = p[-1] * params[j][0] ** 0.5
        order = ns[i][1] if ns[i][0] == "ESS" else None
        return build.leaf(ns[i][0], p, slot.get("ninst", 1), None, order)

    def scalar(ids):
        c = 1
        for i in ids:
            v = params[i][0]
            c = c * v
        if slot["mode"] == "jit":
            return c
        return {"float": float, "int": int, "np": np.float64, "jnp": jnp.asarray}[slot["sc"]](c)

    return evaluate(e, leaf, scalar, sum)


def reference_cov(slot, e, params, t1, t2):
    ns = gen.nodes(slot["struct"])

    def leaf(i, absorbed):
        p = dict(zip(gen.LEAF_PARAMS[ns[i][0]], params[i]))
        if ns[i][0] == "ESS":
            p["order"] = ns[i][1]
        c = np.prod([oracle.LD(params[j][0]) for j in absorbed] or [oracle.LD(1)])
        return c * oracle.cov({"k": ns[i][0], "p": p}, t1, t2)

    def scalar(ids):
        return np.prod([oracle.LD(params[i][0]) for i in ids])

    return evaluate(e, leaf, scalar, sum)


# -- the check -------------------------------------------------------------------


def slots(tier, seed):
    out = []
    r = random.Random(seed)

    def add(s, **kw):
        e = number(s)
        for _ in range(20):
            f = rewrite(rewrite(e, r), r)
            if f != e:
                break
        out.append(dict(kind="algebra", struct=s, expr=e, alt=f, solver=None, **kw))

    for i, s in enumerate(CORE):
        add(s, N=4 + i % 3, M=3, diag=MODES[i % 3], mode="jit", examples=60)
    for i, s in enumerate(ICORE):
        add(s, N=4, M=3, ninst=1 + i % 2, layout=["free", "lattice"][i % 2],
            diag=MODES[i % 3], mode="jit", examples=40)
    for i, s in enumerate([["s", ["Exp"]], ["s", ["+", ["Exp"], ["Cosine"]]],
                           ["+", ["s", ["SHO"]], ["Exp"]], ["*", ["s", ["Exp"]], ["Matern32"]]]):
        add(s, N=3, M=2, diag=MODES[i % 3], mode="eager", sc=SCALARS[i], examples=4)
    rnd = st.tuples(
        gen.structure(max_leaves=4).filter(lambda s: not gen.is_leaf(s)),
        st.sampled_from([2, 4, 6]),
        st.sampled_from(MODES),
    )
    for s, n, d in slotgen.draw(rnd, 22 if tier == "quick" else 150, seed):
        add(s, N=n, M=3, diag=d, mode="jit", examples=50)
    irnd = gen.structure(gen.INTEG, max_leaves=3, max_dim=8, ops=("+", "s"))
    for i, s in enumerate(slotgen.draw(irnd.filter(lambda s: not gen.is_leaf(s)),
                                       3 if tier == "quick" else 25, seed)):
        add(s, N=4, M=3, ninst=1 + i % 2, layout=["free", "lattice"][i % 2],
            diag=MODES[i % 3], mode="jit", examples=40)
    out.append(dict(kind="invalid", struct=["Exp"], mode="eager", examples=80))
    for s in out:
        s["cost"] = 2 * gen.dim(s["struct"], s.get("ninst", 0)) + (10 if "ninst" in s else 0)
        s["examples"] *= 1 if tier == "quick" else 4
    return out


def strategy(slot):
    if slot["kind"] == "invalid":
        kinds = [[k] if k != "ESS" else ["ESS", 2] for k in gen.INST + gen.INTEG]
        return st.fixed_dictionaries(
            {
                "struct": st.one_of(
                    st.sampled_from(kinds),
                    st.sampled_from(CORE[1:6]),
                    st.sampled_from(ICORE[1:2]),
                ),
                "invalid": st.sampled_from(INVALID),
            }
        )
    if "ninst" in slot:
        return integ.data_case(slot, huge="ICosine" not in gen.show(slot["struct"]))
    s = inst.data_case(slot)
    if slot.get("sc") == "int":

        def whole(case):
            for n, p in zip(gen.nodes(slot["struct"]), case["params"]):
                if n[0] == "s":
                    p[0] = max(1, round(p[0]))
            return case

        s = s.map(whole)
    return s


def prepare(slot):
    import build

    if slot["kind"] == "invalid":
        return None

    def f(params, X, diag, y, tt):
        kw = {} if diag is None else {"diag": diag}
        out = []
        for e in (slot["expr"], slot["alt"]):
            k = kernel(slot, e, params)
            gp = build.GP(k, X, **kw)
            res = gp.condition(y)
            mu, var = res.gp.predict(tt, return_var=True)
            t = X[0] if isinstance(X, tuple) else X
            out.append({"llh": res.log_probability, "mean": mu, "var": var,
                        "K": k(t, tt), "diag": k(t)})
        return out

    return jax.jit(f) if slot["mode"] == "jit" else f


def invalid_operand(x):
    import jax.numpy as jnp
    import tinygp

    return {
        "jnp1": jnp.ones(1),
        "jnp2": jnp.array([1.0, 2.0]),
        "list": [2.0],
        "str": "2",
        "None": None,
        "object": object(),
        "tinygp": tinygp.kernels.Matern32(1.0),
        "float": 1.5,
    }[x]


def check(slot, case, run, ctx):
    if slot["kind"] == "invalid":
        return check_invalid(case)
    integrated = "ninst" in slot
    ref = integ if integrated else inst
    if integrated:
        spec, t, d, D = integ.reference(slot, case)
    else:
        spec, t, D = inst.reference(slot, case)
        d = np.zeros(len(t))
    tt = np.asarray(case["tt"])
    args = ref.jit_args(slot, case)
    with sut("kernel algebra"):
        out = run(*args)
        out = jax.tree_util.tree_map(np.asarray, out)
    K = oracle.cov(spec, t, tt)
    kss = np.full(len(tt), float(oracle.cov(spec, [0.0], [0.0])[0, 0]))
    for e in (slot["expr"], slot["alt"]):  # the harness's own rewriting is right
        alt = reference_cov(slot, e, case["params"], t, tt)
        assert np.max(np.abs(alt - K)) <= 1e-15 * kss[0], "the expressions are not equal"
    if integrated:
        tl = integ.llh_tol(D, spec, case)
        Ks = oracle.window_cov(spec, tt, np.zeros(len(tt)), t, d)
        mu, var = D.predict(Ks, kss)
        tm, tv = integ.tols(D, spec, case, kss, mu)
    else:
        tl = inst.llh_tol(D, spec, t)
        mu, var = D.predict(K.T, kss)
        tm, tv = inst.tols(D, spec, t, tt, kss, mu)
    tk = kss[0] * (1e-12 + 2e-14 * (1 + inst.phase(spec, t, tt)) + 1e-15 * big(spec, t, tt))
    for which, o in zip(("", " of an equal expression"), out):
        ctx.close("k(X1, X2)" + which, o["K"], K.astype(float), tk)
        ctx.close("k(X)" + which, o["diag"], np.full(len(t), kss[0]), 1e-12 * kss[0])
        ctx.close("log_probability" + which, o["llh"], D.llh, tl)
        ctx.close("predicted mean" + which, o["mean"], mu, tm)
        ctx.close("predicted variance" + which, o["var"], var, tv)


def big(spec, *ts):
    """The effect of rounded coordinates on the covariance"""
    m = max(float(np.max(np.abs(t))) for t in ts)
    rates = [float(oracle.leaf_rate(p["k"], p["p"])) for p in inst.all_leaves(spec)
             if p["k"] not in ("Constant", "ESS")]
    return m * sum(rates)


def check_invalid(case):
    import build
    import env

    s = case["struct"]
    pars = [[1.3] * len(gen.LEAF_PARAMS.get(n[0], (1,))) for n in gen.nodes(s)]
    with sut("building a kernel"):
        k = build.kernel(s, pars)
    op, name = case["invalid"]
    x = invalid_operand(name)
    try:
        got = {"k+x": lambda: k + x, "x+k": lambda: x + k,
               "k*x": lambda: k * x, "x*k": lambda: x * k}[op]()
    except Exception:  # noqa: BLE001
        return
    raise Violation(f"{op} with x={name} gave {type(got).__name__} instead of an error")


def nontrivial(slot, case):
    if slot["kind"] == "invalid":
        return True
    return integ.nontrivial(slot, case) if "ninst" in slot else inst.correlated(case)


def labels(slot, case):
    if slot["kind"] == "invalid":
        return ["invalid operand", case["invalid"][0]]
    out = [slot["mode"], "integrated" if "ninst" in slot else "instantaneous"]
    text = str(slot["alt"])
    for tag, name in (("'c*'", "scalar on the left"), ("'*c'", "scalar on the right"),
                      ("'sum'", "sum of a list"), ("'*'", "product"), ("'+'", "sum")):
        if tag in text:
            out.append(name)
    return out
