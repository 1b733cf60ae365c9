"""C17: work and memory grow linearly with the data, parallel depth logarithmically."""

import math

import jax
import numpy as np
from hypothesis import strategies as st

import cost
import gen
import slots as slotgen
from common import sut

RULE = (
    "A case is a model and solver (slot), a question, a noise mode, a small number of data and "
    "test points and how much larger each one gets; non-trivial if at least one of them gets "
    "more than a thousand times larger."
)
ASSUMPTIONS = [
    "the operations of the program that JAX traces for abstract inputs of each size are counted "
    "(loop bodies times their length); selections between equal choices and broadcasts, which "
    "the compiler removes, are free",
    "loops with a data-dependent number of iterations would count once (there are none)",
]
CORE = [
    (["SHO"], "seq"), (["Matern32"], "par"), (["Exp"], "par"), (["Cosine"], "seq"),
    (["+", ["SHO"], ["Exp"]], "par"), (["*", ["Matern32"], ["SHO"]], "seq"),
    (["+", ["s", ["Matern52"]], ["Constant"]], "seq"), (["ESS", 3], "par"),
]
ICORE = [
    (["ISHO"], "iseq", 1), (["IMatern32"], "ipar", 2), (["IExp"], "ipar", 1),
    (["IMatern52"], "iseq", 3), (["+", ["IExp"], ["ISHO"]], "iseq", 2), (["ICosine"], "ipar", 3),
]
QUESTIONS = ["llh", "condition", "predict", "components", "states", "conditioned predict",
             "predict at data"]


def slots(tier, seed):
    big = tier != "quick"
    out = []
    for s, sv in CORE:
        out.append(dict(struct=s, solver=sv, ninst=0))
    for s, sv, n in ICORE:
        out.append(dict(struct=s, solver=sv, ninst=n))
    rnd = st.tuples(gen.structure(max_leaves=3, max_dim=8), st.sampled_from(["seq", "par"]))
    for s, sv in slotgen.draw(rnd, 4 if not big else 40, seed):
        out.append(dict(struct=s, solver=sv, ninst=0))
    rnd = st.tuples(gen.structure(gen.INTEG, max_leaves=2, max_dim=6, ops=("+", "s")),
                    st.sampled_from(["iseq", "ipar"]), st.integers(1, 3))
    for s, sv, n in slotgen.draw(rnd, 2 if not big else 30, seed):
        out.append(dict(struct=s, solver=sv, ninst=n))
    for s in out:
        s["examples"] = 4 if s["ninst"] else 6
        s["examples"] *= 4 if big else 1
        s["cost"] = 3 if s["ninst"] else 1
        s["mode"] = "trace"
    return out


def strategy(slot):
    return st.fixed_dictionaries({
        "question": st.sampled_from(QUESTIONS),
        "diag": st.sampled_from(["vector", "scalar", "default"]),
        "data": st.integers(40, 70),
        "test": st.integers(40, 70),
        "grow": st.sampled_from([[17, 0], [0, 17], [16, 16], [17, 9]]),
    })


def program(slot, question, diag):
    import build

    solver = build.SOLVERS[slot["solver"]]

    def f(params, X, y, noise, xt):
        k = build.kernel(slot["struct"], params, ninst=max(slot["ninst"], 1))
        kw = {} if diag == "default" else {"diag": noise}
        gp = build.GP(k, X, solver=solver, **kw)
        if question == "llh":
            return gp.log_probability(y)
        if question == "predict":
            return gp.predict(xt, y, return_var=True)
        llh, c = gp.condition(y)
        if question == "condition":
            return llh, c.loc, c.variance
        if question == "components":
            return c.get_all_component_means(return_var=True)
        if question == "states":
            return c.states()
        if question == "predict at data":
            return c.predict(return_var=True)
        return c.predict(xt, return_var=True), c.loc

    return f


def prepare(slot):
    memo = {}

    shapes = [len(p) for p in slotgen.draw(gen.params(slot["struct"], -1, 1), 1, 0)[0]]

    def run(question, diag, N, M):
        key = (question, diag, N, M)
        if key not in memo:
            fl = lambda *s: jax.ShapeDtypeStruct(s, np.dtype("float64"))
            X = fl(N)
            if slot["ninst"]:
                X = (fl(N), fl(N), jax.ShapeDtypeStruct((N,), np.dtype("int64")))
            args = ([[fl()] * n for n in shapes], X, fl(N),
                    fl() if diag == "scalar" else fl(N), fl(M))
            memo[key] = cost.of(jax.make_jaxpr(program(slot, question, diag))(*args).jaxpr)
        return memo[key]

    return run


def check(slot, case, run, ctx):
    q, d, n, m = case["question"], case["diag"], case["data"], case["test"]

    def at(N, M):
        with sut(f"tracing {q} for {N} data and {M} test points"):
            return run(q, d, N, M)

    small = at(n, m)
    per_data, per_test = at(2 * n, m), at(n, 2 * m)
    for c in (per_data, per_test):
        # (a program that is written out for each point would never be traced)
        ctx.require(c.eqns <= 1.5 * small.eqns + 200,
                    f"{q}: the program itself grows with the data: {small.eqns} operations "
                    f"for {n} data and {m} test points, {c.eqns} for twice as many")
    a, b = case["grow"]
    N, M = n * 2**a + (a > 0), m * 2**b + (b > 0)
    large = at(N, M)
    for what in ("work", "memory"):
        unit = max(getattr(small, what) / (n + m), getattr(per_data, what) / (2 * n + m),
                   getattr(per_test, what) / (n + 2 * m))
        log = math.log2(N + M) / math.log2(n + m)
        ctx.close(f"{what} of {q} per point [{N} data, {M} test points]",
                  np.array(getattr(large, what) / (N + M)), 0.0, 1.5 * unit * log)
    if "par" in slot["solver"]:
        deep = max(small.depth, per_data.depth, per_test.depth)
        ctx.close(f"depth of {q} [{N} data, {M} test points]", np.array(large.depth), 0.0,
                  1.5 * deep * math.log2(N + M) / math.log2(n + m))
    if large.unknown:
        ctx.note("loop of unknown length")


def nontrivial(slot, case):
    return max(case["grow"]) > 10


def labels(slot, case):
    return [f"question:{case['question']}", f"solver:{slot['solver']}",
            f"grow:{case['grow'][0]},{case['grow'][1]}"]
