"""Structures, parameters, times and data: what the checks generate.

A *structure* (JSON lists) fixes everything that decides compilation:
  ["Exp"], ["ESS", order], ["+", a, b], ["*", a, b], ["s", a]
and *params* is the list (in pre-order) of the parameter lists of its nodes.
All numbers are drawn as integers on a lattice, so that failures shrink.
"""

import math

from hypothesis import strategies as st

LEAF_PARAMS = {
    "Exp": ("scale", "sigma"),
    "Matern32": ("scale", "sigma"),
    "Matern52": ("scale", "sigma"),
    "Cosine": ("scale", "sigma"),
    "SHO": ("omega", "quality", "sigma"),
    "ESS": ("period", "gamma", "sigma"),
    "Constant": ("sigma",),
    "IExp": ("scale", "sigma"),
    "IMatern32": ("scale", "sigma"),
    "IMatern52": ("scale", "sigma"),
    "ICosine": ("scale", "sigma"),
    "ISHO": ("omega", "quality", "sigma"),
}
INST = ("Exp", "Matern32", "Matern52", "Cosine", "SHO", "ESS", "Constant")
INTEG = ("IExp", "IMatern32", "IMatern52", "ICosine", "ISHO")
DIM = {
    "Exp": 1,
    "Matern32": 2,
    "Matern52": 3,
    "Cosine": 2,
    "SHO": 2,
    "Constant": 1,
    "IExp": 1,
    "IMatern32": 2,
    "IMatern52": 3,
    "ICosine": 2,
    "ISHO": 2,
}


def r6(x):
    return float(f"{x:.6g}")


def logu(lo, hi, step=24):
    """log-uniform on 10^[lo, hi]; shrinks towards 1 (or the closest end)"""
    a, b = round(lo * step), round(hi * step)
    return st.integers(a, b).map(lambda i: r6(10 ** (i / step)))


def is_leaf(s):
    return s[0] not in ("+", "*", "s")


def leaves(s):
    """All leaf nodes, in pre-order"""
    if is_leaf(s):
        return [s]
    return [x for a in s[1:] for x in leaves(a)]


def nodes(s):
    """Nodes that carry parameters (leaves and scalings), in pre-order"""
    if is_leaf(s):
        return [s]
    out = [s] if s[0] == "s" else []
    for a in s[1:]:
        out += nodes(a)
    return out


def dim(s, ninst=0):
    if s[0] == "+":
        return dim(s[1], ninst) + dim(s[2], ninst)
    if s[0] == "*":
        return dim(s[1], ninst) * dim(s[2], ninst)
    if s[0] == "s":
        return dim(s[1], ninst)
    if s[0] == "ESS":
        return 2 * (s[1] or 6)
    return DIM[s[0]] + (ninst if s[0][0] == "I" else 0)


def terms(s):
    """Additive components"""
    return terms(s[1]) + terms(s[2]) if s[0] == "+" else [s]


def show(s):
    if s[0] == "+":
        return f"({show(s[1])} + {show(s[2])})"
    if s[0] == "*":
        return f"({show(s[1])} * {show(s[2])})"
    if s[0] == "s":
        return f"c*{show(s[1])}"
    if s[0] == "ESS":
        return f"ESS[{s[1]}]"
    return s[0]


def structure(kinds=INST, max_leaves=4, max_dim=14, ops=("+", "*", "s")):
    """Random structures, biased to composites"""

    def leaf():
        def mk(k):
            if k == "ESS":
                return st.sampled_from([1, 2, 3]).map(lambda o: ["ESS", o])
            return st.just([k])

        return st.sampled_from(kinds).flatmap(mk)

    def extend(children):
        alts = []
        if "+" in ops:
            alts.append(st.tuples(st.just("+"), children, children).map(list))
        if "*" in ops:
            alts.append(st.tuples(st.just("*"), children, children).map(list))
        if "s" in ops:
            alts.append(st.tuples(st.just("s"), children).map(list))
        return st.one_of(*alts)

    return st.recursive(leaf(), extend, max_leaves=max_leaves).filter(
        lambda s: dim(s) <= max_dim and len(leaves(s)) <= max_leaves
    )


def quality():
    return st.one_of(
        logu(-0.28, 1.5),  # underdamped, 0.525..32
        logu(-1.2, -0.32),  # overdamped, 0.06..0.48
        st.just(0.5),
        st.sampled_from([0.502, 0.51, 0.498, 0.49, 0.5004, 0.4996, 0.7071067811865476, 1.0]),
    )


def node_params(node, lo=-1.0, hi=1.0):
    k = node[0]
    sig = logu(-1, 1)
    if k in ("Exp", "Matern32", "Matern52", "IExp", "IMatern32", "IMatern52"):
        return st.tuples(logu(lo, hi), sig).map(list)
    if k in ("Cosine", "ICosine"):
        return st.tuples(logu(lo, hi), sig).map(list)
    if k in ("SHO", "ISHO"):
        return st.tuples(logu(-hi, -lo), quality(), sig).map(list)
    if k == "ESS":
        return st.tuples(logu(lo, hi), logu(-1, 0.7), sig).map(list)
    if k == "Constant":
        return st.tuples(sig).map(list)
    if k == "s":
        return st.tuples(logu(-1, 1)).map(list)
    raise KeyError(k)


def params(struct, lo=-1.0, hi=1.0):
    return st.tuples(*[node_params(n, lo, hi) for n in nodes(struct)]).map(list)


def to_spec(struct, pars):
    """The oracle's description of the same kernel"""
    it = iter(pars)

    def go(s):
        if s[0] == "+":
            a = go(s[1])
            return {"k": "Sum", "a": a, "b": go(s[2])}
        if s[0] == "*":
            a = go(s[1])
            return {"k": "Product", "a": a, "b": go(s[2])}
        if s[0] == "s":
            c = next(it)[0]
            return {"k": "Scale", "a": go(s[1]), "c": c}
        p = dict(zip(LEAF_PARAMS[s[0]], next(it)))
        if s[0] == "ESS":
            p["order"] = s[1]
        return {"k": s[0], "p": p}

    return go(struct)


# -- times -------------------------------------------------------------------


def gap(huge=True, zero=True, tiny=-6):
    """A non-negative gap between consecutive times, in units of the time unit"""
    alts = [
        logu(-1.5, 0.7),
        logu(-1.5, 0.7),
        logu(-0.5, 1.5),
        logu(tiny, -1.5, step=8),
    ]
    if zero:
        alts.append(st.just(0.0))
    if huge:
        alts.append(logu(1.5, 5, step=8))
    return st.one_of(*alts)


def t_origin(big=4):
    return st.one_of(
        st.integers(-40, 40).map(lambda i: i / 8),
        st.integers(-40, 40).map(lambda i: i * 10.0 ** (big - 1) / 4),
    )


LONG = 40  # longer series repeat a drawn pattern (of coprime periods)


def tiled(strategy, n, period):
    """A list of n draws; long ones repeat the first `period` draws"""
    k = n if n <= LONG else period
    return st.lists(strategy, min_size=k, max_size=k).map(
        lambda x: (x * (n // k + 1))[:n] if n > k else x
    )


def order(n):
    """A permutation of n items"""
    if n <= LONG:
        return st.permutations(list(range(n)))
    ks = [k for k in (1, n - 1, 7, 11, n // 2 + 1, 3) if math.gcd(k, n) == 1]
    return st.tuples(st.sampled_from(ks), st.integers(0, n - 1)).map(
        lambda x: [(x[0] * i + x[1]) % n for i in range(n)]
    )


@st.composite
def sorted_times(draw, n, unit=1.0, huge=True, zero=True, big=4):
    t = draw(t_origin(big))
    out = [t * unit]
    for g in draw(tiled(gap(huge and n <= LONG, zero), n - 1, 7)):
        t = t + g
        out.append(t * unit)
    return out


def values(n, amp=1.0):
    return tiled(st.integers(-300, 300).map(lambda i: i / 100 * amp), n, 11)


def noise(mode, n, lo=-5, hi=1):
    """diag for mode 'scalar', 'vector' or 'default' (None)"""
    if mode == "default":
        return st.none()
    if mode == "scalar":
        return logu(lo, hi, step=8)
    return tiled(logu(lo, hi, step=8), n, 5)


def default_diag():
    return math.sqrt(2.220446049250313e-16)


@st.composite
def test_times(draw, t, m, unit=1.0, huge=True):
    """m test times relative to the (sorted) data times: on, near, between, outside"""
    n = len(t)
    out = []
    for _ in range(m):
        where = draw(
            st.sampled_from(["between", "between", "on", "before", "after", "near", "repeat"])
        )
        if where == "between" and n > 1:
            i = draw(st.integers(0, n - 2))
            f = draw(st.integers(1, 99)) / 100
            out.append(t[i] + f * (t[i + 1] - t[i]))
        elif where == "before":
            out.append(min(t) - unit * draw(gap(huge)))
        elif where == "after":
            out.append(max(t) + unit * draw(gap(huge)))
        elif where == "near":
            s = draw(st.sampled_from([-1, 1]))
            out.append(t[draw(st.integers(0, n - 1))] + s * unit * draw(logu(-6, -2, 4)))
        elif where == "repeat" and out:
            out.append(out[draw(st.integers(0, len(out) - 1))])
        else:
            out.append(t[draw(st.integers(0, n - 1))])
    return [float(x) for x in out]
