"""Shared pieces for the checks of integrated models."""

import numpy as np
from hypothesis import strategies as st

import gen
import oracle
from checks import inst
from common import EPS

CORE = [
    ["IExp"],
    ["IMatern32"],
    ["IMatern52"],
    ["ICosine"],
    ["ISHO"],
    ["+", ["ISHO"], ["IExp"]],
    ["s", ["ISHO"]],
    ["+", ["s", ["IMatern32"]], ["IMatern52"]],
    ["s", ["+", ["IExp"], ["ICosine"]]],
]


# long series: far more steps than any transient of the recursions
LONG = [
    (["+", ["IMatern52"], ["IExp"]], 75, 3, "lattice"),
    (["IMatern32"], 71, 1, "free"),
    (["ISHO"], 200, 2, "lattice"),
]


def long_slots(tier, examples, few=None, **kw):
    out = []
    for i, (s, n, k, lay) in enumerate(LONG[: few if tier == "quick" else None]):
        e = examples if n < 100 else max(examples // 3, 1)
        out.append(dict(struct=s, N=n, ninst=k, layout=lay, diag=["vector", "scalar"][i % 2],
                        mode="jit", solver=None, examples=e, **kw))
    return out


@st.composite
def free_layout(draw, n, huge=True):
    """One instrument: any exposure lengths and gaps (none negative)"""
    t = draw(st.integers(-40, 40)) / 8
    out = []
    gaps = st.one_of(
        gen.logu(-1.5, 0.7),
        st.just(0.0),
        gen.logu(0, 1.5),
        *([gen.logu(1.5, 4, step=8)] if huge and n <= gen.LONG else []),
    )
    lengths = st.one_of(
        gen.logu(-1.2, 0.5), gen.logu(-1.2, 0.5), st.just(0.0),
        gen.logu(-5, -1.2, step=8), gen.logu(0.5, 1.7),
    )
    for i, (g, d) in enumerate(draw(gen.tiled(st.tuples(gaps, lengths), n, 7))):
        s = t + (g if i else 0.0)
        t = s + d
        out.append(((s + t) / 2, d, 0))
    return out


LATTICE = 8  # lattice steps per time unit


@st.composite
def lattice_layout(draw, n, ninst):
    """Several instruments: edges on a lattice, so that the exposures of different
    instruments overlap, nest, abut, coincide or are well separated, but never start
    within a tiny fraction of the time scale of each other (see DESIGN.md)"""
    if n > gen.LONG:  # repeat a block
        block = draw(lattice_layout(9, ninst))
        ends = [t + d / 2 for t, d, _ in block] + [t - d / 2 for t, d, _ in block]
        step = max(ends) - min(ends) + draw(st.sampled_from([0, 1, 4])) / LATTICE
        full = [(t + k * step, d, i) for k in range(n // 9 + 1) for t, d, i in block]
        return full[:n]
    out = []
    clock = [draw(st.integers(-8, 8)) for _ in range(ninst)]
    for _ in range(n):
        i = draw(st.integers(0, ninst - 1))
        g = draw(st.sampled_from([0, 1, 3, 8, 0, 2, 20, 5]))
        d = draw(st.sampled_from([4, 8, 2, 0, 16, 1, 6, 40]))
        how = draw(st.sampled_from(["own", "own", "copy", "inside", "abut"]))
        s = clock[i] + g
        if how != "own" and out:
            s0, d0, _ = out[draw(st.integers(0, len(out) - 1))]
            if how == "copy" and s0 >= clock[i]:
                s, d = s0, d0
            elif how == "inside" and d0 >= 2 and s0 + 1 >= clock[i]:
                s, d = s0 + 1, max(d0 - 2, 0)
            elif how == "abut" and s0 + d0 >= clock[i]:
                s = s0 + d0
        clock[i] = s + d
        out.append((s, d, i))
    return [((s + d / 2) / LATTICE, d / LATTICE, i) for s, d, i in out]


def data_case(slot, huge=True, lo=-4):
    struct, n, m, ninst = slot["struct"], slot["N"], slot.get("M"), slot["ninst"]

    @st.composite
    def build(draw):
        unit = 10.0 ** draw(st.sampled_from([0, 0, 0, -1, 1]))
        if slot["layout"] == "free":
            lay = draw(free_layout(n, huge))
            pars = draw(gen.params(struct, -1 + np.log10(unit), 1 + np.log10(unit)))
        else:
            unit = 2.0 ** round(np.log2(unit))
            lay = draw(lattice_layout(n, ninst))
            pars = draw(gen.params(struct, -0.3 + np.log10(unit), 0.7 + np.log10(unit)))
        for leaf, p in zip(gen.nodes(struct), pars):
            if leaf[0] == "ICosine":  # no exposure of whole periods (see DESIGN.md)
                p[0] *= 1.0371
        order = draw(gen.order(n))
        case = {
            "params": pars,
            "t": [lay[i][0] * unit for i in order],
            "texp": [lay[i][1] * unit for i in order],
            "instid": [lay[i][2] for i in order],
            "diag": draw(gen.noise(slot["diag"], n, lo=lo)),
            "y": draw(gen.values(n, 10.0 ** draw(st.sampled_from([0, 0, -1, 1])))),
        }
        if m is not None:
            case["tt"] = draw(test_times(case, m, unit, huge))
        return case

    return build()


@st.composite
def test_times(draw, case, m, unit, huge):
    t, d = np.asarray(case["t"]), np.asarray(case["texp"])
    edges = sorted(set(np.concatenate([t - d / 2, t + d / 2, t]).tolist()))
    out = []
    for _ in range(m):
        where = draw(st.sampled_from(["inside", "between", "edge", "before", "after", "repeat"]))
        i = draw(st.integers(0, len(t) - 1))
        if where == "inside":
            f = draw(st.integers(-49, 49)) / 100
            out.append(t[i] + f * d[i])
        elif where == "between" and len(edges) > 1:
            j = draw(st.integers(0, len(edges) - 2))
            f = draw(st.integers(1, 9)) / 10
            out.append(edges[j] + f * (edges[j + 1] - edges[j]))
        elif where == "before":
            out.append(edges[0] - unit * draw(gen.gap(huge, tiny=-3)))
        elif where == "after":
            out.append(edges[-1] + unit * draw(gen.gap(huge, tiny=-3)))
        elif where == "repeat" and out:
            out.append(out[draw(st.integers(0, len(out) - 1))])
        else:
            out.append(edges[draw(st.integers(0, len(edges) - 1))])
    return [float(x) for x in out]


def reference(slot, case):
    spec = gen.to_spec(slot["struct"], case["params"])
    t, d = np.asarray(case["t"]), np.asarray(case["texp"])
    K = oracle.window_cov(spec, t, d, t, d)
    return spec, t, d, oracle.Dense(K, inst.diag_of(case), case["y"])


def rounding(D, spec, case):
    """Relative effect of rounding errors on a likelihood"""
    t, d = np.asarray(case["t"]), np.asarray(case["texp"])
    tmax = float(np.max(np.abs(t) + d))
    dpos = d[d > 0]
    edge = tmax / float(np.min(dpos)) if len(dpos) else 0.0
    edges = np.concatenate([t - d, t + d])
    return EPS * D.cond() * (1 + inst.phase(spec, edges) + edge)


def llh_tol(D, spec, case, c=200.0):
    return c * rounding(D, spec, case) * D.llh_terms()


def smoothing(D, spec, case):
    """Relative accuracy of smoothing, which inverts predicted covariances: these are nearly
    singular for states close to each other, however good the likelihood is (see DESIGN.md)"""
    t, d = np.asarray(case["t"]), np.asarray(case["texp"])
    edges = np.unique(np.concatenate([t - d / 2, t + d / 2]))
    steps = np.diff(edges)
    near = len(steps) and np.min(steps) < 1e-2 * np.median(steps)
    v = float(oracle.cov(spec, [0.0], [0.0])[0, 0])
    return (5e-5 if near else 1e-6) + 1e-10 * v / float(np.min(D.diag))


def tols(D, spec, case, kss, mu, c=200.0):
    """Tolerances of a mean and a variance with prior variances kss"""
    v = float(oracle.cov(spec, [0.0], [0.0])[0, 0])
    f = c * rounding(D, spec, case) + smoothing(D, spec, case)
    amp = max(float(np.max(np.abs(D.y), initial=0)), float(np.max(np.abs(mu), initial=0)))
    return f * (amp + np.sqrt(v)) + 1e-300, f * v + 1e-300


def jit_args(slot, case):
    import build
    import jax.numpy as jnp

    p = build.asarray(case["params"]) if slot["mode"] == "jit" else case["params"]
    dg = None if case["diag"] is None else jnp.asarray(case["diag"], float)
    X = (
        jnp.asarray(case["t"], float),
        jnp.asarray(case["texp"], float),
        jnp.asarray(case["instid"], int),
    )
    out = [p, X, dg, jnp.asarray(case["y"], float)]
    if "tt" in case:
        out.append(jnp.asarray(case["tt"], float))
    return tuple(out)


def layout_labels(case):
    t, d, i = (np.asarray(case[k]) for k in ("t", "texp", "instid"))
    s, e = t - d / 2, t + d / 2
    out = []
    n = len(t)
    iu = np.triu_indices(n, 1)
    diff = (i[:, None] != i[None, :])[iu]
    lo = np.maximum(s[:, None], s[None, :])[iu]
    hi = np.minimum(e[:, None], e[None, :])[iu]
    if np.any(diff & (lo < hi)):
        out.append("overlapping exposures")
    same = (s[:, None] == s[None, :]) & (e[:, None] == e[None, :]) & (d > 0)[:, None]
    if np.any(diff & same[iu]):
        out.append("coincident exposures")
    if np.any(d == 0):
        out.append("zero exposure")
    if np.any(d == 0) and np.any(d > 0):
        out.append("mixed zero and positive exposures")
    # back-to-back exposures of one instrument
    o = np.lexsort((t, i))
    ab = (i[o][1:] == i[o][:-1]) & (np.abs(s[o][1:] - e[o][:-1]) < 1e-12 * (1 + np.abs(t[o][1:])))
    if np.any(ab & (d[o][1:] > 0) & (d[o][:-1] > 0)):
        out.append("back-to-back exposures")
    if np.any(np.diff(t) < 0):
        out.append("unsorted data")
    if len(set(i.tolist())) > 1:
        out.append("several instruments")
    return out


def labels(slot, case):
    return (
        layout_labels(case)
        + inst.param_labels(slot["struct"], case["params"])
        + [f"diag {slot['diag']}", f"mode {slot['mode']}", f"layout {slot['layout']}"]
    )


def nontrivial(slot, case):
    t, d = np.asarray(case["t"]), np.asarray(case["texp"])
    return bool(np.any(d > 0) and len(t) > 1 and np.any(case["y"]))


RULE = (
    "A case is a kernel structure (slot), hyperparameters, exposure midpoints, lengths and "
    "instruments in any order, noise and data; non-trivial if there are at least two "
    "observations, at least one of positive exposure, and non-zero data."
)
