"""C22: user-defined kernels and observation models are handled exactly."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
import slots as slotgen
import ssm
from checks import inst, integ
from common import EPS, sut

RULE = (
    "A case is a model with user-defined parts (slot) and its matrices, gains and "
    "hyperparameters, data (with labels or exposures), noise, test times and an observation "
    "model for predictions; non-trivial if the data are correlated and non-zero."
)
ASSUMPTIONS = [
    "covariances of the linear Gaussian models that the matrices describe, by 80-bit matrix "
    "exponentials, and dense regression with them",
    "the states of the provided kernels are the process and its derivatives, as in the tutorial",
]
#   ["U", d, m, style]  matrices alone     ["D", kernel]  linear combination of derivatives
#   ["G", inner]  gain varying in time     ["X", inner]   gain by label
#   ["R", base]   a combination of the states for each label, e.g. value and derivative
#   ["I", base]   integrated model
CORE = [
    ["U", 1, 1, ""], ["U", 2, 1, ""], ["U", 3, 2, ""], ["U", 2, 2, "V"], ["U", 4, 1, ""],
    ["D", "Matern52"], ["G", ["Matern32"]], ["G", ["U", 2, 1, ""]],
    ["+", ["U", 2, 1, ""], ["SHO"]], ["*", ["U", 2, 1, ""], ["Exp"]],
    ["+", ["D", "SHO"], ["s", ["Matern32"]]], ["s", ["G", ["+", ["Exp"], ["Cosine"]]]],
    ["+", ["G", ["Matern52"]], ["*", ["Cosine"], ["D", "Matern32"]]],
]
LABELLED = [
    ["X", ["SHO"]], ["+", ["X", ["U", 2, 1, ""]], ["Exp"]], ["+", ["Exp"], ["X", ["D", "Matern52"]]],
    ["*", ["X", ["Matern32"]], ["Exp"]], ["X", ["U", 2, 2, "S"]],
    ["R", "Matern52"], ["+", ["R", "SHO"], ["Exp"]], ["R", ["U", 2, 1, ""]], ["s", ["R", "Matern32"]],
    ["*", ["R", ["U", 3, 2, ""]], ["Exp"]],
]
ICORE = [
    ["I", ["U", 1, 1, ""]], ["I", ["U", 2, 1, ""]], ["I", ["U", 3, 2, ""]],
    ["G", ["I", ["Matern32"]]], ["+", ["I", ["U", 2, 1, ""]], ["ISHO"]],
    ["I", ["+", ["Exp"], ["SHO"]]], ["I", ["*", ["SHO"], ["Cosine"]]], ["I", ["D", "Matern52"]],
    ["s", ["I", ["s", ["U", 2, 1, ""]]]],
]
MODES = ["scalar", "vector", "default"]
LABELS = 3


def slots(tier, seed):
    out = []
    S, I = ["seq", "par"], ["iseq", "ipar"]
    big = tier != "quick"
    for i, s in enumerate(CORE):
        for sv in S if big else [S[(i + seed) % 2]]:
            out.append(dict(struct=s, N=4 + i % 3, M=3, diag=MODES[i % 3], solver=sv, mode="jit"))
    for i, s in enumerate(LABELLED):
        for sv in S if big else [S[(i + seed) % 2]]:
            out.append(dict(struct=s, N=5, M=3, diag=MODES[i % 2], solver=sv, mode="jit",
                            labels=LABELS))
    for i, s in enumerate(ICORE):
        for sv in I if big else [I[(i + seed) % 2]]:
            out.append(dict(struct=s, N=4, M=2, ninst=1 + i % 2, diag=MODES[i % 2], solver=sv,
                            layout=["free", "lattice"][i % 2], mode="jit"))
    for i, s in enumerate([["U", 2, 1, ""], ["G", ["D", "Matern52"]]]):
        out.append(dict(struct=s, N=4, M=2, diag=MODES[i], solver=S[i], mode="eager"))
    # random combinations
    leaf = st.one_of(
        st.tuples(st.just("U"), st.integers(1, 3), st.integers(1, 2), st.just("")).map(list),
        st.sampled_from([["D", "Matern32"], ["D", "Matern52"], ["D", "SHO"],
                         ["R", "Matern32"], ["R", ["U", 2, 1, ""]]]),
        st.sampled_from([["Exp"], ["SHO"], ["Matern32"], ["Cosine"]]),
    ).filter(lambda s: s[0] != "U" or s[2] <= s[1])
    comb = st.recursive(
        leaf,
        lambda c: st.one_of(
            st.tuples(st.just("+"), c, c).map(list), st.tuples(st.just("*"), c, c).map(list),
            st.tuples(st.just("s"), c).map(list), st.tuples(st.just("G"), c).map(list),
            st.tuples(st.just("X"), c).map(list)),
        max_leaves=3,
    ).filter(lambda s: dim(s) <= 8 and ('"U"' in repr(s).replace("'", '"') or len(s) > 1))
    rnd = st.tuples(comb, st.sampled_from(S), st.sampled_from([1, 3, 6]), st.sampled_from(MODES))
    for s, sv, n, dg in slotgen.draw(rnd, 6 if not big else 100, seed):
        sl = dict(struct=s, N=n, M=3, diag=dg, solver=sv, mode="jit")
        if "X" in str(s) or "'R'" in str(s):
            sl["labels"] = LABELS
        out.append(sl)
    for s in out:
        s["examples"] = 4 if s["mode"] == "eager" else 25 if "ninst" in s else 40
        s["examples"] *= 8 if big and s["mode"] == "jit" else 1
        s["cost"] = dim(s["struct"]) + (30 if "ninst" in s else 0)
    return out


def dim(s):
    if s[0] == "U":
        return s[1]
    if s[0] in ("D", "R"):
        return dim(s[1]) if isinstance(s[1], list) else gen.DIM[s[1]]
    if s[0] == "+":
        return dim(s[1]) + dim(s[2])
    if s[0] == "*":
        return dim(s[1]) * dim(s[2])
    if s[0] in ("s", "G", "X", "I"):
        return dim(s[1])
    return gen.DIM[s[0]]


def nodes(s):
    """Nodes with parameters, in pre-order"""
    if s[0] in ("U", "D", "R") or s[0] in gen.DIM:
        return [s]
    return ([s] if s[0] in ("s", "G", "X") else []) + [n for a in s[1:] for n in nodes(a)]


num = st.integers(-8, 8).map(lambda i: i / 4)


@st.composite
def matrices(draw, d, m, unit):
    n = lambda *s: np.array([draw(num) for _ in range(int(np.prod(s)))]).reshape(s)
    amp = draw(gen.logu(-0.7, 0.7, step=8))
    rate = draw(gen.logu(-0.7, 0.7, step=8)) / unit
    B = np.tril(n(d, d), -1) / 2 + np.diag(0.75 + np.abs(n(d)))
    P = B @ B.T
    L = n(d, m)
    if not np.any(L):
        L[-1, 0] = 1.0
    C = np.tril(n(m, m), -1) + np.diag(0.5 + np.abs(n(m)))
    Qc = C @ C.T
    skew = np.triu(n(d, d), 1)
    F = (skew - skew.T - L @ Qc @ L.T / 2) @ np.linalg.inv(P)
    H = n(d)
    if not np.any(H):
        H[0] = 1.0
    return [(rate * F).tolist(), (amp**2 * P).tolist(), L.tolist(),
            (rate * amp**2 * Qc).tolist(), H.tolist()]


@st.composite
def node_params(draw, s, unit):
    e = float(np.log10(unit))
    if s[0] == "U":
        return draw(matrices(s[1], s[2], unit))
    if s[0] == "D":
        p = draw(gen.node_params([s[1]], -0.7 + e, 0.7 + e))
        c = [draw(num) for _ in range(gen.DIM[s[1]])]
        if not any(c):
            c[1] = 1.0
        scale = 1 / p[0] if s[1] == "SHO" else p[0]
        return [p, [x * scale**i for i, x in enumerate(c)]]
    if s[0] == "R":
        base = s[1] if isinstance(s[1], list) else [s[1]]
        p = draw(node_params(base, unit))
        scale = 1.0 if base[0] == "U" else 1 / p[0] if base[0] == "SHO" else p[0]
        rows = []
        for _ in range(LABELS):
            c = [draw(num) for _ in range(dim(s))]
            if not any(c):
                c[0] = 1.0
            rows.append([x * scale**i for i, x in enumerate(c)])
        return [p, rows]
    if s[0] == "G":
        return [draw(num), draw(num) + 0.125, draw(num) / unit, draw(num)]
    if s[0] == "X":
        return [draw(num) + 0.125 for _ in range(LABELS)]
    p = draw(gen.node_params(s, -0.7 + e, 0.7 + e))
    if s[0] in ("Cosine", "ICosine"):
        p[0] *= 1.0371
    return p


def strategy(slot):
    st_, n, m = slot["struct"], slot["N"], slot["M"]

    @st.composite
    def build(draw):
        if "ninst" in slot:
            sub = dict(slot, struct=["IExp"])
            case = draw(integ.data_case(sub, huge=False))
            span = max(np.max(np.abs(case["t"])), 1e-3)
            unit = 1.0
            d = np.array(case["texp"])
            if np.any(d > 0):
                unit = 10.0 ** round(float(np.log10(np.median(d[d > 0]))))
            del span
        else:
            unit = 10.0 ** draw(st.sampled_from([0, 0, 0, -1, 1]))
            case = {
                "t": draw(gen.sorted_times(n, unit, huge="V" not in str(st_), big=3)),
                "diag": draw(gen.noise(slot["diag"], n, lo=-4)),
                "y": draw(gen.values(n, 10.0 ** draw(st.sampled_from([0, 0, -1, 1])))),
            }
            case["tt"] = draw(gen.test_times(case["t"], m, unit, "V" not in str(st_)))
        case["params"] = [draw(node_params(s, unit)) for s in nodes(st_)]
        if "V" in str(st_):  # the Van Loan integral is accurate for short lags only
            f = max(np.max(np.abs(p[0])) for s, p in zip(nodes(st_), case["params"])
                    if s[0] == "U")
            both = case["t"] + case["tt"]
            shrink = min(1.0, 4 / (f * (max(both) - min(both)) + 1e-9))
            for k in ("t", "tt"):
                case[k] = [x * shrink for x in case[k]]
        if slot.get("labels"):
            case["label"] = [draw(st.integers(0, LABELS - 1)) for _ in range(n)]
            case["tlabel"] = [draw(st.integers(0, LABELS - 1)) for _ in range(m)]
        case["obs"] = [draw(num) for _ in range(dim(st_))]
        return case

    return build()


# ---------------------------------------------------------------------------
# the code under test


def kernel(struct, params, ninst):
    import build
    import jax.numpy as jnp
    import users

    it = iter(params)

    def go(s):
        if s[0] == "+":
            a = go(s[1])
            return a + go(s[2])
        if s[0] == "*":
            a = go(s[1])
            return a * go(s[2])
        if s[0] == "s":
            c = next(it)[0]
            return c * go(s[1])
        if s[0] == "U":
            cls = {"": users.User, "V": users.VanLoanUser, "S": users.SwappedUser}[s[3]]
            return cls(*(jnp.asarray(x) for x in next(it)))
        if s[0] == "D":
            p, c = next(it)
            return users.Derivatives(build.leaf(s[1], p), jnp.asarray(c))
        if s[0] == "R":
            p, rows = next(it)
            base = (users.User(*(jnp.asarray(x) for x in p)) if isinstance(s[1], list)
                    else build.leaf(s[1], p))
            return users.Sensors(base, jnp.asarray(rows))
        if s[0] == "G":
            p = jnp.asarray(next(it))
            return users.Gain(go(s[1]), p)
        if s[0] == "X":
            p = jnp.asarray(next(it))
            return users.Channels(go(s[1]), p)
        if s[0] == "I":
            return users.Integrated(go(s[1]), num_insts=ninst)
        return build.leaf(s[0], next(it), ninst)

    return go(struct)


def swapped(slot):
    return '"S"' in str(slot["struct"]).replace("'", '"')


def prepare(slot):
    import build
    import jax.numpy as jnp

    if swapped(slot):
        # only the labels of a gain follow the swapped convention
        import users

        class Channels(users.Channels):
            def observation_matrix(self, X):
                return self.gains[X[0]] * self.kernel.observation_matrix(X)
    else:
        Channels = None

    def model(params, t, extra, diag, y, tt, textra, obs):
        kern = kernel(slot["struct"], params, slot.get("ninst", 1))
        if Channels is not None:
            kern = Channels(kern.kernel, kern.gains)
        X, Xt = t, tt
        if "ninst" in slot:
            X = (t, *extra)
        elif slot.get("labels"):
            X, Xt = (t, extra), (tt, textra)
            if swapped(slot):
                X, Xt = X[::-1], Xt[::-1]
        kw = {} if diag is None else {"diag": diag}
        gp = build.GP(kern, X, solver=build.SOLVERS[slot["solver"]], **kw)
        res = gp.condition(y)
        out = {"llh": gp.log_probability(y), "cond": res.log_probability, "loc": res.gp.loc,
               "var": res.gp.variance,
               "pred": res.gp.predict(Xt, return_var=True),
               "comps": [tuple(v) for v in res.gp.get_all_component_means(return_var=True).values()]}
        if "ninst" not in slot:
            at = gp.condition(y, Xt)
            out["at"] = (at.gp.loc, at.gp.variance)
        row = obs[None, :]

        def watch(X):  # of the whole state, growing in time
            return (1 + (X if not isinstance(X, tuple) else X[1 if swapped(slot) else 0]) * 0) * row

        out["obs"] = res.gp.predict(Xt, return_var=True, observation_model=watch)
        # at the data (of integrated models: when the exposures end)
        out["obs data"] = res.gp.predict(return_var=True, observation_model=watch)
        out["obs direct"] = gp.predict(None, y, return_var=True, observation_model=watch)
        if "ninst" not in slot:
            out["obs at"] = at.gp.predict(return_var=True, observation_model=watch)
            out["K"] = kern(X, X)
            out["Kt"] = kern(Xt, X)
            out["kd"] = kern(X)
        return out

    return jax.jit(model) if slot["mode"] == "jit" else model


# ---------------------------------------------------------------------------
# the reference


def reference_parts(slot, case):
    """The additive components: (F, P, row(t, label), integrated?, offset of its states)"""
    it = iter(case["params"])
    ld = ssm.ld
    n = slot.get("ninst", 0)

    def whole(s):
        """A single system (F, P, row)"""
        if s[0] == "U":
            F, P, _, _, H = next(it)
            return ld(F), ld(P), lambda t, l: ld(H)
        if s[0] == "D":
            p, c = next(it)
            F, P, _ = ssm.provided(s[1], p)
            return F, P, lambda t, l: ld(c)
        if s[0] == "R":
            p, rows = next(it)
            F, P = (ld(p[0]), ld(p[1])) if isinstance(s[1], list) else ssm.provided(s[1], p)[:2]
            return F, P, lambda t, l: ld(rows[l])
        if s[0] == "G":
            a, b, c, p = (ssm.LD(x) for x in next(it))
            F, P, h = whole(s[1])
            return F, P, lambda t, l: (a + b * np.cos(c * ssm.LD(t) + p)) * h(t, l)
        if s[0] == "X":
            g = next(it)
            F, P, h = whole(s[1])
            return F, P, lambda t, l: ssm.LD(g[l]) * h(t, l)
        if s[0] == "s":
            c = ssm.LD(next(it)[0])
            F, P, h = whole(s[1])
            return F, c * P, h
        if s[0] == "+":
            F, P, h = whole(s[1])
            G, R, g = whole(s[2])
            return (ssm.blkdiag(F, G), ssm.blkdiag(P, R),
                    lambda t, l: np.concatenate([h(t, l), g(t, l)]))
        if s[0] == "*":
            F, P, h = whole(s[1])
            G, R, g = whole(s[2])
            I, J = np.eye(len(F), dtype=ssm.LD), np.eye(len(G), dtype=ssm.LD)
            return (ssm.kron(F, J) + ssm.kron(I, G), ssm.kron(P, R),
                    lambda t, l: np.kron(h(t, l), g(t, l)))
        F, P, h = ssm.provided(s[0].lstrip("I") if s[0] != "I" else s[0], next(it))
        return F, P, lambda t, l: h

    def go(s, scale, gain):
        """Additive components of integrated models (the gain applies after integration)"""
        if s[0] == "+":
            return go(s[1], scale, gain) + go(s[2], scale, gain)
        if s[0] == "s":
            return go(s[1], scale * ssm.LD(next(it)[0]), gain)
        if s[0] == "G":
            a, b, c, p = (ssm.LD(x) for x in next(it))
            return go(s[1], scale, lambda t: gain(t) * (a + b * np.cos(c * ssm.LD(t) + p)))
        F, P, h = whole(s[1] if s[0] == "I" else s)
        return [(F, scale * P, h, gain, True)]

    s = slot["struct"]
    if n:
        return go(s, ssm.LD(1), lambda t: ssm.LD(1))

    def split(s, scale):
        if s[0] == "+":
            return split(s[1], scale) + split(s[2], scale)
        F, P, h = whole(s)
        return [(F, scale * P, h, None, False)]

    return split(s, ssm.LD(1))


def obs_mask(s):
    """States whose sign or meaning is documented"""
    if s[0] == "U":
        return [1] * s[1]
    if s[0] in ("D", "R"):
        return [1] * dim(s)
    if s[0] == "+":
        return obs_mask(s[1]) + obs_mask(s[2])
    if s[0] == "*":
        return [a * b for a in obs_mask(s[1]) for b in obs_mask(s[2])]
    if s[0] in ("s", "G", "X", "I"):
        return obs_mask(s[1])
    return [1, 0] if s[0].endswith("Cosine") else [1] * gen.DIM[s[0]]


def check(slot, case, run, ctx):
    import jax.numpy as jnp

    n_inst = slot.get("ninst", 0)
    t, tt = np.asarray(case["t"], float), np.asarray(case["tt"], float)
    N, M = len(t), len(tt)
    d = np.asarray(case["texp"], float) if n_inst else np.zeros(N)
    lab = case.get("label", [0] * N)
    tlab = case.get("tlabel", [0] * M)
    parts = reference_parts(slot, case)
    a, b = t - d / 2, t + d / 2
    comps = []
    obs_rows = []
    K = Ks = Ko = Kd = 0
    kss = koo = kdd = 0
    mask = obs_mask(slot["struct"])
    w = np.array(case["obs"]) * mask
    i = 0
    rate = cP = 0.0
    for F, P, h, gain, integrated in parts:
        row0 = h(0.0, 0) if integrated else None
        pr = ssm.Process(F, P, row0, np.concatenate([a, b, t, tt]))
        dF = len(F)
        row = w[i : i + dF] / pr.sd.astype(float)
        i += dF
        obs_rows.append(np.concatenate([row, np.zeros(n_inst)]))
        if integrated:
            g = [gain(x) for x in t]
            R = [g[k] * (pr.average(a[k], b[k]) if d[k] > 0 else pr.value(row0, t[k]))
                 for k in range(N)]
            T = [gain(x) * pr.value(row0, x) for x in tt]
        else:
            R = [pr.value(h(t[k], lab[k]), t[k]) for k in range(N)]
            T = [pr.value(h(tt[k], tlab[k]), tt[k]) for k in range(M)]
        O = [pr.value(row, x) for x in tt]
        E = [pr.value(row, x) for x in b]
        K = K + pr.cov(R, R)
        Ks = Ks + pr.cov(T, R)
        Ko = Ko + pr.cov(O, R)
        Kd = Kd + pr.cov(E, R)
        kdd = kdd + np.diag(pr.cov(E, E))
        kss = kss + np.diag(pr.cov(T, T))
        koo = koo + np.diag(pr.cov(O, O))
        comps.append(pr.cov(R, R))
        Fn = np.abs(F / pr.sd[:, None] * pr.sd).astype(float)
        rate = max(rate, float(np.max(Fn.sum(axis=0))))
        cP = max(cP, float(np.linalg.cond((P / pr.sd[:, None] / pr.sd).astype(float))))
    diag = np.broadcast_to(inst.diag_of(case), (N,))
    D = oracle.Dense(K, diag, case["y"])
    obs = np.concatenate(obs_rows)
    # arguments
    J = jnp.asarray
    extra = (J(d), J(case["instid"])) if n_inst else J(lab)
    dg = None if case["diag"] is None else J(np.asarray(case["diag"], float))
    params = jax.tree_util.tree_map(float, case["params"])
    if slot["mode"] == "jit":
        params = jax.tree_util.tree_map(J, params)
    with sut("model"):
        out = run(params, J(t), extra, dg, J(np.asarray(case["y"], float)), J(tt), J(tlab), J(obs))
        out = jax.tree_util.tree_map(lambda v: np.asarray(v, float), out)
    span = max(np.max(b), np.max(tt)) - min(np.min(a), np.min(tt))
    tmax = max(np.max(np.abs(a)), np.max(np.abs(b)), np.max(np.abs(tt)))
    prior = float(max(np.max(np.diag(K)), np.max(kss), 1e-300))
    # before the gains cancel, and with the phases of their oscillations
    top, gains = bounds(slot, case, lab, tlab)
    rate += gains
    rel = 1000 * EPS * (D.n * max(prior, top) / float(np.min(diag)) + 1) * cP
    rel *= 1 + min(rate * span, 1e3) + rate * tmax
    if "V" in str(slot["struct"]):
        rel *= 100
    dpos = d[d > 0]
    if len(dpos):
        rel *= 1 + tmax / float(np.min(dpos))
    ctx.close("log probability", out["llh"], D.llh, rel * D.llh_terms())
    ctx.close("log probability of conditioning", out["cond"], D.llh, rel * D.llh_terms())
    sm = rel
    if n_inst:
        sm += (5e-5 if near(a, b) else 1e-6) + 1e-10 * max(prior, top) / float(np.min(diag))
    amp = max(float(np.max(np.abs(case["y"]))), 1e-300)

    def same(what, got, cross, own):
        mu, var = D.predict(cross, own)
        v = max(float(np.max(own, initial=0)), prior)
        s = amp + float(np.max(np.abs(mu), initial=0)) + np.sqrt(v)
        ctx.close(f"mean {what}", got[0], mu, sm * s * max(1, np.sqrt(v / prior)) + 1e-300)
        ctx.close(f"variance {what}", got[1], var, sm * v + 1e-300)

    same("at the data", (out["loc"], out["var"]), K, np.diag(K))
    same("at test points", out["pred"], Ks, kss)
    if "at" in out:
        same("of the model conditioned at test points", out["at"], Ks, kss)
    same("of another observation model", out["obs"], Ko, koo)
    same("of another observation model at the data", out["obs data"], Kd, kdd)
    same("of another observation model at the data", out["obs direct"], Kd, kdd)
    if "obs at" in out:
        same("of another observation model where conditioned", out["obs at"], Ko, koo)
    ctx.require(len(out["comps"]) == len(comps),
                f"{len(out['comps'])} components, expected {len(comps)}")
    for got, c in zip(out["comps"], comps):
        same("of a component", got, c, np.diag(c))
    if "K" in out:
        kt = 100 * EPS * top * cP * (1 + min(rate * span, 1e3) + rate * tmax)
        ctx.close("kernel function", out["K"], K.astype(float), kt)
        ctx.close("kernel function", out["Kt"], Ks.astype(float), kt)
        ctx.close("variances", out["kd"], np.diag(K).astype(float), kt)


def near(a, b):
    edges = np.unique(np.concatenate([a, b]))
    steps = np.diff(edges)
    return len(steps) > 0 and np.min(steps) < 1e-2 * np.median(steps)


def bounds(slot, case, lab, tlab):
    """Variance of the components with all gains at their largest, and their frequency"""
    which = nodes(slot["struct"])
    flat = [[abs(p[0]) + abs(p[1]), 0.0, 0.0, 0.0] if s[0] == "G" else p
            for s, p in zip(which, case["params"])]
    top = 0.0
    for F, P, h, gain, _ in reference_parts(slot, dict(case, params=flat)):
        g = float(gain(0.0)) if gain else 1.0
        for l in set(lab) | set(tlab):
            row = h(0.0, l)
            top = max(top, g * g * float(row @ P @ row))
    freq = sum(abs(p[2]) for s, p in zip(which, case["params"]) if s[0] == "G")
    return top, freq


def nontrivial(slot, case):
    if "ninst" in slot:
        return integ.nontrivial(slot, case)
    return inst.correlated(case)


def labels(slot, case):
    out = [f"solver:{slot['solver']}", "integrated" if "ninst" in slot else "instantaneous"]
    s = str(slot["struct"])
    for key, what in (("'U'", "matrices alone"), ("'D'", "derivatives"), ("'G'", "gain in time"),
                      ("'X'", "gain by label"),
                      ("'R'", "states by label"), ("'I'", "integrated base"), ("'V'", "Van Loan")):
        if key in s:
            out.append(what)
    return out
