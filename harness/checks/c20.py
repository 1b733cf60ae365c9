"""C20: predicted, filtered and smoothed states mean what they say."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import lds
import oracle
import slots as slotgen
from checks import inst, integ
from common import sut

RULE = (
    "A case is a model (slot), hyperparameters, data times (or exposures) and noise, the data, "
    "and a change of the later part of the data; non-trivial if the data are correlated and "
    "non-zero and the changed part is neither empty nor everything."
)
ASSUMPTIONS = [
    "posteriors given every prefix of the data by dense regression in 80-bit arithmetic; the "
    "coordinates of the state vector are read off the kernel's own drift, stationary covariance "
    "and observation matrices (C12 decides these)",
]
MODES = ["scalar", "vector", "default"]
KINDS = ("predicted", "filtered", "smoothed")


def slots(tier, seed):
    out = []
    S = ["seq", "par"]
    core = [s for s in inst.CORE if s not in (["ESS", 1], ["ESS", 5])]
    for i, s in enumerate(core):
        out.append(dict(struct=s, N=4 + i % 4, diag=MODES[i % 3], solver=S[(i + seed) % 2],
                        mode="jit", examples=40))
    for i, s in enumerate([["SHO"], ["Matern52"], ["+", ["Exp"], ["Cosine"]], ["Exp"]]):
        out.append(dict(struct=s, N=[1, 2, 13, 9][i], diag=MODES[i % 2], solver=S[(i + seed) % 2],
                        mode="jit", examples=30))
    for i, s in enumerate([["Matern32"], ["*", ["Exp"], ["SHO"]]]):
        out.append(dict(struct=s, N=4, diag=MODES[i], solver=S[i], mode="eager", examples=4))
    I = ["iseq", "ipar"]
    for i, s in enumerate(integ.CORE):
        out.append(dict(struct=s, N=4 + i % 3, ninst=1 if i % 3 == 0 else 2,
                        layout="free" if i % 3 == 0 else "lattice",
                        diag=MODES[i % 3], solver=I[(i + seed) % 3 % 2], mode="jit", examples=40))
    out.append(dict(struct=["ISHO"], N=7, ninst=3, layout="lattice", diag="vector",
                    solver="iseq", mode="jit", examples=40))
    rnd = st.tuples(
        gen.structure(max_leaves=3, max_dim=10),
        st.sampled_from([3, 5, 8]),
        st.sampled_from(MODES),
        st.sampled_from(S),
    )
    for s, n, d, sv in slotgen.draw(rnd, 10 if tier == "quick" else 120, seed):
        out.append(dict(struct=s, N=n, diag=d, solver=sv, mode="jit", examples=40))
    if tier != "quick":
        rnd = st.tuples(
            gen.structure(kinds=gen.INTEG, max_leaves=3, max_dim=8, ops=("+", "s")),
            st.sampled_from([3, 6]),
            st.sampled_from([1, 2, 3]),
            st.sampled_from(MODES),
            st.sampled_from(I),
        )
        for s, n, k, d, sv in slotgen.draw(rnd, 40, seed):
            out.append(dict(struct=s, N=n, ninst=k, layout="free" if k == 1 else "lattice",
                            diag=d, solver=sv, mode="jit", examples=40))
    for s in out:
        s["cost"] = gen.dim(s["struct"], s.get("ninst", 0)) + (25 if s["solver"] == "ipar" else 0)
        s["examples"] *= 1 if tier == "quick" else 4
    return out


def strategy(slot):
    if "ninst" in slot:
        base = integ.data_case(slot, huge="ICosine" not in gen.show(slot["struct"]))
    else:
        base = inst.data_case(slot)

    @st.composite
    def build(draw):
        case = draw(base)
        n = slot["N"]
        case["cut"] = draw(st.integers(0, n))
        case["later"] = draw(gen.values(n, 10.0 ** draw(st.sampled_from([0, 1, 3]))))
        return case

    return build()


def prepare(slot):
    import jax.numpy as jnp

    integrated = "ninst" in slot

    def states(gp, y):
        r = gp.condition(y)
        s = r.gp.states
        out = {k: (getattr(s, k + "_mean"), getattr(s, k + "_cov")) for k in KINDS}
        out["llh"] = r.log_probability
        return s, out

    def f(params, X, diag, y, y2):
        gp = inst.make_gp(slot, params, X, diag)
        s, a = states(gp, y)
        _, b = states(gp, y2)
        k = gp.kernel
        out = {"a": a, "b": b, "llh": gp.log_probability(y)}
        if integrated:
            out.update(t=s.t_states, obs=s.obsid, kind=s.stateid)
            z = jnp.zeros(())
            out["Hz"] = k.observation_model((z, z, jnp.zeros((), int)))
            out["H"] = jax.vmap(k.observation_model)(X)
        else:
            out["H"] = jax.vmap(k.observation_model)(X)
            out["F"] = k.design_matrix()
            P = k.stationary_covariance()
            out["Pinf"] = P.to_dense() if hasattr(P, "to_dense") else P
        return out

    return jax.jit(f) if slot["mode"] == "jit" else f


def changed(slot, case, end_rank):
    """The data after the cut (in the order of processing) replaced"""
    return [v if end_rank[i] < case["cut"] else w
            for i, (v, w) in enumerate(zip(case["y"], case["later"]))]


def check(slot, case, run, ctx):
    (check_integrated if "ninst" in slot else check_inst)(slot, case, run, ctx)


def chain(ctx, out, H, R, y, order, at, tol):
    """Log probability as the sum of the one-step-ahead predictive log densities"""
    m, P = out["a"]["predicted"]
    tot = 0.0
    for n in order:
        h = H[n].reshape(-1)
        S = float(h @ P[at[n]] @ h + R[n])
        v = y[n] - float(h @ m[at[n]])
        tot -= 0.5 * (v * v / S + np.log(2 * np.pi * S))
    ctx.close("sum of the predictive log densities", tot, out["llh"], tol)


def check_inst(slot, case, run, ctx):
    import jax.numpy as jnp

    spec, t, D = inst.reference(slot, case)
    n = len(t)
    y = np.asarray(case["y"])
    y2 = np.asarray(changed(slot, case, np.arange(n)))
    args = inst.jit_args(slot, case)
    with sut("condition"):
        out = jax.tree_util.tree_map(np.asarray, run(*args, jnp.asarray(y2)))
    c = 3000.0 if slot["solver"] == "par" else 300.0
    R = np.broadcast_to(inst.diag_of(case), (n,))
    tl = inst.llh_tol(D, spec, t, c)
    ctx.close("log_probability", out["llh"], D.llh, tl)
    chain(ctx, out, out["H"], R, y, range(n), np.arange(n), 3 * tl)

    # the reference: joint Gaussian of every state and every observation
    F, Pinf = lds.ld(out["F"]), lds.ld(out["Pinf"])
    H = [lds.ld(h).reshape(-1) for h in out["H"]]
    sd = np.sqrt(np.diag(Pinf).astype(float))
    cross = {}

    def C(k, j):  # Cov(x(t_k), y_j)
        tau = float(t[k] - t[j])
        if tau not in cross:
            A = lds.expm(F, abs(tau))
            cross[tau] = A @ Pinf if tau >= 0 else Pinf @ A.T
        return cross[tau] @ H[j]

    L, w = D.L, D.w
    f = c * inst.rounding(D, spec, t)
    v0 = float(np.max(np.diag(D.K)))
    for k in range(n):
        B = np.array([C(k, j) for j in range(n)])  # n x d
        for which, upto in (("predicted", k), ("filtered", k + 1), ("smoothed", n)):
            V = oracle.solve_lower(L[:upto, :upto], B[:upto])
            mu = (V.T @ w[:upto]).astype(float)
            P = (Pinf - V.T @ V).astype(float)
            amp = max(float(np.max(np.abs(y))) / np.sqrt(v0), 1.0, float(np.max(np.abs(mu / sd))))
            m, S = out["a"][which]
            ctx.close(f"{which} state mean", m[k] / sd, mu / sd, 3 * f * amp)
            ctx.close(f"{which} state covariance", S[k] / np.outer(sd, sd),
                      P / np.outer(sd, sd), 3 * f)
    grow(ctx, out["a"], sd, 3 * f)
    # later data
    big = max(1.0, float(np.max(np.abs(y2))) / np.sqrt(v0), float(np.max(np.abs(y))) / np.sqrt(v0))
    cut = case["cut"]
    tolm = 3 * f * big
    for which, upto in (("predicted", cut + 1), ("filtered", cut)):
        ctx.close(f"{which} state mean and later data", out["b"][which][0][:upto] / sd,
                  out["a"][which][0][:upto] / sd, tolm)
    for which in KINDS:
        ctx.close(f"{which} state covariance and other data",
                  out["b"][which][1] / np.outer(sd, sd), out["a"][which][1] / np.outer(sd, sd),
                  3 * f)


def grow(ctx, states, sd, tol):
    """Uncertainty never grows when data are added"""
    scale = np.outer(sd, sd)
    for a, b in (("predicted", "filtered"), ("filtered", "smoothed")):
        for Pa, Pb in zip(states[a][1] / scale, states[b][1] / scale):
            low = float(np.min(np.linalg.eigvalsh((Pa - Pb + Pa.T - Pb.T) / 2)))
            ctx.close(f"loss of uncertainty from {a} to {b}", min(low, 0.0), 0.0, tol * len(sd))


def check_integrated(slot, case, run, ctx):
    import jax.numpy as jnp

    spec, t, d, D = integ.reference(slot, case)
    n = len(t)
    y = np.asarray(case["y"])
    end = t + d / 2
    end_rank = np.empty(n, int)
    # ends closer than rounding are processed in either order: cut elsewhere
    order = np.argsort(end, kind="stable")
    end_rank[order] = np.arange(n)
    y2 = np.asarray(changed(slot, case, end_rank))
    args = integ.jit_args(slot, case)
    with sut("condition"):
        out = jax.tree_util.tree_map(np.asarray, run(*args, jnp.asarray(y2)))
    c = 20000.0 if slot["solver"] == "ipar" else 300.0
    R = np.broadcast_to(inst.diag_of(case), (n,))
    tl = integ.llh_tol(D, spec, case, c)
    ctx.close("log_probability", out["llh"], D.llh, tl)
    obs, kind, ts = out["obs"], out["kind"], out["t"]
    K = len(ts)
    ctx.require(np.all(np.diff(ts) >= 0), "states are not in the order of time")
    at = {int(obs[k]): k for k in range(K) if kind[k] == 1}
    ctx.require(sorted(at) == list(range(n)), "not exactly one end state per observation")
    started = sorted(int(obs[k]) for k in range(K) if kind[k] == 0)
    ctx.require(len(set(started)) == len(started), "an exposure starts more than once")
    te = np.where(kind == 1, t[obs] + d[obs] / 2, t[obs] - d[obs] / 2)
    near = 1e-9 * (1 + np.max(np.abs(t) + d))
    ctx.close("times of the states", ts, te, near)
    seq = sorted(range(n), key=lambda i: at[i])
    chain(ctx, out, out["H"], R, y, seq, at, 3 * tl)

    z = np.zeros(K)
    latent = oracle.window_cov(spec, te, z, t, d)
    v0 = float(oracle.cov(spec, [0.0], [0.0])[0, 0])
    hz = out["Hz"].reshape(-1)
    Kd = np.diag(D.K).astype(float)
    fb = c * integ.rounding(D, spec, case)
    fs = fb + integ.smoothing(D, spec, case)
    yv = np.max(np.abs(y), initial=0.0) / np.sqrt(v0)
    for k in range(K):
        before = [i for i in seq if at[i] < k]
        upto = before + ([int(obs[k])] if kind[k] == 1 else [])
        for which, idx in (("predicted", before), ("filtered", upto), ("smoothed", seq)):
            f = fs if which == "smoothed" else fb
            m, P = out["a"][which]
            targets = [("process", hz, latent[k], v0)]
            if kind[k] == 1:
                i = int(obs[k])
                targets.append(("exposure average", out["H"][i].reshape(-1), D.K[i], Kd[i]))
            for what, h, cr, kk in targets:
                if idx:
                    sub = oracle.Dense(D.K[np.ix_(idx, idx)], D.diag[idx], y[idx])
                    mu, var = sub.predict(np.asarray(cr)[None, idx], [kk])
                else:
                    mu, var = np.zeros(1), np.array([kk])
                amp = max(1.0, yv, abs(mu[0]) / np.sqrt(v0))
                ctx.close(f"{which} mean of the {what}", h @ m[k], mu[0],
                          f * amp * np.sqrt(v0) + 1e-300)
                ctx.close(f"{which} variance of the {what}", h @ P[k] @ h, var[0], f * v0 + 1e-300)
    # later data
    cut = case["cut"]
    gap = cut in (0, n) or end[order[cut]] - end[order[cut - 1]] > near
    big = max(1.0, yv, float(np.max(np.abs(y2))) / np.sqrt(v0))
    if gap:
        for k in range(K):
            if kind[k] == 1:
                first = end_rank[int(obs[k])]
            else:
                continue
            for which, ok in (("predicted", first <= cut), ("filtered", first < cut)):
                if ok:
                    h = out["H"][int(obs[k])].reshape(-1)
                    ctx.close(f"{which} mean and later data", h @ out["b"][which][0][k],
                              h @ out["a"][which][0][k], fb * big * np.sqrt(v0))


def nontrivial(slot, case):
    ok = 0 < case["cut"] < slot["N"] or slot["N"] == 1
    if "ninst" in slot:
        return ok and integ.nontrivial(slot, case)
    return ok and (inst.correlated(case) or slot["N"] == 1)


def labels(slot, case):
    if "ninst" in slot:
        return integ.labels(slot, case) + [f"solver {slot['solver']}"]
    return inst.common_labels(slot, case) + [f"solver {slot['solver']}"]
