"""C13: the integrated augmentation matches the exact integrals of the base process."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import lds
import oracle
import slots as slotgen
from checks import inst
from common import EPS, sut

RULE = (
    "A case is an integrated kernel or composite (slot) with a number of instruments, "
    "hyperparameters, a lag, an exposure and an instrument; non-trivial if the lag is positive."
)
ASSUMPTIONS = [
    "exponentials and noise integrals of the augmented system by series and doubling, and "
    "closed-form averaged covariances, in 80-bit arithmetic",
]
COMPOSITE = [
    ["s", ["ISHO"]],
    ["+", ["IExp"], ["ISHO"]],
    ["s", ["+", ["IMatern52"], ["s", ["IExp"]]]],
    ["+", ["IMatern32"], ["ICosine"]],
]


def slots(tier, seed):
    out = []
    for i, k in enumerate(gen.INTEG):
        for n in (1, 3) if tier == "quick" else (1, 2, 3, 5):
            out.append(dict(struct=[k], ninst=n, mode="jit",
                            examples=200 if k == "ISHO" else 120))
        out.append(dict(struct=[k], ninst=1 + i % 2, mode="eager", examples=5))
    for i, s in enumerate(COMPOSITE):
        out.append(dict(struct=s, ninst=1 + i % 3, mode="jit", examples=100))
    rnd = gen.structure(gen.INTEG, max_leaves=3, max_dim=7, ops=("+", "s"))
    rnd = rnd.filter(lambda s: not gen.is_leaf(s))
    for i, s in enumerate(slotgen.draw(rnd, 5 if tier == "quick" else 40, seed)):
        out.append(dict(struct=s, ninst=1 + i % 3, mode="jit", examples=80))
    for s in out:
        s["cost"] = gen.dim(s["struct"], s["ninst"])
        s["examples"] *= 1 if tier == "quick" else 8
    return out


def strategy(slot):
    lag = st.one_of(
        gen.logu(-2, 1), gen.logu(-2, 1), gen.logu(-7, -2, step=4), gen.logu(1, 4, step=8),
        st.just(0.0), st.sampled_from([0.1, 0.0999, 0.1001]),
    )

    @st.composite
    def build(draw):
        e = draw(st.sampled_from([0, 0, 0, -1, 1, -3, 3]))
        unit = 10.0**e
        pars = draw(gen.params(slot["struct"], -1 + e, 1 + e))
        dt = draw(lag)
        if slot["struct"][0] == "ISHO" and draw(st.booleans()):
            # around the switches between the short- and long-lag forms
            dt = dt / (pars[0][0] * unit)
        return {
            "params": pars,
            "dt": dt * unit,
            "t": draw(st.integers(-8, 8)) / 4 * unit,
            "delta": draw(gen.logu(-3, 2)) * unit,
            "inst": draw(st.integers(0, slot["ninst"] - 1)),
        }

    return build()


def prepare(slot):
    import build
    import jax.numpy as jnp

    def f(params, t1, t2, delta, inst_):
        k = build.kernel(slot["struct"], params, ninst=slot["ninst"])
        x1, x2 = (t1, delta, inst_), (t2, 0.0 * delta, inst_)
        out = {
            "dim": jnp.asarray(k.dimension),
            "F": k.design_matrix(),
            "P": k.stationary_covariance(),
            "A": k.transition_matrix(x1, x2),
            "Q": k.process_noise(x1, x2),
            "A0": k.transition_matrix(t1, t1),
            "Q0": k.process_noise(t1, t1),
            "Aplain": k.transition_matrix(t1, t2),
            "H": k.observation_model(x1),
            "H0": k.observation_model(x2),
            "Hplain": k.observation_model(t1),
            "H2": k.observation_model((t1, delta)),
            "H20": k.observation_model((t1, 0.0 * delta)),
            "R": k.reset_matrix(inst_),
        }
        if gen.is_leaf(slot["struct"]):
            out["L"] = k.noise_effect_matrix()
            out["Qc"] = k.noise()
            out["Qn"] = k.process_noise(x1, x2, force_numerical=True)
        return out

    if slot["mode"] == "jit":
        g = jax.jit(f)
        return lambda p, *a: g(build.asarray(p), *(jnp.asarray(x) for x in a))
    return f


def blocks(slot):
    """(first base state, number of base states, first integral state) of each leaf"""
    out, i = [], 0
    for s in gen.leaves(slot["struct"]):
        d = gen.DIM[s[0]]
        out.append((i, d, i + d))
        i += d + slot["ninst"]
    return out, i


def check(slot, case, run, ctx):
    n = slot["ninst"]
    with sut("augmented matrices"):
        out = run(case["params"], case["t"], case["t"] + case["dt"], case["delta"], case["inst"])
        out = {k: np.asarray(v).astype(float) for k, v in out.items()}
    dt = float((oracle.LD(case["t"] + case["dt"])) - oracle.LD(case["t"]))
    spec = gen.to_spec(slot["struct"], case["params"])
    dim = int(out["dim"])
    bl, total = blocks(slot)
    ctx.require(dim == total, f"dimension {dim}, expected {total}")
    comps = oracle.components(expand(spec))
    F, P, A, Q = out["F"], out["P"], out["A"], out["Q"]
    ctx.close("transition with and without exposures", out["Aplain"], A, 0.0)
    ctx.close("transition over no lag", out["A0"], np.eye(dim), 1e-12)
    seen = np.zeros((dim, dim), bool)
    for (i, d, z), comp in zip(bl, comps):
        b = slice(i, i + d)
        me = slice(i, z + n)
        seen[me, me] = True
        h = out["Hplain"][0, i : z + n]
        ctx.close("the process itself is observed", h[d:], np.zeros(n), 0.0)
        h = h[:d]
        # drift: the integrals grow by the process
        for j in range(n):
            ctx.close("drift of an integral", F[z + j, i : z + n],
                      np.concatenate([h, np.zeros(n)]), 1e-14)
        ctx.close("drift of the process", F[b, z : z + n], np.zeros((d, n)), 0.0)
        Pb = P[b, b]
        sd = np.sqrt(np.diag(Pb))
        S, U = np.outer(sd, 1 / sd), np.outer(sd, sd)
        Fn = lds.ld(F[b, b]) / S
        W = -(Fn @ (lds.ld(Pb) / U))
        W = W + W.T  # the noise that keeps the process stationary
        hn = lds.ld(h) * lds.ld(sd)
        # the process and one integral, in units of the lag
        G = np.zeros((d + 1, d + 1), dtype=oracle.LD)
        G[:d, :d] = Fn
        unit = oracle.LD(dt) if dt > 0 else oracle.LD(1)
        G[d, :d] = hn / unit
        Wz = np.zeros_like(G)
        Wz[:d, :d] = W
        AA, QQ = lds.discretise(G, Wz, dt)
        rate = float(np.max(np.abs(Fn)))
        ph = inst.phase(comp, np.array([0.0, dt]))
        q = comp["p"].get("quality", 1.0)
        cl = 1.0 if q == 0.5 else min(1.0, abs(1 - 4 * q * q))
        coord = 4 * EPS * max(abs(case["t"]), abs(case["t"] + case["dt"])) * rate
        tol = min(2e4 * EPS * (1 + ph) / cl + coord + 100 * EPS * min(rate * dt, 1e5), 4.0)
        if "SHO" in comp["k"] and dt > 0:  # the closed forms cancel for short lags
            tol += min(200 * EPS / (rate * dt) / cl, 1e-5)
        ctx.close("transition of the process", A[b, b] / S, AA[:d, :d].astype(float), tol)
        ctx.close("transition of the process", A[b, z : z + n], np.zeros((d, n)), 0.0)
        ctx.close("transition of the integrals", A[z : z + n, z : z + n], np.eye(n), 0.0)
        zs = 1 / float(unit)
        B = A[z : z + n, b] * sd[None, :] * zs
        ctx.close("integrated transition", B, np.tile(AA[d:, :d].astype(float), (n, 1)),
                  tol)
        for name, M in [("process noise", Q)] + ([("numerical process noise", out["Qn"])]
                                                 if "Qn" in out else []):
            ctx.close(name + " of the process", M[b, b] / U, QQ[:d, :d].astype(float), 2 * tol)
            cross = np.tile(QQ[:d, d:].astype(float), (1, n))
            ctx.close(name + ", process and integrals", M[b, z : z + n] / sd[:, None] * zs,
                      cross, 2 * tol)
            ctx.close(name + ", integrals and process",
                      M[z : z + n, b].T / sd[:, None] * zs, cross, 2 * tol)
            ctx.close(name + " of the integrals", M[z : z + n, z : z + n] * zs * zs,
                      np.full((n, n), float(QQ[d, d])), 2 * tol * float(h @ Pb @ h))
        # against the closed forms: the average over the lag, started from a reset
        if dt > 0:
            v = float(oracle.cov(comp, [0.0], [0.0])[0, 0])
            want = float(oracle.window_cov(comp, [dt / 2], [dt], [dt / 2], [dt])[0, 0])
            got = (A[z, b] @ Pb @ A[z, b] + Q[z, z]) * zs * zs
            ctx.close("variance of the average", got, want, 4 * tol * v)
            want = float(oracle.window_cov(comp, [dt / 2], [dt], [dt], [0.0])[0, 0])
            got = (A[z, b] @ Pb @ A[b, b].T @ h + Q[z, b] @ h) * zs
            ctx.close("covariance of the average with the process", got, want, 4 * tol * v)
            ctx.close("variance of the process", float(h @ Pb @ h), v, 1e-13 * v)
        if "L" in out:
            W2 = out["L"] @ out["Qc"] @ out["L"].T
            Wfull = np.zeros((dim, dim))
            Wfull[:d, :d] = W.astype(float) * U
            ctx.close("driving noise", W2[:d, :d] / U / rate, W.astype(float) / rate, 1e-12)
            ctx.close("driving noise of the integrals", W2[d:], np.zeros((n, dim)), 0.0)
        # observations and resets
        want = np.zeros(d + n)
        want[d + case["inst"]] = 1 / case["delta"]
        ctx.close("observation of an exposure", out["H"][0, i : z + n], want, 1e-14 / case["delta"])
        ctx.close("observation of no exposure", out["H0"][0, i : z + n],
                  np.concatenate([h, np.zeros(n)]), 0.0)
        want = np.zeros(d + n)
        want[d] = 1 / case["delta"]
        ctx.close("observation without instrument", out["H2"][0, i : z + n], want,
                  1e-14 / case["delta"])
        ctx.close("observation without instrument or exposure", out["H20"][0, i : z + n],
                  np.concatenate([h, np.zeros(n)]), 0.0)
        want = np.ones(d + n)
        want[d + case["inst"]] = 0
        ctx.close("reset", out["R"][me, me], np.diag(want), 0.0)
    for name in ("F", "A", "Q", "R"):
        ctx.require(not np.any(out[name][~seen]), f"{name} mixes different kernels of a sum")
    ctx.require(np.all(out["Q0"] <= 1e-12 * np.max(np.abs(P))), "process noise over no lag")
    sc = np.sqrt(np.maximum(np.diag(Q), 1e-300))
    s = np.where(np.diag(Q) > 0, sc, 1.0)
    w = np.linalg.eigvalsh((Q + Q.T) / 2 / np.outer(s, s))
    ctx.note("process noise is a valid covariance" if w[0] > -1e-9 else "rounded process noise")


def expand(spec, c=None):
    """Scalings moved into the amplitudes of the leaves"""
    if spec["k"] == "Sum":
        return {"k": "Sum", "a": expand(spec["a"], c), "b": expand(spec["b"], c)}
    if spec["k"] == "Scale":
        return expand(spec["a"], (1.0 if c is None else c) * spec["c"])
    p = dict(spec["p"])
    if c is not None:
        p["sigma"] = p["sigma"] * float(np.sqrt(c))
    return {"k": spec["k"], "p": p}


def nontrivial(slot, case):
    return case["dt"] > 0


def labels(slot, case):
    out = inst.param_labels(slot["struct"], case["params"]) + [slot["mode"]]
    out.append(f"{slot['ninst']} instruments")
    out.append("composite" if not gen.is_leaf(slot["struct"]) else slot["struct"][0])
    if case["dt"] == 0:
        out.append("zero lag")
    if case["dt"] > 1e3:
        out.append("lag > 1e3")
    if 0 < case["dt"] < 1e-3:
        out.append("lag < 1e-3")
    return out
