"""C23: the dense reference kernels equal the exact exposure averages."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import oracle
from checks import integ
from common import EPS, sut

RULE = (
    "A case is an oscillator and a list of exposures (midpoints, lengths, instruments); "
    "non-trivial if some pair of exposures is correlated and at least one is of positive length."
)
ASSUMPTIONS = ["window averages of the covariance in closed form in 80-bit arithmetic"]


def slots(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    for q in ("under", "over", "near"):
        for lay in ("lattice", "free", "short"):
            for n in (2, 5) if lay != "short" else (4,):
                out.append(dict(kind="integrated", regime=q, layout=lay, N=n, examples=250 * k))
        out.append(dict(kind="instantaneous", regime=q, N=6, layout="free", examples=150 * k))
    out.append(dict(kind="composite", regime="under", N=4, layout="lattice", examples=40 * k))
    for s in out:
        s["cost"] = 2 if s["kind"] == "integrated" else 1
    return out


def quality(regime):
    if regime == "under":
        return st.one_of(gen.logu(-0.25, 2), st.sampled_from([1.0, 0.7071067811865476]))
    if regime == "over":
        return gen.logu(-1, -0.35)
    return st.sampled_from([0.51, 0.505, 0.49, 0.495, 0.52, 0.48, 0.55, 0.45])


@st.composite
def short_layout(draw, n):
    """Exposures much shorter than the time scale, in any arrangement"""
    out, t = [], draw(st.integers(-8, 8)) / 4
    for i in range(n):
        d = draw(st.one_of(st.just(0.0), gen.logu(-10, -2, step=4)))
        how = draw(st.sampled_from(["far", "near", "copy", "abut"]))
        if i and how == "copy":
            t, d = out[-1][:2]
        elif i and how == "near":
            t = t + draw(st.integers(-8, 8)) / 8 * max(d, out[-1][1])
        elif i and how == "abut":
            t = t + (d + out[-1][1]) / 2
        elif i:
            t = t + draw(gen.logu(-2, 1))
        out.append((t, d, i % 3))
    return out


def strategy(slot):
    n = slot["N"]

    @st.composite
    def build(draw):
        unit = 10.0 ** draw(st.sampled_from([0, 0, -1, 1]))
        if slot["layout"] == "free":
            lay = draw(integ.free_layout(n, huge=True))
        elif slot["layout"] == "lattice":
            lay = draw(integ.lattice_layout(n, 3))
        else:
            lay = draw(short_layout(n))
        order = draw(st.permutations(list(range(n))))
        return {
            "omega": gen.r6(draw(gen.logu(-0.7, 0.7)) / unit),
            "quality": draw(quality(slot["regime"])),
            "sigma": draw(gen.logu(-1, 1)),
            "t": [lay[i][0] * unit for i in order],
            "texp": [lay[i][1] * unit for i in order],
            "instid": [lay[i][2] for i in order],
        }

    return build()


def prepare(slot):
    import build  # noqa: F401
    import jax.numpy as jnp
    from smolgp.kernels.dense import IntegratedSHOKernel, SHOKernel, extract_leaf_kernels

    def both(cls, w, q, s):
        a = cls(S=s**2 / (w * q), w=w, Q=q)
        b = cls(rho=2 * jnp.pi / w, tau=2 * q / w, sig=s)
        return a, b

    def integrated(w, q, s, t, d, i):
        a, b = both(IntegratedSHOKernel, w, q, s)
        X = (t, d, i)
        out = {"first": a(X, X), "second": b(X, X), "diag": a(X)}
        out["latent"] = a((t, jnp.zeros_like(d), i), X)
        out["no exposures"] = b(t, t)
        return out

    def instantaneous(w, q, s, t, d, i):
        a, b = both(SHOKernel, w, q, s)
        return {"first": a(t, t), "second": b(t, t), "diag": a(t),
                "with instruments": a((t, i), (t, i)), "with exposures": b((t, d, i), (t, d, i))}

    def composite(w, q, s, t, d, i):
        a, b = both(IntegratedSHOKernel, w, q, s)
        c = IntegratedSHOKernel(rho=3.0, tau=5.0, sig=1.5)
        X = (t, d, i)
        return {"first": (a + c)(X, X), "second": c(X, X) + b(X, X), "other": c(X, X)}

    f = {"integrated": integrated, "instantaneous": instantaneous, "composite": composite}
    g = jax.jit(f[slot["kind"]])

    def names(w, q, s):
        a, b = both(IntegratedSHOKernel, w, q, s)
        c = SHOKernel(rho=3.0, tau=5.0, sig=1.5)
        one = lambda k: [type(x) for x in k]  # noqa: E731
        return (one(extract_leaf_kernels(a + c * b)), one(extract_leaf_kernels(a + c * b, all=True)),
                [type(a), type(c * b)], [type(a), type(c), type(b)])

    def call(case):
        out = g(*[jnp.asarray(case[k], float) for k in ("omega", "quality", "sigma")],
                jnp.asarray(case["t"], float), jnp.asarray(case["texp"], float),
                jnp.asarray(case["instid"], int))
        extra = names(case["omega"], case["quality"], case["sigma"]) \
            if slot["kind"] == "composite" else None
        return {k: np.asarray(v) for k, v in out.items()}, extra

    return call


def check(slot, case, run, ctx):
    w, q, s = case["omega"], case["quality"], case["sigma"]
    t, d = np.asarray(case["t"]), np.asarray(case["texp"])
    with sut("a dense kernel"):
        out, extra = run(case)
    p = {"omega": w, "quality": q, "sigma": s}
    spec = {"k": "ISHO", "p": p}
    z = np.zeros(len(t))
    span = float(np.max(t + d) - np.min(t - d))
    near = max(1.0, 1 / abs(1 - 1 / (4 * q * q)))
    # rounding of times and of the arguments of the oscillation
    edge = w * max(1.0, 1 / q) * float(np.max(np.abs(t) + d))
    base = 300 * EPS * (1 + min(w * span, 2 * q) + edge) * near ** 2

    def tol(d1, d2):
        """Second differences over short windows cancel; very short ones may be neglected"""
        x = w * min(1.0, q) * np.stack(np.broadcast_arrays(d1[:, None], d2[None, :]))
        prod = np.prod(np.where(x > 0, x, 1.0), axis=0)
        tiny = np.any((x > 0) & (x < 1e-2 * min(1.0, q * q)), axis=0)
        extra = np.minimum(5e-6 / min(1.0, q) ** 3, 30 * base / np.maximum(prod, 1e-300)) * np.any(x > 0, axis=0)
        return s * s * (base + extra + np.where(tiny, 3e-7, 0))

    lat = oracle.cov({"k": "SHO", "p": p}, t, t).astype(float)
    flat = np.full(len(t), s * s * base)
    if slot["kind"] == "instantaneous":
        for k in ("first", "second", "with instruments", "with exposures"):
            ctx.close(f"instantaneous covariance ({k})", out[k], lat, s * s * base)
        ctx.close("instantaneous variance", out["diag"], np.full(len(t), s * s), flat)
        return
    want = oracle.window_cov(spec, t, d, t, d).astype(float)
    if slot["kind"] == "composite":
        ctx.close("sum of dense kernels", out["first"], want + out["other"],
                  tol(d, d) + 1e-9 * 2.25)
        ctx.close("sum of matrices", out["second"], want + out["other"], tol(d, d) + 1e-9 * 2.25)
        ctx.require(extra[0] == extra[2], f"additive parts: {extra[0]}")
        ctx.require(extra[1] == extra[3], f"all leaves: {extra[1]}")
        return
    for k in ("first", "second"):
        ctx.close(f"averaged covariance ({k} parameters)", out[k], want, tol(d, d))
        ctx.close(f"symmetry ({k} parameters)", out[k], out[k].T, 2 * tol(d, d))
        low = float(np.linalg.eigvalsh((out[k] + out[k].T) / 2)[0])
        ctx.close("negative eigenvalue", min(low, 0.0), 0.0, len(t) * float(np.max(tol(d, d))))
    ctx.close("averaged variance", out["diag"], np.diag(want), np.diag(tol(d, d)))
    ctx.close("covariance with the process", out["latent"],
              oracle.window_cov(spec, t, z, t, d).astype(float), tol(z, d))
    ctx.close("covariance of the process", out["no exposures"], lat, s * s * base)


def nontrivial(slot, case):
    t = np.sort(case["t"])
    return bool(np.any(np.diff(t) * case["omega"] < 30) and
                (max(case["texp"]) > 0 or slot["kind"] == "instantaneous"))


def labels(slot, case):
    t, d = np.asarray(case["t"]), np.asarray(case["texp"])
    out = [slot["kind"], f"{slot['regime']}damped" if slot["regime"] != "near" else "near critical"]
    iu = np.triu_indices(len(t), 1)
    lag = np.abs(t[:, None] - t[None, :])[iu]
    s, e = t - d / 2, t + d / 2
    sum2 = ((d[:, None] + d[None, :]) / 2)[iu]
    pos = (np.minimum(d[:, None], d[None, :]) > 0)[iu]
    dif = (np.abs(d[:, None] - d[None, :]) / 2)[iu]
    eps = 1e-12
    for name, ok in (
        ("separated", pos & (lag > sum2 + eps)),
        ("abutting", pos & (np.abs(lag - sum2) <= eps)),
        ("nested", pos & (lag <= dif) & (dif > 0)),
        ("partly overlapping", pos & (lag > dif + eps) & (lag < sum2 - eps)),
        ("coincident", pos & (lag == 0) & (dif == 0)),
        ("one of zero exposure", ~pos & (sum2 > 0)),
        ("both of zero exposure", sum2 == 0),
    ):
        if np.any(ok):
            out.append(name)
    return out
