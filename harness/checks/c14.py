"""C14: the power spectral density is the Fourier transform of the kernel."""

import jax
import numpy as np
from hypothesis import strategies as st

import gen
import slots as slotgen
from checks import inst
from common import sut

import mpmath

RULE = (
    "A case is a kernel structure with a continuous spectrum (slot), hyperparameters and "
    "angular frequencies; non-trivial if a frequency lies within a factor 100 of the fastest "
    "rate of the kernel."
)
ASSUMPTIONS = ["covariances as sums of damped exponentials, transformed with 50 digits"]

CORE = [
    ["Exp"], ["Matern32"], ["Matern52"], ["SHO"],
    ["s", ["SHO"]],
    ["+", ["Exp"], ["SHO"]],
    ["*", ["Exp"], ["SHO"]],
    ["*", ["SHO"], ["SHO"]],
    ["*", ["Matern32"], ["Matern52"]],
    ["*", ["s", ["Matern52"]], ["Exp"]],
    ["+", ["s", ["Matern32"]], ["*", ["SHO"], ["Exp"]]],
    ["*", ["+", ["Exp"], ["Matern32"]], ["s", ["SHO"]]],
    ["*", ["SHO"], ["Cosine"]],
    ["*", ["Constant"], ["Matern32"]],
    ["*", ["ESS", 2], ["Exp"]],
]
N = 8


def continuous(s):
    """Whether every additive term of the kernel decays with the lag"""
    if s[0] == "+":
        return continuous(s[1]) and continuous(s[2])
    if s[0] == "*":
        return continuous(s[1]) or continuous(s[2])
    if s[0] == "s":
        return continuous(s[1])
    return s[0] not in ("Cosine", "Constant", "ESS")


def slots(tier, seed):
    out = [dict(struct=s, mode="jit", examples=100) for s in CORE]
    for s in (["Exp"], ["SHO"], ["Matern52"], ["*", ["Exp"], ["+", ["SHO"], ["s", ["Exp"]]]]):
        out.append(dict(struct=s, mode="eager", examples=6))
    for nu in (0.5, 1.5, 2.5, 3.5):
        out.append(dict(struct=["Exp"], matern=nu, mode="eager", examples=5))
    rnd = gen.structure(max_leaves=4, max_dim=14)
    rnd = rnd.filter(lambda s: not gen.is_leaf(s) and continuous(s))
    for s in slotgen.draw(rnd, 20 if tier == "quick" else 200, seed):
        out.append(dict(struct=s, mode="jit", examples=60))
    for s in out:
        s["cost"] = gen.dim(s["struct"])
        s["examples"] *= 1 if tier == "quick" else 6
    return out


def strategy(slot):
    @st.composite
    def build(draw):
        e = draw(st.sampled_from([0, 0, -1, 1, -2, 2]))
        pars = draw(gen.params(slot["struct"], -1 + e, 1 + e))
        w = [
            draw(st.one_of(st.just(0.0), gen.logu(-1, 1), gen.logu(-1, 1), gen.logu(-4, 3)))
            * draw(st.sampled_from([1, 1, -1]))
            for _ in range(N)
        ]
        return {"params": pars, "omega": [x * 10.0**-e for x in w]}

    return build()


def prepare(slot):
    import build
    import jax.numpy as jnp

    def f(params, w):
        if "matern" in slot:
            from smolgp.kernels.base import Matern

            k = Matern(slot["matern"], params[0][0], sigma=params[0][1])
        else:
            k = build.kernel(slot["struct"], params)
        return k.psd(w), k.psd(-w)

    if slot["mode"] == "jit":
        g = jax.jit(f)
        return lambda p, w: g(build.asarray(p), jnp.asarray(w))
    return lambda p, w: f(p, jnp.asarray(w))


mp = mpmath.MPContext()
mp.dps = 50


def merge(ts):
    out = {}
    for c, m, z in ts:
        key = (mp.nstr(z, 40), m)
        if key in out:
            out[key][0] += c
        else:
            out[key] = [c, m, z]
    return list(out.values())


def leaf_terms(slot, k, p):
    """k(tau) = sum of c tau^m exp(z tau) for tau >= 0"""
    import oracle

    s2 = mp.mpf(p["sigma"]) ** 2
    if "matern" in slot:
        nu = slot["matern"]
        lam = mp.sqrt(2 * mp.mpf(nu)) / mp.mpf(p["scale"])
        q = round(nu - 0.5)
        out = []
        for i in range(q + 1):
            # Rasmussen & Williams eq. 4.16: coefficient of (2 lam tau)^(q-i)
            c = (mp.factorial(q) / mp.factorial(2 * q) * mp.factorial(q + i)
                 / (mp.factorial(i) * mp.factorial(q - i)) * (2 * lam) ** (q - i))
            out.append((s2 * c, q - i, -lam))
        return out
    if k == "Constant":
        return [(s2, 0, mp.mpc(0))]
    if k == "Exp":
        return [(s2, 0, -1 / mp.mpf(p["scale"]))]
    if k in ("Matern32", "Matern52"):
        lam = mp.sqrt(3 if k == "Matern32" else 5) / mp.mpf(p["scale"])
        out = [(s2, 0, -lam), (s2 * lam, 1, -lam)]
        if k == "Matern52":
            out.append((s2 * lam**2 / 3, 2, -lam))
        return out
    if k == "SHO":
        w, q = mp.mpf(p["omega"]), mp.mpf(p["quality"])
        if q == mp.mpf(0.5):
            return [(s2, 0, -w), (s2 * w, 1, -w)]
        r = mp.sqrt(mp.mpc(1 - 1 / (4 * q * q)))  # eta, imaginary if overdamped
        a = -w / (2 * q)
        f = 2 * r * q
        i = mp.mpc(0, 1)
        return [(s2 * (1 - i / f) / 2, 0, a + i * r * w), (s2 * (1 + i / f) / 2, 0, a - i * r * w)]
    if k == "Cosine":
        i = mp.mpc(0, 1)
        w = 2 * mp.pi / mp.mpf(p["scale"])
        return [(s2 / 2, 0, i * w), (s2 / 2, 0, -i * w)]
    if k == "ESS":
        i = mp.mpc(0, 1)
        w = 2 * mp.pi / mp.mpf(p["period"])
        x = mp.mpf(p["gamma"]) / 2
        out = [(s2 * mp.besseli(0, x) * mp.exp(-x), 0, mp.mpc(0))]
        for j in range(1, p["order"]):
            c = s2 * mp.besseli(j, x) * mp.exp(-x)
            out += [(c, 0, i * j * w), (c, 0, -i * j * w)]
        return out
    raise KeyError(k)


def terms(slot, spec):
    if spec["k"] == "Sum":
        return terms(slot, spec["a"]) + terms(slot, spec["b"])
    if spec["k"] == "Scale":
        return [(mp.mpf(spec["c"]) * c, m, z) for c, m, z in terms(slot, spec["a"])]
    if spec["k"] == "Product":
        a, b = terms(slot, spec["a"]), terms(slot, spec["b"])
        return merge([(c * d, m + n, y + z) for c, m, y in a for d, n, z in b])
    return leaf_terms(slot, spec["k"], spec["p"])


def psd(ts, w):
    """int_0^inf k(tau) cos(w tau) dtau / pi"""
    i = mp.mpc(0, 1)
    out = mp.mpf(0)
    for c, m, z in ts:
        for s in (1, -1):
            out += c * mp.factorial(m) / (s * i * w - z) ** (m + 1) / 2
    return out.real / mp.pi


def check(slot, case, run, ctx):
    with sut("psd"):
        got, neg = run(case["params"], case["omega"])
        got, neg = np.asarray(got), np.asarray(neg)
    spec = gen.to_spec(slot["struct"], case["params"])
    ts = terms(slot, spec)
    want = np.array([float(psd(ts, mp.mpf(w))) for w in case["omega"]])
    v = float(sum(c for c, m, z in ts if m == 0).real)
    # largest possible density, and its round-off
    slow = min(float(-z.real) for _, _, z in ts)
    tol = 1e-10 * np.abs(want) + 1e-15 * v / slow
    ctx.close("power spectral density", got, want, tol)
    ctx.close("power spectral density at -omega", neg, got, tol)
    ctx.require(bool(np.all(got >= -tol)), "negative power spectral density")


def nontrivial(slot, case):
    out = []
    for p in inst.all_leaves(gen.to_spec(slot["struct"], case["params"])):
        p = p["p"]
        out.append(p["omega"] if "omega" in p else 1 / p.get("scale", p.get("period", 1.0)))
    r = max(out)
    return any(r / 100 < abs(w) < 100 * r for w in case["omega"])


def labels(slot, case):
    out = inst.param_labels(slot["struct"], case["params"]) + [slot["mode"]]
    text = str(slot["struct"])
    out.append("generic Matern" if "matern" in slot else
               "product" if "*" in text else "sum" if "+" in text else "single kernel")
    if 0.0 in case["omega"]:
        out.append("zero frequency")
    return out
