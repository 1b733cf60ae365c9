"""From structures and parameters to smolgp objects (the code under test)."""

import env  # noqa: F401
import jax
import jax.numpy as jnp

import smolgp
from smolgp import kernels as K
from smolgp.kernels import integrated as IK
from smolgp.solvers import ParallelStateSpaceSolver, StateSpaceSolver
from smolgp.solvers.integrated import (
    IntegratedStateSpaceSolver,
    ParallelIntegratedStateSpaceSolver,
)

GP = smolgp.GaussianProcess

SOLVERS = {
    None: None,
    "seq": StateSpaceSolver,
    "par": ParallelStateSpaceSolver,
    "iseq": IntegratedStateSpaceSolver,
    "ipar": ParallelIntegratedStateSpaceSolver,
}


def leaf(k, p, ninst=1, name=None, order=None):
    kw = {} if name is None else {"name": name}
    if k == "Exp":
        return K.Exp(p[0], sigma=p[1], **kw)
    if k == "Matern32":
        return K.Matern32(p[0], sigma=p[1], **kw)
    if k == "Matern52":
        return K.Matern52(p[0], sigma=p[1], **kw)
    if k == "Cosine":
        return K.Cosine(p[0], sigma=p[1], **kw)
    if k == "SHO":
        return K.SHO(omega=p[0], quality=p[1], sigma=p[2], **kw)
    if k == "ESS":
        if order is None:
            return K.ExpSineSquared(period=p[0], gamma=p[1], sigma=p[2], **kw)
        return K.ExpSineSquared(
            period=p[0], gamma=p[1], sigma=p[2], order=order, **kw
        )
    if k == "Constant":
        return K.Constant(sigma=p[0], **kw)
    if k == "IExp":
        return IK.IntegratedExp(p[0], sigma=p[1], num_insts=ninst, **kw)
    if k == "IMatern32":
        return IK.IntegratedMatern32(p[0], sigma=p[1], num_insts=ninst, **kw)
    if k == "IMatern52":
        return IK.IntegratedMatern52(p[0], sigma=p[1], num_insts=ninst, **kw)
    if k == "ICosine":
        return IK.IntegratedCosine(p[0], sigma=p[1], num_insts=ninst, **kw)
    if k == "ISHO":
        return IK.IntegratedSHO(
            omega=p[0], quality=p[1], sigma=p[2], num_insts=ninst, **kw
        )
    raise KeyError(k)


def kernel(struct, params, ninst=1, names=None):
    """names: optional list of names of the leaves, in order"""
    it = iter(params)
    nm = iter(names) if names is not None else None

    def go(s):
        if s[0] == "+":
            a = go(s[1])
            return a + go(s[2])
        if s[0] == "*":
            a = go(s[1])
            return a * go(s[2])
        if s[0] == "s":
            c = next(it)[0]
            return c * go(s[1])
        p = next(it)
        name = next(nm) if nm is not None else None
        order = s[1] if s[0] == "ESS" else None
        return leaf(s[0], p, ninst, name, order)

    return go(struct)


def asarray(x):
    """Nested lists of numbers to nested lists of float64 scalars (jit arguments)"""
    return jax.tree_util.tree_map(lambda v: jnp.asarray(v, dtype=jnp.float64), x)
