"""
Work, memory and depth of traced programs

A program is traced to JAX's intermediate representation for abstract inputs of a given
size (nothing is computed), and its operations are counted, with the bodies of loops
multiplied by their lengths:

work    number of elementary operations (elements touched by each primitive)
depth   length of the longest chain of dependent primitives
memory  peak number of elements alive at the same time, if intermediate results are
        kept from their creation to their last use
eqns    number of operations in the text of the program (loop bodies counted once)
"""

import dataclasses
import math

import jax
import numpy as np
from jax.extend import core as jex

# primitives that touch only as many elements as they return
SLICING = {"slice", "dynamic_slice", "gather", "split", "rev", "transpose", "concatenate", "pad"}
# primitives that need not be carried out (the compiler indexes their input instead)
FREE = {"squeeze", "reshape", "expand_dims", "copy", "stop_gradient", "pvary",
        "optimization_barrier", "broadcast_in_dim", "iota"}
LINALG = {"lu", "triangular_solve", "cholesky", "eigh", "svd", "qr", "householder_product",
          "lu_pivots_to_permutation", "schur", "hessenberg", "tridiagonal_solve", "geqrf"}


@dataclasses.dataclass
class Cost:
    work: float
    depth: float
    memory: float
    eqns: int
    unknown: tuple = ()  # loops of unknown length


def size(v):
    return float(np.prod(getattr(v.aval, "shape", ()), dtype=float))


def subjaxprs(eqn):
    for v in eqn.params.values():
        for x in v if isinstance(v, (tuple, list)) else (v,):
            if isinstance(x, jex.ClosedJaxpr):
                yield x.jaxpr
            elif isinstance(x, jex.Jaxpr):
                yield x


def one(eqn):
    """Cost of a single equation: (work, depth, extra memory, eqns, unknown)"""
    name = eqn.primitive.name
    outs = sum(size(v) for v in eqn.outvars)
    ins = max([size(v) for v in eqn.invars], default=0.0)
    if name == "scan":
        body = of(eqn.params["jaxpr"].jaxpr)
        n = eqn.params["length"]
        return n * (body.work + 1), n * body.depth, body.memory, body.eqns + 1, body.unknown
    if name == "while":
        c, b = (of(eqn.params[k].jaxpr) for k in ("cond_jaxpr", "body_jaxpr"))
        return (b.work + c.work, b.depth + c.depth, max(b.memory, c.memory),
                b.eqns + c.eqns + 1, b.unknown + c.unknown + (eqn,))
    if name == "cond":
        bs = [of(b.jaxpr) for b in eqn.params["branches"]]
        return (max(b.work for b in bs), max(b.depth for b in bs), max(b.memory for b in bs),
                sum(b.eqns for b in bs) + 1, sum((b.unknown for b in bs), ()))
    subs = list(subjaxprs(eqn))
    if subs and not name.startswith(("reduce", "scatter", "sort", "cum", "arg")):
        # calls; if there are several programs (custom derivatives), the first is run
        b = of(subs[0])
        return b.work, b.depth, b.memory, b.eqns, b.unknown
    if name == "dot_general":
        (lc, _), (lb, _) = eqn.params["dimension_numbers"]
        k = np.prod([eqn.invars[0].aval.shape[i] for i in lc], dtype=float)
        return 2 * outs * k, 1 + math.log2(max(k, 1)), 0.0, 1, ()
    if name in LINALG:
        n = eqn.invars[0].aval.shape[-1]
        return max(ins, outs) * n, n, 0.0, 1, ()
    if name == "sort":
        n = eqn.invars[0].aval.shape[eqn.params["dimension"]]
        lg = max(math.log2(max(n, 2)), 1)
        return outs * lg, lg, 0.0, 1, ()
    if name.startswith("cum"):
        lg = max(math.log2(max(eqn.invars[0].aval.shape[eqn.params["axis"]], 2)), 1)
        return outs * lg, lg, 0.0, 1, ()
    if name.startswith(("reduce", "arg")):
        return ins, max(math.log2(max(ins / max(outs, 1), 2)), 1), 0.0, 1, ()
    if name == "dynamic_update_slice":
        return size(eqn.invars[1]), 1, -1.0, 1, ()  # in place
    if name.startswith("scatter"):
        return size(eqn.invars[-1]), 1, -1.0, 1, ()
    if name in FREE:
        return 0.0, 0, -1.0, 1, ()
    if name in SLICING:
        return outs, 1, 0.0, 1, ()
    return max(ins, outs), 1, 0.0, 1, ()


def of(jaxpr):
    """Cost of a program"""
    last = {}
    for i, eqn in enumerate(jaxpr.eqns):
        for v in eqn.invars:
            if not isinstance(v, jex.Literal):
                last[v] = i
    for v in jaxpr.outvars:
        if not isinstance(v, jex.Literal):
            last[v] = len(jaxpr.eqns)
    born = {}
    root = {}
    free_at = {}
    for v, i in last.items():
        free_at.setdefault(i, []).append(v)
    depth = {}
    work = live = peak = longest = 0.0
    eqns, unknown = 0, ()
    for i, eqn in enumerate(jaxpr.eqns):
        args = [root.get(v, v) if not isinstance(v, jex.Literal) else id(v)
                for v in eqn.invars]
        if eqn.primitive.name in FREE:
            if eqn.invars:
                root[eqn.outvars[0]] = args[0]
        if eqn.primitive.name == "select_n" and len(set(args[1:])) == 1:
            # between equal choices (the result of batching conditional code)
            root[eqn.outvars[0]] = args[1]
            w, d, m, n, u = 0.0, 0, -1.0, 1, ()
        else:
            w, d, m, n, u = one(eqn)
        work, eqns, unknown = work + w, eqns + n, unknown + u
        d += max([depth.get(v, 0) for v in eqn.invars if not isinstance(v, jex.Literal)],
                 default=0)
        longest = max(longest, d)
        new = sum(size(v) for v in eqn.outvars)
        if m < 0:  # shares the memory of its input
            born_sizes = {v: 0.0 for v in eqn.outvars}
            new = 0.0
        else:
            born_sizes = {v: size(v) for v in eqn.outvars}
        for v in eqn.outvars:
            depth[v] = d
            born[v] = born_sizes[v]
        live += new
        peak = max(peak, live + max(m, 0.0))
        for v in free_at.get(i, []):
            live -= born.get(v, 0.0)
        for v in eqn.outvars:
            if v not in last:
                live -= born[v]
    return Cost(work, longest, peak, eqns, unknown)


def trace(f, *shapes):
    """Cost of f for abstract arguments"""
    args = jax.tree_util.tree_map(
        lambda s: jax.ShapeDtypeStruct(s[0], np.dtype(s[1])), shapes,
        is_leaf=lambda s: isinstance(s, tuple) and len(s) == 2 and isinstance(s[1], str))
    return of(jax.make_jaxpr(f)(*args).jaxpr)
