"""Symbols and spec functions shared by the operators on numpy arrays."""
from vc import expr as E, npstub as N, py as P, tensor as TT
from vc.expr import Ex, ONE, ZERO
from vc.tensor import DType

stubs = N.modules
TRUSTED = [
    "numpy 1.26: einsum, broadcasting, indexing, ravel/reshape/transpose, zeros/ones, column_stack (vc/npstub.py)",
    "scipy 1.13 LinearOperator: dispatch of @, matvec, matmat, adjoint (vc/npstub.py, transcribed)",
]
ASSUMPTIONS = [
    "arithmetic is exact over the reals (floating point rounding, overflow and NaN are not modelled)",
    "vc/loader.py's syntax-tree rewriting preserves the meaning of the Python subset it accepts",
]


def array(name, dims, dtype=None, **k):
    """An arbitrary array given by the caller."""
    f = E.Fun(name, **k)
    return N.NA.make([TT.as_dim(d) for d in dims], lambda *i: E.mk(f, tuple(i)), dtype or N.F64, name=name), f


def sizes(c, *names, least=1):
    out = []
    for n in names:
        x = E.integer(n)
        c.assume(x >= least)
        out.append(x)
    return out


RNG = (N.RANDN, N.BINOM)


def draw(distribution, *args):
    """The spec's random variable number args (position in the generator's sequence, index)."""
    if distribution == "normal":
        return E.mk(N.RANDN, tuple(Ex.of(a) for a in args))
    return 2 * E.mk(N.BINOM, (Ex.of(args[0]), Ex.of(E.Fraction(1, 2))) + tuple(Ex.of(a) for a in args[1:])) - 1


def draw_index(a):
    """(position, indices) of a random atom."""
    return a.args[0], a.args[2 if a.fun is N.BINOM else 1:]


def bound(name):
    return name.startswith("$")


def drawn_vector(c, name, x, distribution, least_pos):
    """x depends on one drawn vector, drawn after least_pos: (g, pos) or None."""
    x = E.unfreeze(Ex.of(x))
    draws = [a for a in E.atoms_of(x, deep=False) if a.fun in RNG]
    pos = {draw_index(a)[0] for a in draws}
    if len(pos) != 1 or any(bound(n) for n in next(iter(pos)).fv):
        if draws and len(pos) == 1:
            c.true(name, False, f"several draws {draws[:3]}")
        else:
            c.rec(name, "unknown", f"draws {[a.key for a in draws][:6]}")
        return None
    pos = pos.pop()
    if any(len(draw_index(a)[1]) != 1 for a in draws):
        return c.rec(name, "unknown", f"draws {[a.key for a in draws][:6]}")
    c.holds(name, pos >= least_pos)
    return (lambda i: draw(distribution, pos, i)), pos
