import z3
from specs.common_np import *
from specs import common_np as _c
from vc.expr import SymBool

stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED, _c.ASSUMPTIONS + [
    "the original operator A is linear and deterministic (contract of GivenOperator in vc/npstub.py)",
    "index lists are Python lists; elements are Python integers or not (bool and numpy integers are not modelled)",
]


def index_list(c, name, n, bound=None):
    """List of n arbitrary integers; valid: distinct and in bounds."""
    f = E.Fun(name, sort="I")
    zf = z3.Function(name, z3.IntSort(), z3.IntSort())
    lst = P.VList(P.Seq.sym(n, lambda i: E.mk(f, (i,))))
    i, j = z3.Ints("?vi ?vj")
    zn, zb = E.z3of(Ex.of(n)), E.z3of(Ex.of(bound))
    inb = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zn), z3.And(zf(i) >= 0, zf(i) < zb)))
    dist = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < zn, 0 <= j, j < zn, zf(i) == zf(j)), i == j))
    return lst, (lambda k: E.mk(f, (Ex.of(k),))), z3.And(inb, dist)


def spec(A, row, col, n):
    """(A[rows, :][:, cols] @ x)[i] (, column)"""
    return lambda x: lambda i, *k: E.Sum(n, lambda j: A.entry(row(i), col(j)) * x(j, *k))


def entry_T(A):
    class At:
        entry = staticmethod(lambda i, j: A.entry(j, i))
    return At


def check_products(c, op, A, row, m, col, n, tag):
    x, fx = array("x" + tag, [n])
    X, fX = array("X" + tag, [n, *sizes(c, "C")])
    C = X.dims[1].size
    s = spec(A, row, col, n)
    c.true(f"{tag}: shape", op.shape[0] == m and op.shape[1] == n)
    c.tensor(f"{tag}: vector product", op @ x, [m], s(lambda j: E.mk(fx, (j,))))
    c.tensor(f"{tag}: matrix product", op @ X, [m, C], s(lambda j, k: E.mk(fX, (j, k))))
    c.tensor(f"{tag}: matmat", op.matmat(X), [m, C], s(lambda j, k: E.mk(fX, (j, k))))
    c.tensor(f"{tag}: frame: the input is unchanged", X, [n, C], lambda j, k: E.mk(fX, (j, k)))
    c.tensor(f"{tag}: frame: the input vector is unchanged", x, [n], lambda j: E.mk(fx, (j,)))


def setup(c, *valid):
    M, N, m, n = sizes(c, "M", "N", "m", "n")
    A = N_.GivenOperator("A", (M, N))
    rows, row, okr = index_list(c, "rows", m, M)
    cols, col, okc = index_list(c, "cols", n, N)
    return A, M, N, m, n, rows, row, okr, cols, col, okc


from vc import npstub as N_


def products(c):
    A, M, N, m, n, rows, row, okr, cols, col, okc = setup(c)
    c.assume(SymBool(z3.And(okr, okc)))
    Sub = c.world.module("curvlinops.submatrix").SubmatrixLinearOperator
    op = Sub(A, rows, cols)
    check_products(c, op, A, row, m, col, n, "submatrix")
    ad = op.adjoint()
    check_products(c, ad, entry_T(A), col, n, row, m, "adjoint")


def accepts_iff_valid(c):
    A, M, N, m, n, rows, row, okr, cols, col, okc = setup(c)
    Sub = c.world.module("curvlinops.submatrix").SubmatrixLinearOperator
    op, e = c.call(Sub, A, rows, cols)
    if e is None:
        c.holds("accepted index lists are valid", SymBool(z3.And(okr, okc)))
        c.holds("accepted: shape", E.sym_and(op.shape[0] == m, op.shape[1] == n))
    else:
        c.true("rejected with a ValueError", isinstance(e, ValueError), repr(e))
        c.holds("rejected index lists are invalid", SymBool(z3.Not(z3.And(okr, okc))))


def redefinition(c):
    A, M, N, m, n, rows, row, okr, cols, col, okc = setup(c)
    c.assume(SymBool(z3.And(okr, okc)))
    Sub = c.world.module("curvlinops.submatrix").SubmatrixLinearOperator
    op = Sub(A, rows, cols)
    m2, n2 = sizes(c, "m2", "n2")
    rows2, row2, okr2 = index_list(c, "rows2", m2, M)
    cols2, col2, okc2 = index_list(c, "cols2", n2, N)
    r, e = c.call(op.set_submatrix, rows2, cols2)
    if e is None:
        c.holds("accepted index lists are valid", SymBool(z3.And(okr2, okc2)))
        check_products(c, op, A, row2, m2, col2, n2, "redefined")
    else:
        c.true("rejected with a ValueError", isinstance(e, ValueError), repr(e))
        c.holds("rejected index lists are invalid", SymBool(z3.Not(z3.And(okr2, okc2))))
        check_products(c, op, A, row, m, col, n, "after a rejected redefinition")


def non_integers(c):
    """One element of one list is no integer; all else is arbitrary."""
    A, M, N, m, n, rows, row, okr, cols, col, okc = setup(c)
    c.assume(SymBool(z3.And(okr, okc)))
    bad = c.choice([1.0, "0", None, 2.5], "element")
    good, lst, k = (rows, cols, n) if c.choice([False, True], "in columns") else (cols, rows, m)
    before, after = sizes(c, "before", "after", least=0)
    f, g = E.Fun("b", sort="I"), E.Fun("a", sort="I")
    lst = P.VList(P.Seq([("s", before, lambda i: E.mk(f, (i,))), ("c", [bad]), ("s", after, lambda i: E.mk(g, (i,)))]))
    Sub = c.world.module("curvlinops.submatrix").SubmatrixLinearOperator
    args = (lst, good) if good is cols else (good, lst)
    c.raises("non-integers are rejected", lambda: Sub(A, *args), ValueError)
    op = Sub(A, rows, cols)
    c.raises("non-integers are rejected in a redefinition", lambda: op.set_submatrix(*args), ValueError)
    check_products(c, op, A, row, m, col, n, "after non-integers")


CASES = [("products", products, {}), ("accepts iff valid", accepts_iff_valid, {}), ("redefinition", redefinition, {}),
         ("non-integers", non_integers, {})]
