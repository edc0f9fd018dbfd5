from specs.common_np import *
from specs import common_np as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED, _c.ASSUMPTIONS


def make(c, projector):
    Dn, K = sizes(c, "D", "K")
    m = c.world.module("curvlinops.outer")
    A, fA = array("A", [Dn, K])
    coef, fc = array("c", [K])
    op = m.Projector(A) if projector else m.OuterProductLinearOperator(coef, A)

    def spec(x):
        return lambda i, *col: E.Sum(K, lambda k: (ONE if projector else E.mk(fc, (k,))) * E.mk(fA, (i, k)) * E.Sum(
            Dn, lambda j: E.mk(fA, (j, k)) * x(j, *col)))

    return op, spec, Dn, K, A, coef


def products(projector):
    def case(c):
        op, spec, Dn, K, A, coef = make(c, projector)
        c.true("shape", op.shape[0] == Dn and op.shape[1] == Dn)
        x, fx = array("x", [Dn])
        y = op @ x
        c.tensor("vector product", y, [Dn], spec(lambda j: E.mk(fx, (j,))))
        C, = sizes(c, "C", least=1)
        X, fX = array("X", [Dn, C])
        Y = op @ X
        c.tensor("matrix product", Y, [Dn, C], lambda i, k: spec(lambda j, q: E.mk(fX, (j, q)))(i, k))
        Z = op.adjoint() @ X
        c.tensor("adjoint matrix product", Z, [Dn, C], lambda i, k: spec(lambda j, q: E.mk(fX, (j, q)))(i, k))
        z = op.adjoint() @ x
        c.tensor("adjoint vector product", z, [Dn], spec(lambda j: E.mk(fx, (j,))))
        for t, f, n in ((A, "A", 2), (coef, "c", 1), (X, "X", 2), (x, "x", 1)):
            g = E.Fun(f)
            c.tensor(f"frame: {f} is unchanged", t, [d.size for d in t.dims], lambda *i: E.mk(g, tuple(i)))
    return case


CASES = [("outer", products(False), {}), ("projector", products(True), {})]
