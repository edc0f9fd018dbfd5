from specs.common_torch import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED, _c.ASSUMPTIONS + [
    "the model is differentiable, depends on its arguments only, and yields one row of outputs per data point"]


def setup(c, which):
    mapping = c.choice([False, True], "dict-like inputs")
    dt = SymDType("dt")
    B = Batches(c, mapping)
    model = Model(B)
    Pn, K = sizes(c, "P", "K")
    space = Space("param", Pn)
    params = param_list(space, dt)
    mod = c.world.module("curvlinops.jacobian")
    kw = {"batch_size_fn": lambda X: X["x"].shape[0]} if mapping else {}
    if c.choice([False, True], "num_data"):
        kw["num_data"] = B.total()
    op = getattr(mod, which)(model, params, B.data(), check_deterministic=False, **kw)
    return op, B, model, space, params, K, dt, mod


def rows(B):
    """The axis of all data points."""
    return TT.DSum(B.nb, lambda b: TT.D(B.n(b)))


def check_J(c, name, op, B, model, space, K, dt):
    fV = E.Fun("V")
    V = space.tensors(fV, K, dtype=dt)
    Y = P.as_seq(op @ V)
    c.holds(name + ": one tensor", Ex.of(Y.length()) == 1)
    c.tensor(name, Y.get(ZERO), [rows(B)] + model.out + [K], lambda r, *i: space.sum(lambda j, q: d1(
        model.entry(B.X(r[1]), r[2], *i[:-1]), j, q) * E.mk(fV, (j, q, i[-1]))))
    unchanged_list(c, name + ", frame: input", V, space, fV, [K])
    c.holds(name + ": shape", E.sym_and(op.shape[0] == B.total() * model.out[0].size,
                                        op.shape[1] == space.flat().size))


def check_JT(c, name, op, B, model, space, K, dt):
    fW = E.Fun("W")
    dims = [rows(B)] + model.out + [TT.D(K)]

    def fn(r, *i):
        return E.mk(fW, (r[1], r[2]) + tuple(i))
    W = TS.Tensor.make(dims, fn, dt, name="W")
    Y = op @ P.VList([W])
    tensor_list(c, name, Y, space, [K], lambda j, q, k: B.sum(lambda b: E.Sum(B.n(b), lambda n: idx_sum(
        model.out, lambda *o: d1(model.entry(B.X(b), n, *o), j, q) * E.mk(fW, (b, n) + o + (k,))))))
    c.tensor(name + ", frame: input", W, dims, fn)
    c.holds(name + ": shape", E.sym_and(op.shape[1] == B.total() * model.out[0].size,
                                        op.shape[0] == space.flat().size))


def jacobian(c):
    op, B, model, space, params, K, dt, mod = setup(c, "JacobianLinearOperator")
    if c.choice([False, True], "adjoint"):
        check_JT(c, "adjoint", op.adjoint(), B, model, space, K, dt)
    else:
        check_J(c, "product", op, B, model, space, K, dt)
    frame(c, B, params, space)


def transposed(c):
    op, B, model, space, params, K, dt, mod = setup(c, "TransposedJacobianLinearOperator")
    if c.choice([False, True], "adjoint"):
        check_J(c, "adjoint", op.adjoint(), B, model, space, K, dt)
    else:
        check_JT(c, "product", op, B, model, space, K, dt)
    frame(c, B, params, space)


def frame(c, B, params, space):
    data_unchanged(c, B)
    unchanged_list(c, "frame: parameters", params, space, E.Fun(TS.THETA, deps=[TS.THETA]), [])


CASES = [("Jacobian", jacobian, {}), ("transposed Jacobian", transposed, {})]
