from specs.common_torch import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED, _c.ASSUMPTIONS + [
    "model and loss function are (twice) differentiable and depend on their arguments only"]


def product(c):
    red = c.choice(["mean", "sum"], "reduction")
    mapping = c.choice([False, True], "dict-like inputs")
    dt = SymDType("dt")
    B = Batches(c, mapping)
    model, loss = Model(B), GenericLoss(red)
    Pn, K = sizes(c, "P", "K")
    space = Space("param", Pn)
    params = param_list(space, dt)
    kw = {"batch_size_fn": lambda X: X["x"].shape[0]} if mapping else {}
    op = c.world.module("curvlinops.ggn").GGNLinearOperator(
        model, loss, params, B.data(), check_deterministic=False, **kw)
    w = (lambda b: ONE) if red == "sum" else (lambda b: B.n(b) / B.total())
    fV = E.Fun("V")
    V = space.tensors(fV, K, dtype=dt)

    def expected(m, o, k):
        def batch(b):
            X, y = B.X(b), B.y(b)
            F = model.tensor(X)
            dims = F.dims
            J = lambda a, j, i: d1(model.entry(X, *a), j, i)
            return w(b) * idx_sum(dims, lambda *a: idx_sum(dims, lambda *e: space.sum(
                lambda j, i: J(a, m, o) * loss_hessian(loss, F, y, a, e) * J(e, j, i) * E.mk(fV, (j, i, k)))))
        return B.sum(batch)
    tensor_list(c, "product", op @ V, space, [K], expected)
    tensor_list(c, "second product", op @ V, space, [K], expected)
    unchanged_list(c, "frame: input", V, space, fV, [K])
    data_unchanged(c, B)
    unchanged_list(c, "frame: parameters", params, space, E.Fun(TS.THETA, deps=[TS.THETA]), [])
    c.raises("blocks are not supported", lambda: c.world.module("curvlinops.ggn").GGNLinearOperator(
        model, loss, params, B.data(), check_deterministic=False, block_sizes=P.VList([Pn]), **kw), ValueError)


CASES = [("product", product, {})]
