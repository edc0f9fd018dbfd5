from specs.common_torch import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED, _c.ASSUMPTIONS + [
    "model and loss function are differentiable and depend on their arguments only"]


def setup(c, loss=GenericLoss):
    mapping = c.choice([False, True], "dict-like inputs")
    dt = SymDType("dt")
    B = Batches(c, mapping)
    model = Model(B)
    Pn, = sizes(c, "P")
    space = Space("param", Pn)
    params = param_list(space, dt)
    kw = {"batch_size_fn": lambda X: X["x"].shape[0]} if mapping else {}
    if c.choice([False, True], "num_data"):
        kw["num_data"] = B.total()
    cls = c.choice([("curvlinops._torch_base", "CurvatureLinearOperator"),
                    ("curvlinops.hessian", "HessianLinearOperator"),
                    ("curvlinops.ggn", "GGNLinearOperator")], "class")
    op = getattr(c.world.module(cls[0]), cls[1])(model, loss, params, B.data(), check_deterministic=False, **kw)
    return op, B, model, space, params


def total(c):
    red = c.choice(["mean", "sum"], "reduction")
    loss = GenericLoss(red)
    op, B, model, space, params = setup(c, loss)
    w = (lambda b: ONE) if red == "sum" else (lambda b: B.n(b) / B.total())
    risk = B.sum(lambda b: w(b) * loss.value(model.tensor(B.X(b)), B.y(b)))
    for name in ("", "second time: "):
        g, l = op.gradient_and_loss()
        c.eq(name + "loss", l, risk)
        tensor_list(c, name + "gradient", g, space, [], lambda j, i: d1(risk, j, i))
    data_unchanged(c, B)
    unchanged_list(c, "frame: parameters", params, space, E.Fun(TS.THETA, deps=[TS.THETA]), [])


def reduction(c):
    """For losses that are a sum or mean of per-datum losses, the result is the one on the whole data set."""
    B = Batches(c)
    red = c.choice(["mean", "sum"], "reduction")
    model = Model(B)
    ell = E.Fun("ell")
    Pn, = sizes(c, "P")
    space = Space("param", Pn)

    def datum(b, n):
        X = lam(B.X(b))
        row = E.Lam([d.size for d in model.out], lambda o: model.entry(X, n, *o))
        return E.mk(ell, (row, E.Lam([d.size for d in B.ydims], lambda o: B.y(b).at(n, *o))))

    class PerDatum(Loss):
        def __call__(self, pred, y):
            n = pred.dims[0].size
            s, sy = pred.snapshot(), y.snapshot()
            x = E.Sum(n, lambda i: E.mk(ell, (E.Lam([d.size for d in pred.dims[1:]], lambda o: s(i, *o)),
                                              E.Lam([d.size for d in y.dims[1:]], lambda o: sy(i, *o)))))
            t = TS.Tensor.make([], lambda: x / n if red == "mean" else x, pred.dtype_, name="loss")
            t.requires_grad = True
            return t
    op = c.world.module("curvlinops._torch_base").CurvatureLinearOperator(
        model, PerDatum(red), param_list(space, SymDType("dt")), B.data(), check_deterministic=False)
    risk = B.sum(lambda b: E.Sum(B.n(b), lambda n: datum(b, n))) * (ONE / B.total() if red == "mean" else ONE)
    g, l = op.gradient_and_loss()
    c.eq("loss on the whole data set", l, risk)
    tensor_list(c, "gradient on the whole data set", g, space, [], lambda j, i: d1(risk, j, i))


def no_loss(c):
    op, *_ = setup(c, None)
    c.raises("no loss function: ValueError", lambda: op.gradient_and_loss(), ValueError)


CASES = [("total", total, {}), ("per-datum losses", reduction, {}), ("no loss", no_loss, {})]
