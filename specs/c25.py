"""The matrix square root of the loss Hessian of one data point."""
from specs.c05 import KINDS
from specs.common_torch import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED, _c.ASSUMPTIONS + [
    "gradients of the losses of one data point w.r.t. its prediction: 2 (f - y), softmax(f) - onehot(y), sigmoid(f) - y"]

FF, FY = E.Fun("f"), E.Fun("y")


def run(c, pred, y, loss):
    return c.world.module("curvlinops.kfac_utils").loss_hessian_matrix_sqrt(pred, y, loss)


def setup(c, kind, n=ONE, m=ONE):
    C, = sizes(c, "C")
    dt = SymDType("dt")
    pred = TS.Tensor.make([n, C], lambda i, q: E.mk(FF, (i, q)), dt)
    if kind == "CrossEntropyLoss":
        y = TS.Tensor.make([m], lambda i: E.mk(FY, (i,)), TT.DType("int64"))
    else:
        y = TS.Tensor.make([m, C], lambda i, q: E.mk(FY, (i, q)), dt)
    return C, dt, pred, y


def gradient(kind, C, i):
    """Derivative of the loss (sum over the entries) w.r.t. entry i of the prediction."""
    f = lambda q: E.mk(FF, (ZERO, q))
    if kind == "MSELoss":
        return 2 * (f(i) - E.mk(FY, (ZERO, i)))
    if kind == "CrossEntropyLoss":
        return E.ex_exp(f(i)) / E.Sum(C, lambda q: E.ex_exp(f(q))) - E.delta(E.mk(FY, (ZERO,)), i)
    return 1 / (1 + E.ex_exp(-f(i))) - E.mk(FY, (ZERO, i))


def root(c, kind):
    red = c.choice(["mean", "sum"], "reduction")
    C, dt, pred, y = setup(c, kind)
    S, e = c.call(lambda: run(c, pred, y, getattr(TS, kind)(reduction=red)))
    preds = [str(z) for z in c.ctx.pc]
    if e is not None:
        c.true("rejected only if the labels are not binary", kind == "BCEWithLogitsLoss" and isinstance(
            e, NotImplementedError) and any("Not(values:0&1<" in z for z in preds), f"{type(e).__name__}: {e}")
        return
    if kind == "BCEWithLogitsLoss":
        c.true("accepted labels are binary", any("values:0&1<" in z for z in preds) and not any(
            "Not(values" in z for z in preds), str(preds)[:200])
    c.true("data type", S.dtype is dt or S.dtype == dt, str(S.dtype))
    s = ONE if red == "sum" or kind == "CrossEntropyLoss" else ONE / C

    def leaf(k):
        return lambda b: E.delta(b.args[1], k) if b.fun is FF else None
    at = S.snapshot()
    c.tensor("S has one row and column per class", S, [C, C], lambda i, j: at(i, j))
    c.tensor("S S^T is the Hessian", TS.Tensor.make([C, C], lambda i, j: E.Sum(C, lambda q: at(i, q) * at(j, q)), dt),
             [C, C], lambda i, j: s * E.diff(gradient(kind, C, i), "@spec", (), leaf(j)))
    c.tensor("frame: prediction", pred, [ONE, C], lambda i, q: E.mk(FF, (i, q)))


def rejected(c):
    kind = c.choice(KINDS, "loss")
    what = c.choice(["predictions", "labels", "both", "1d", "3d", "loss"], "what")
    n, = sizes(c, "n", least=2)
    C, dt, pred, y = setup(c, kind, n if what in ("predictions", "both") else ONE, n if what in ("labels", "both") else ONE)
    if what == "1d":
        pred = pred[0]
    if what == "3d":
        pred = pred.unsqueeze(c.choice([0, 1, 2], "axis"))
    loss = c.choice([TS.L1Loss(), GenericLoss("mean")], "unsupported") if what == "loss" else getattr(TS, kind)()
    c.raises("unsupported losses: NotImplementedError" if what == "loss" else "several data points: ValueError",
             lambda: run(c, pred, y, loss), NotImplementedError if what == "loss" else ValueError)


CASES = [(k, lambda c, k=k: root(c, k), {}) for k in KINDS] + [("rejected", rejected, {})]
