"""C05: empirical Fisher."""
import torch
from torch import nn

from rt.common import case, ensure, raises
from rt.zoo import DT, Problem, check_operator, dgrad, flatcat, per_term_loss


def ef(p, params):
    E = 0
    out, y = p.out2d(p.X), p.y2d(p.y)
    for f, t in zip(out, y):
        g = flatcat(dgrad(per_term_loss(p.loss_name, f, t), params))
        E = E + torch.outer(g, g)
    if p.reduction == "mean":
        n = out.shape[0]
        E = E / (n if p.loss_name == "ce" else n * p.C)
    return E


@case("C05", reps=24, thorough=500)
def matrix(rng):
    from curvlinops import EFLinearOperator

    p = Problem(rng)
    A = EFLinearOperator(p.model, p.loss_func, p.params, p.data, **p.kw())
    shapes = [tuple(q.shape) for q in p.params]
    check_operator(A, ef(p, p.params), rng, ensure, f"EF, {p.desc()}", shapes, shapes)


@case("C05", reps=2, thorough=10)
def rejected(rng):
    from curvlinops import EFLinearOperator

    p = Problem(rng, losses=("mse",))
    for L in (nn.L1Loss(), nn.SmoothL1Loss(), nn.BCELoss(), lambda f, y: ((f - y) ** 2).sum()):
        raises(NotImplementedError, lambda: EFLinearOperator(
            p.model, L, p.params, p.data, **p.kw()), f"loss {L}")
