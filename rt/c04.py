"""C04: GGN."""
import torch

from rt.common import case, ensure
from rt.zoo import DT, Problem, check_operator, jacobian


def ggn(p, params):
    G = 0
    o = 0
    for n in p.sizes:
        x, y = p.X[o : o + n], p.y[o : o + n]
        out = p.core(x)
        J = jacobian(out, params)
        f = out.detach()
        H = torch.autograd.functional.hessian(
            lambda z: p.loss_func(z.reshape(f.shape), y), f.reshape(-1))
        w = 1.0 if p.reduction == "sum" else n / p.N
        G = G + w * J.T @ H @ J
        o += n
    return G


@case("C04", reps=18, thorough=400)
def matrix(rng):
    from curvlinops import GGNLinearOperator

    p = Problem(rng)
    A = GGNLinearOperator(p.model, p.loss_func, p.params, p.data, **p.kw())
    shapes = [tuple(q.shape) for q in p.params]
    check_operator(A, ggn(p, p.params), rng, ensure, f"GGN, {p.desc()}", shapes, shapes)


@case("C04", reps=4, thorough=50)
def custom_loss(rng):
    """Losses need not be PyTorch modules with a known form."""
    from curvlinops import GGNLinearOperator

    p = Problem(rng, losses=("mse",))

    class L:
        reduction = p.reduction

        def __call__(self, f, y):
            t = ((f - y) ** 4).sum() + torch.sin(f).sum() * torch.cos(f).sum()
            return t if self.reduction == "sum" else t / f.shape[0]

    p.loss_func = L()
    A = GGNLinearOperator(p.model, p.loss_func, p.params, p.data, **p.kw())
    shapes = [tuple(q.shape) for q in p.params]
    check_operator(A, ggn(p, p.params), rng, ensure, f"GGN (custom loss), {p.desc()}",
                   shapes, shapes)
