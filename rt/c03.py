"""C03: Hessian."""
import torch
from torch import nn

from rt.common import case, ensure, raises
from rt.zoo import DT, Problem, check_operator, hessian, spread


@case("C03", reps=16, thorough=400)
def matrix(rng):
    from curvlinops import HessianLinearOperator

    p = Problem(rng)
    n = len(p.params)
    blocks = rng.choice([None, "rand", "ones"])
    if blocks == "rand":
        blocks = spread(rng, n, rng.randint(1, n))
    elif blocks == "ones":
        blocks = [1] * n
    A = HessianLinearOperator(p.model, p.loss_func, p.params, p.data,
                              **p.kw(block_sizes=blocks))
    try:
        H = hessian(p.risk(), p.params, blocks)
    except RuntimeError:
        H = torch.zeros(p.D, p.D, dtype=DT)
    shapes = [tuple(q.shape) for q in p.params]
    check_operator(A, H, rng, ensure, f"Hessian, blocks {blocks}, {p.desc()}", shapes, shapes)


@case("C03", reps=10, thorough=200)
def blocks(rng):
    """Many parameters, several uneven blocks."""
    from curvlinops import HessianLinearOperator

    m = nn.Sequential(nn.Linear(2, 2), nn.Tanh(), nn.Linear(2, 2, bias=rng.random() < 0.5),
                      nn.Sigmoid(), nn.Linear(2, 1)).to(DT)
    params = list(m.parameters())
    rng.shuffle(params)
    n = len(params)
    blocks = spread(rng, n, rng.randint(2, n))
    data = [(torch.randn(k, 2, dtype=DT), torch.randn(k, 1, dtype=DT)) for k in (2, 1)]
    L = nn.MSELoss(reduction="sum")
    A = HessianLinearOperator(m, L, params, data, check_deterministic=False, block_sizes=blocks)
    risk = sum(L(m(x), y) for x, y in data)
    shapes = [tuple(q.shape) for q in params]
    check_operator(A, hessian(risk, params, blocks), rng, ensure, f"Hessian blocks {blocks}",
                   shapes, shapes)


@case("C03", reps=6, thorough=60)
def rejected(rng):
    from curvlinops import (EFLinearOperator, FisherMCLinearOperator, GGNLinearOperator,
                            HessianLinearOperator)
    from curvlinops._torch_base import CurvatureLinearOperator

    p = Problem(rng)
    n = len(p.params)
    bad = [[n + 1], [n, 1], [n - 1] if n > 1 else [n + 2], [n, 0], [0] + [n], [n + 1, -1],
           [-1, n + 1], []]
    for b in bad:
        raises(ValueError, lambda: HessianLinearOperator(
            p.model, p.loss_func, p.params, p.data, **p.kw(block_sizes=b)),
            f"block sizes {b} for {n} parameters")

    class NoBlocks(CurvatureLinearOperator):
        pass

    raises(ValueError, lambda: NoBlocks(p.model, p.loss_func, p.params, p.data,
                                        **p.kw(block_sizes=[n])), "blocks for an operator without")
    raises(ValueError, lambda: GGNLinearOperator(p.model, p.loss_func, p.params, p.data,
                                                 **p.kw(block_sizes=[n])), "blocks for the GGN")
