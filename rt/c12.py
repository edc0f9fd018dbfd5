"""C12: KFAC product."""
import torch

from rt.common import case, ensure, raises
from rt.kfz import KProblem, config, make, reference
from rt.zoo import DT, check_operator


@case("C12", reps=60, thorough=800)
def product(rng):
    p = KProblem(rng, subset=rng.random() < 0.8)
    cfg = config(rng)
    op = make(p, **cfg)
    A, B = reference(p, cfg)
    shapes = [tuple(q.shape) for q in p.params]
    check_operator(op, p.dense(A, B, cfg["separate_weight_and_bias"]), rng, ensure,
                   f"KFAC {cfg}, {p.desc()}", shapes, shapes)


@case("C12", reps=20, thorough=200)
def product_mc(rng):
    p = KProblem(rng, subset=True)
    cfg = dict(config(rng), fisher_type="mc", mc_samples=rng.choice([1, 2]))
    op = make(p, **cfg)
    op @ torch.ones(p.D, dtype=DT)
    s = op.state_dict()
    shapes = [tuple(q.shape) for q in p.params]
    check_operator(op, p.dense(s["input_covariances"], s["gradient_covariances"],
                               cfg["separate_weight_and_bias"]), rng, ensure,
                   f"KFAC (MC) {p.desc()}", shapes, shapes)


@case("C12", reps=4, thorough=20)
def rejected(rng):
    from torch import nn

    m = nn.Sequential(nn.Linear(2, 2), nn.LayerNorm(2), nn.Linear(2, 1)).to(DT)
    from curvlinops import KFACLinearOperator

    data = [(torch.randn(2, 2, dtype=DT), torch.randn(2, 1, dtype=DT))]
    raises(NotImplementedError, lambda: KFACLinearOperator(
        m, nn.MSELoss(), list(m.parameters()), data, check_deterministic=False), "LayerNorm")
