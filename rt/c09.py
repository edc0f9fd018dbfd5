"""C09: total gradient and loss."""
import torch

from rt.common import case, ensure, raises
from rt.zoo import DT, Problem, close, dgrad, err


@case("C09", reps=60, thorough=800)
def gradient(rng):
    from curvlinops import EFLinearOperator, GGNLinearOperator, HessianLinearOperator

    p = Problem(rng)
    cls = rng.choice([EFLinearOperator, GGNLinearOperator, HessianLinearOperator])
    num = rng.choice([None, None, p.N + rng.randint(1, 3)])
    A = cls(p.model, p.loss_func, p.params, p.data, **p.kw(num_data=num))
    if rng.random() < 0.3:
        A @ torch.ones(p.D, dtype=DT)
    g, l = A.gradient_and_loss()
    risk = p.risk()
    if num is not None and p.reduction == "mean":
        risk = risk * p.N / num
    for _ in range(2):
        ensure(tuple(l.shape) == () and l.dtype == DT, f"loss of shape {l.shape}")
        ensure(close(l.detach(), risk.detach()), f"loss {l.item()} instead of {risk.item()}",
               problem=p.desc(), num_data=num)
        ensure(len(g) == len(p.params), "length of the gradient")
        for a, b in zip(g, dgrad(risk, p.params)):
            ensure(close(a, b), "gradient: " + err(a, b), problem=p.desc())
        g, l = A.gradient_and_loss()
    ensure(all(q.grad is None for q in p.params), "parameters' .grad fields are modified")


@case("C09", reps=4, thorough=30)
def rejected(rng):
    from curvlinops import JacobianLinearOperator, TransposedJacobianLinearOperator

    p = Problem(rng)
    for cls in (JacobianLinearOperator, TransposedJacobianLinearOperator):
        A = cls(p.model, p.params, p.data, **p.kw())
        raises(ValueError, A.gradient_and_loss, f"gradient for {cls.__name__}")
