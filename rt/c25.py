"""C25: square root of the loss Hessian."""
import torch
from torch import nn

from rt.common import case, ensure, raises
from rt.zoo import DT, close, make_loss


@case("C25", reps=150, thorough=2000)
def square(rng):
    from curvlinops.kfac_utils import loss_hessian_matrix_sqrt

    loss = rng.choice(["mse", "ce", "bce"])
    C = rng.randint(1, 6)
    red = rng.choice(["mean", "sum"])
    f = torch.randn(1, C, dtype=DT) * rng.choice([0.1, 1, 5, 20])
    if loss == "ce":
        y = torch.randint(C, (1,))
    elif loss == "bce":
        y = torch.randint(2, (1, C)).to(DT)
        if rng.random() < 0.3:
            y = torch.full((1, C), float(rng.randint(0, 1)), dtype=DT)
    else:
        y = torch.randn(1, C, dtype=DT)
    L = make_loss(loss, red)
    f0 = f.clone()
    S = loss_hessian_matrix_sqrt(f, y, L)
    ensure(S.shape == (C, C) and S.dtype == DT, f"shape {S.shape}")
    # documented scaling
    x = f[0]
    if loss == "mse":
        want = 2 * torch.eye(C, dtype=DT)
    elif loss == "ce":
        e = torch.exp(x - x.max())
        p = e / e.sum()
        want = torch.diag(p) - torch.outer(p, p)
    else:
        p = 1 / (1 + torch.exp(-x))
        want = torch.diag(p * (1 - p))
    if red == "mean" and loss != "ce":
        want = want / C
    ensure(close(S @ S.T, want), f"{loss}/{red}: S Sᵀ is not the Hessian", f=f, S=S)
    H = torch.autograd.functional.hessian(lambda z: L(z.reshape(1, C), y), f.reshape(-1))
    ensure(close(S @ S.T, H, atol=1e-7), f"{loss}/{red}: S Sᵀ is not autograd's Hessian", f=f)
    ensure(torch.equal(f, f0), "the prediction was modified")


@case("C25", reps=40, thorough=300)
def rejected(rng):
    from curvlinops.kfac_utils import loss_hessian_matrix_sqrt as fun

    C = rng.randint(1, 4)
    loss = rng.choice(["mse", "ce", "bce"])
    L = make_loss(loss, rng.choice(["mean", "sum"]))
    n = rng.randint(2, 3)

    def y(n):
        return torch.randint(C, (n,)) if loss == "ce" else torch.ones(n, C, dtype=DT)

    f = torch.randn(1, C, dtype=DT)
    raises(ValueError, lambda: fun(torch.randn(n, C, dtype=DT), y(1), L), "several predictions")
    raises(ValueError, lambda: fun(torch.randn(n, C, dtype=DT), y(n), L), "several data points")
    raises(ValueError, lambda: fun(f, y(n), L), "several labels")
    raises(ValueError, lambda: fun(f[0], y(1), L), "1d prediction")
    raises(ValueError, lambda: fun(f[None], y(1), L), "3d prediction")
    t = torch.randint(2, (1, C)).to(DT)
    t[0, rng.randrange(C)] = rng.choice([0.5, -1.0, 2.0, 0.999])
    raises(NotImplementedError, lambda: fun(f, t, make_loss("bce", "mean")), f"labels {t}")
    for bad in (nn.L1Loss(), nn.NLLLoss(), torch.nn.functional.mse_loss, nn.SmoothL1Loss()):
        raises(NotImplementedError, lambda: fun(f, torch.ones(1, C, dtype=DT), bad), f"{bad}")
