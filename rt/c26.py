"""C26: patches."""
import torch

from rt.common import Skip, case, ensure, raises
from rt.kfz import pad_amounts, pair, patches
from rt.zoo import DT, close


def setup(rng):
    g = rng.randint(1, 3)
    N, C = rng.randint(1, 2), g * rng.randint(1, 2)
    I = (rng.randint(1, 6), rng.randint(1, 6))
    one = lambda xs: rng.choice(xs) if rng.random() < 0.5 else (rng.choice(xs), rng.choice(xs))  # noqa
    cfg = dict(kernel_size=one([1, 2, 3]), stride=one([1, 2, 3]), padding=one([0, 1, 2]),
               dilation=one([1, 2]), groups=g)
    if rng.random() < 0.35:
        cfg["padding"] = rng.choice(["same", "valid"])
        if cfg["padding"] == "same":
            cfg["stride"] = 1
    x = torch.randn(N, C, *I, dtype=DT)
    K, D = pair(cfg["kernel_size"]), pair(cfg["dilation"])
    P = [pad_amounts(cfg["padding"] if isinstance(cfg["padding"], str) else pair(cfg["padding"])[a],
                     K[a], 1, D[a], I[a]) for a in (0, 1)]
    for a in (0, 1):
        if I[a] + sum(P[a]) < D[a] * (K[a] - 1) + 1:
            raise Skip
    return x, cfg, P


@case("C26", reps=150, thorough=2000)
def equal(rng):
    from curvlinops.kfac_utils import extract_averaged_patches, extract_patches

    x, cfg, P = setup(rng)
    order = ("kernel_size", "stride", "padding", "dilation", "groups")
    args = [cfg[k] for k in order]
    ref = patches(x, *args)
    flat = ref.reshape(x.shape[0], -1, ref.shape[-1])
    x0 = x.clone()
    got = extract_averaged_patches(x, *args)
    ensure(close(got, flat.mean(1)), f"averaged patches {cfg}, input {tuple(x.shape)}")
    if all(l == r for l, r in P):
        got = extract_patches(x, *args)
        ensure(close(got, flat), f"patches {cfg}, input {tuple(x.shape)}", got=got.shape)
        num = dict(cfg, padding=(P[0][0], P[1][0]))
        ensure(close(extract_patches(x, *[num[k] for k in order]), got), f"padding {cfg}")
        # they reproduce the convolution
        C = x.shape[1]
        if cfg["groups"] == 1:
            K = pair(cfg["kernel_size"])
            W = torch.randn(2, C, *K, dtype=DT)
            out = torch.nn.functional.conv2d(x, W, stride=cfg["stride"], padding=cfg["padding"],
                                             dilation=cfg["dilation"])
            mine = torch.einsum("nop,cp->nco", got, W.reshape(2, -1))
            ensure(close(mine, out.reshape(*mine.shape)), f"convolution {cfg}")
    else:
        raises(NotImplementedError, lambda: extract_patches(x, *args), f"unequal padding {cfg}")
    ensure(torch.equal(x, x0), "the input was modified")
