"""C13: trace, determinants, norm."""
import torch

from rt.common import case, ensure
from rt.kfz import KProblem, config, make
from rt.zoo import DT, close


PROPS = ("trace", "det", "logdet", "frobenius_norm")


def value(M, name):
    if name == "trace":
        return M.diagonal().sum()
    if name == "det":
        return torch.linalg.det(M)
    if name == "logdet":
        s, l = torch.linalg.slogdet(M)
        return l if s > 0 else torch.tensor(float("nan"), dtype=DT)
    return M.square().sum().sqrt()


def regular(rng, op, p, sep, extreme=False):
    """Load well-conditioned factors (also non-symmetric shapes of sizes).

    With ``extreme``, the determinants leave the floating point range."""
    s = dict(op.state_dict())
    A, B = {}, {}
    for name, mod, pos in p.layers():
        n = mod.weight.shape[0]
        m = mod.weight[0].numel() + (1 if "bias" in pos and "weight" in pos and not sep else 0)

        def spd(k):
            R = torch.randn(k, k, dtype=DT)
            S = R @ R.T / k + rng.uniform(0.3, 1.2) * torch.eye(k, dtype=DT)
            return S * 10.0 ** (rng.choice([-1, 1]) * min(360 / k, 200)) if extreme else S

        B[name] = spd(n)
        if "weight" in pos:
            A[name] = spd(m)
    s["input_covariances"], s["gradient_covariances"] = A, B
    for k in PROPS:
        s[k] = None
    op.load_state_dict(s)
    return (A, B) if extreme else p.dense(A, B, sep)


@case("C13", reps=10, thorough=200)
def extreme_logdet(rng):
    """The log determinant is exact also if determinants are not representable."""
    p = KProblem(rng)
    cfg = config(rng, mc=True)
    op = make(p, **cfg)
    sep = cfg["separate_weight_and_bias"]
    A, B = regular(rng, op, p, sep, extreme=True)
    want = 0.0
    for name, mod, pos in p.layers():
        b, n = torch.linalg.slogdet(B[name])[1], B[name].shape[0]
        blocks = ["joint"] if len(pos) == 2 and not sep else list(pos)
        for blk in blocks:
            if blk == "bias":
                want = want + b
            else:
                want = want + A[name].shape[0] * b + n * torch.linalg.slogdet(A[name])[1]
    got = torch.as_tensor(op.logdet, dtype=DT)
    ensure(torch.allclose(got, torch.as_tensor(want, dtype=DT), rtol=1e-7, atol=1e-6),
           f"logdet is {got} instead of {want}, {cfg}, {p.desc()}")


def check(op, K, names, what, rng):
    for name in names:
        want = value(K, name)
        for _ in range(rng.randint(1, 2)):
            got = torch.as_tensor(getattr(op, name), dtype=DT)
            if name == "logdet" and (torch.isnan(want) or want < -600):
                continue
            ok = torch.allclose(got.detach(), want, rtol=1e-6, atol=1e-12 if name == "det" else 1e-9)
            ensure(ok, f"{name} is {got.item()} instead of {want.item()}, {what}")


@case("C13", reps=60, thorough=800)
def regular_factors(rng):
    p = KProblem(rng)
    cfg = config(rng, mc=True)
    op = make(p, **cfg)
    K = regular(rng, op, p, cfg["separate_weight_and_bias"])
    names = list(PROPS)
    rng.shuffle(names)
    what = f"{cfg}, {p.desc()}"
    check(op, K, names, what, rng)
    v = torch.randn(p.D, dtype=DT)
    Kv = K @ v
    ensure(close(op @ v, Kv), "product after the properties were computed, " + what)
    check(op, K, names, "after a product, " + what, rng)
    K = regular(rng, op, p, cfg["separate_weight_and_bias"])
    check(op, K, names, "after other factors were loaded, " + what, rng)


@case("C13", reps=20, thorough=200)
def computed_factors(rng):
    p = KProblem(rng)
    cfg = config(rng, mc=True)
    op = make(p, **cfg)
    names = list(PROPS)
    rng.shuffle(names)
    first = {n: getattr(op, n) for n in names}  # triggers the computation
    s = op.state_dict()
    K = p.dense(s["input_covariances"], s["gradient_covariances"], cfg["separate_weight_and_bias"])
    check(op, K, ["trace", "frobenius_norm"], f"first access, {cfg}, {p.desc()}", rng)
    for n in names:
        a, b = torch.as_tensor(first[n]), torch.as_tensor(getattr(op, n))
        ensure(torch.allclose(a, b, equal_nan=True), f"{n} changes between accesses")
