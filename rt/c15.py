"""C15: state dictionaries."""
import copy
import io

import torch
from torch import nn

from rt.c13 import PROPS
from rt.c14 import dampings
from rt.common import case, ensure, raises
from rt.kfz import KProblem, config, make
from rt.zoo import DT, close, err, make_loss


def roundtrip(sd, rng):
    if rng.random() < 0.3:
        return sd
    f = io.BytesIO()
    torch.save(sd, f)
    f.seek(0)
    return torch.load(f, weights_only=False)


class Counting:
    def __init__(self, data):
        self.data, self.passes = data, 0

    def __iter__(self):
        self.passes += 1
        return iter(self.data)


def same_state(a, b, what, skip=("model_func_state_dict",)):
    ensure(set(a) == set(b), f"{what}: keys")
    for k in a:
        if k in skip:
            continue
        x, y = a[k], b[k]
        if isinstance(x, dict) and k == "A":
            same_state(x, y, what + " A")
        elif isinstance(x, dict):
            ensure(set(x) == set(y), f"{what}: {k}: {sorted(x)} and {sorted(y)}")
            for n in x:
                p, q = (x[n], y[n]) if isinstance(x[n], tuple) else ((x[n],), (y[n],))
                ensure(all((i is None and j is None) or torch.equal(i, j) for i, j in zip(p, q)),
                       f"{what}: {k} of {n}")
        elif isinstance(x, torch.Tensor):
            ensure(isinstance(y, torch.Tensor) and torch.allclose(x, y, equal_nan=True, rtol=1e-10),
                   f"{what}: {k} is {y} instead of {x}")
        else:
            ensure(x == y, f"{what}: {k} is {y!r} instead of {x!r}")


def perturbed(p, rng):
    """Another model instance with the same architecture and other parameters."""
    core = copy.deepcopy(p.model)
    for q in core.parameters():
        q.data = torch.randn_like(q)
    idx = [[i for i, r in enumerate(p.model.parameters()) if r is q][0] for q in p.params]
    ps = list(core.parameters())
    return core, [ps[i] for i in idx]


@case("C15", reps=40, thorough=400)
def kfac(rng):
    from curvlinops import KFACLinearOperator

    p = KProblem(rng)
    cfg = config(rng, mc=True)
    if cfg["fisher_type"] == "mc":
        cfg["mc_samples"] = rng.choice([1, 2])
    cfg["seed"] = rng.randrange(2**31)
    op = make(p, progressbar=False, num_data=rng.choice([None, p.N]), **cfg)
    done = rng.random() < 0.6
    if done:
        op @ torch.ones(p.D, dtype=DT)
        for n in PROPS:
            if rng.random() < 0.4:
                getattr(op, n)
    sd = roundtrip(op.state_dict(), rng)
    model, params = perturbed(p, rng)
    data = Counting(p.data)
    kw = {"batch_size_fn": p.bsf} if p.bsf else {}
    if rng.random() < 0.5:
        new = KFACLinearOperator.from_state_dict(sd, model, params, data, check_deterministic=False,
                                                 **kw)
    else:
        new = KFACLinearOperator(model, make_loss(p.loss_name, p.reduction), params, data,
                                 check_deterministic=False, **kw)
        new.load_state_dict(sd)
    same_state(sd, new.state_dict(), f"restored operator ({cfg})")
    for q, r in zip(params, p.params):
        ensure(torch.equal(q, r), "the model's parameters are not restored")
    n0 = data.passes
    V = torch.randn(p.D, 2, dtype=DT)
    got, want = new @ V, op @ V
    ensure(close(got, want), f"restored operator is another matrix: {err(got, want)}", cfg=cfg,
           problem=p.desc())
    if done:
        ensure(data.passes == n0, "restored operator passes over the data again")
    for n in PROPS:
        a, b = torch.as_tensor(getattr(op, n)), torch.as_tensor(getattr(new, n))
        ensure(torch.allclose(a, b, equal_nan=True, rtol=1e-8), f"{n}: {b} instead of {a}")
    if done:
        ensure(data.passes == n0, "properties pass over the data again")


@case("C15", reps=25, thorough=300)
def inverse(rng):
    from curvlinops import KFACInverseLinearOperator, KFACLinearOperator

    p = KProblem(rng)
    cfg = config(rng)
    op = make(p, **cfg)
    kw = dampings(rng)
    kw["retry_double_precision"] = rng.random() < 0.5
    inv = KFACInverseLinearOperator(op, **kw)
    done = rng.random() < 0.6
    if done:
        inv @ torch.ones(p.D, dtype=DT)
    sd = roundtrip(inv.state_dict(), rng)
    model, params = perturbed(p, rng)
    data = Counting(p.data)
    bkw = {"batch_size_fn": p.bsf} if p.bsf else {}
    A = KFACLinearOperator.from_state_dict(sd["A"], model, params, data, check_deterministic=False,
                                           **bkw) if rng.random() < 0.5 else KFACLinearOperator(
        model, make_loss(p.loss_name, p.reduction), params, data, check_deterministic=False, **bkw)
    if rng.random() < 0.5:
        new = KFACInverseLinearOperator.from_state_dict(sd, A)
    else:
        new = KFACInverseLinearOperator(A)
        new.load_state_dict(sd)
    same_state(sd, new.state_dict(), f"restored inverse ({kw})")
    n0 = data.passes
    V = torch.randn(p.D, 2, dtype=DT)
    got, want = new @ V, inv @ V
    ensure(close(got, want), f"restored inverse is another matrix: {err(got, want)}", kw=kw, cfg=cfg)
    if done:
        ensure(data.passes == n0, "restored inverse passes over the data again")


@case("C15", reps=10, thorough=100)
def independent(rng):
    """A restored operator does not share later computations with the saved one."""
    from curvlinops import KFACLinearOperator

    p = KProblem(rng, arch="mlp", losses=("mse",))
    cfg = config(rng)
    cfg["fisher_type"] = "empirical"
    op = make(p, **cfg)
    ref = make(p, **cfg) @ torch.ones(p.D, dtype=DT)
    sd = op.state_dict()
    data2 = [(({"x": X["x"] * 2} if p.as_dict else X * 2), y + 1) for X, y in p.data]
    kw = {"batch_size_fn": p.bsf} if p.bsf else {}
    other = KFACLinearOperator.from_state_dict(sd, p.model, p.params, data2,
                                               check_deterministic=False, **kw)
    other @ torch.ones(p.D, dtype=DT)
    got = op @ torch.ones(p.D, dtype=DT)
    ensure(close(got, ref), f"the saved operator uses the restored one's factors: {err(got, ref)}")


@case("C15", reps=20, thorough=200)
def rejected(rng):
    from curvlinops import KFACLinearOperator

    p = KProblem(rng)
    cfg = config(rng)
    op = make(p, **cfg)
    op @ torch.ones(p.D, dtype=DT)
    sd = op.state_dict()
    other_loss = rng.choice([x for x in ("mse", "ce", "bce") if x != p.loss_name])
    other_red = "sum" if p.reduction == "mean" else "mean"
    names = {"mse": "MSELoss", "ce": "CrossEntropyLoss", "bce": "BCEWithLogitsLoss"}
    new = make(p, **cfg)
    bad = dict(sd, loss_type=names[other_loss])
    raises(ValueError, lambda: new.load_state_dict(bad), f"loss {other_loss} for {p.loss_name}")
    bad = dict(sd, loss_reduction=other_red)
    raises(ValueError, lambda: new.load_state_dict(bad), f"reduction {other_red}")
    for key in ("input_covariances", "gradient_covariances"):
        fac = sd[key]
        if fac:
            k = rng.choice(sorted(fac))
            less = {n: v for n, v in fac.items() if n != k}
            other = [o for o in ("input_covariances", "gradient_covariances") if o != key][0]
            if less or sd[other]:  # otherwise: not computed yet
                raises(ValueError, lambda: new.load_state_dict(dict(sd, **{key: less})),
                       f"{key} lack layer {k}")
            ren = {("unknown" if n == k else n): v for n, v in fac.items()}
            raises(ValueError, lambda: new.load_state_dict(dict(sd, **{key: ren})),
                   f"{key} of an unknown layer")
        more = dict(fac, unknown=torch.eye(2))
        raises(ValueError, lambda: new.load_state_dict(dict(sd, **{key: more})),
               f"{key} with an additional layer")
