"""C16: failures while the Kronecker factors are computed."""
import torch
from torch import nn

from rt.common import case, ensure
from rt.kfz import KProblem, config, make
from rt.zoo import DT, close, err


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


def hooks(model):
    n = 0
    for m in model.modules():
        n += len(m._forward_hooks) + len(m._forward_pre_hooks) + len(m._backward_hooks)
        n += len(m._backward_pre_hooks)
    return n


class Flaky:
    """Data that fail before, or with, a given mini-batch."""

    def __init__(self, data, exc):
        self.data, self.exc, self.at = data, exc, None

    def __iter__(self):
        for b, d in enumerate(self.data):
            if self.at == b:
                raise self.exc("data")
            yield d
        if self.at == len(self.data):
            raise self.exc("data")


class Switch(nn.Module):
    """Fails in the n-th forward pass, before or after the layers were evaluated."""

    def __init__(self, inner, exc):
        super().__init__()
        self.inner, self.exc, self.at, self.n, self.early = inner, exc, None, 0, False

    def forward(self, x):
        fail = self.at is not None and self.n == self.at
        self.n += 1
        if fail and self.early:
            raise self.exc("model")
        out = self.inner(x)
        if fail:
            raise self.exc("model")
        return out


ACCESS = [
    lambda op, D: op @ torch.ones(D, dtype=DT),
    lambda op, D: op.trace,
    lambda op, D: op.frobenius_norm,
    lambda op, D: op @ torch.ones(D, 2, dtype=DT),
]


@case("C16", reps=60, thorough=600)
def failure(rng):
    p = KProblem(rng, n_batches=None)
    cfg = config(rng, mc=True)
    if cfg["fisher_type"] == "mc":
        cfg["mc_samples"] = rng.choice([1, 2])
    V = torch.randn(p.D, 2, dtype=DT)
    V0 = make(p, **cfg) @ V
    exc = rng.choice([Boom, Boom, BoomBase, KeyboardInterrupt])
    kind = rng.choice(["data", "model", "model-early", "loss"])
    at = rng.randrange(len(p.data) + (kind == "data"))
    data = Flaky(p.data, exc)
    sw = Switch(p.model, exc)
    own, p.model = p.model, sw
    L = type(p.loss_func)

    class FL(L):
        at, n = None, 0

        def forward(self, f, y):
            FL.n += 1
            if FL.at is not None and FL.n - 1 >= FL.at:
                raise exc("loss")
            return super().forward(f, y)

    if kind == "loss":
        if cfg["fisher_type"] not in ("mc", "empirical"):
            cfg["fisher_type"] = "empirical"
        ref_loss = p.loss_func
        p.loss_func = FL(reduction=p.reduction)
        own_, p.model = p.model, own
        p.loss_func, V0 = ref_loss, make(p, **cfg) @ V
        p.loss_func, p.model = FL(reduction=p.reduction), own_
    op = make(p, data=data, **cfg)
    h0 = hooks(sw)
    if kind == "data":
        data.at = at
    elif kind.startswith("model"):
        sw.n, sw.at, sw.early = 0, at, kind == "model-early"
    else:
        FL.n, FL.at = 0, at
    attempts = rng.randint(1, 2)
    for _ in range(attempts):
        sw.n = 0
        FL.n = 0
        try:
            rng.choice(ACCESS)(op, p.D)
            ensure(False, f"the exception of {kind} at mini-batch {at} is swallowed", cfg=cfg)
        except exc:
            pass
        ensure(hooks(sw) == h0, f"{hooks(sw) - h0} hooks stay on the model after {kind} failed at {at}")
    data.at = sw.at = FL.at = None
    got = op @ V
    ensure(close(got, V0), f"after {kind} failed at mini-batch {at} of {len(p.data)}: {err(got, V0)}",
           cfg=cfg, problem=p.desc())
    ensure(hooks(sw) == h0, "hooks stay on the model after a successful computation")


@case("C16", reps=15, thorough=150)
def inverse_failure(rng):
    """The same through the inverse."""
    from curvlinops import KFACInverseLinearOperator

    p = KProblem(rng)
    cfg = config(rng)
    V = torch.randn(p.D, dtype=DT)
    V0 = KFACInverseLinearOperator(make(p, **cfg), damping=0.5) @ V
    data = Flaky(p.data, Boom)
    op = make(p, data=data, **cfg)
    inv = KFACInverseLinearOperator(op, damping=0.5)
    data.at = rng.randrange(len(p.data) + 1)
    h0 = hooks(p.model)
    try:
        inv @ V
        ensure(False, "exception swallowed")
    except Boom:
        pass
    ensure(hooks(p.model) == h0, "hooks stay on the model")
    data.at = None
    got = inv @ V
    ensure(close(got, V0), f"inverse after a failure: {err(got, V0)}", cfg=cfg)
    ensure(hooks(p.model) == h0, "hooks stay on the model after a successful computation")


@case("C16", reps=10, thorough=100)
def hooks_of_user(rng):
    """Hooks installed by the user stay, and are the only ones that stay."""
    p = KProblem(rng)
    cfg = config(rng, mc=True)
    calls = []
    for _, m, _ in p.layers():
        m.register_forward_hook(lambda *a: calls.append(1) and None)
    h0 = hooks(p.model)
    op = make(p, **cfg)
    op @ torch.ones(p.D, dtype=DT)
    ensure(hooks(p.model) == h0, "number of hooks changed")
