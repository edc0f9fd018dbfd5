"""C24: activation Hessian."""
import torch
from torch import nn

from rt.common import case, ensure, raises
from rt.zoo import DT, check_operator, make_loss


class Two(nn.Module):
    """Two inputs, two outputs."""

    def __init__(self, d, h):
        super().__init__()
        self.a, self.b = nn.Linear(d, h), nn.Linear(d, h)

    def forward(self, x, y):
        return torch.sin(self.a(x)), self.b(y) ** 2


class Net(nn.Module):
    def __init__(self, rng, d, h, C):
        super().__init__()
        self.pre = nn.Linear(d, d)
        self.two = Two(d, h)
        self.mid = nn.Sequential(nn.Linear(h, h), nn.Sigmoid())
        self.head = nn.Linear(h, C)

    def run(self, x, at=None, z=None):
        """Forward pass where feature ``at`` is replaced by ``z``; returns (feature, output)."""
        rec = {}

        def feat(keys, t):
            if at in keys:
                rec["f"] = t
                return z if z is not None else t
            return t

        # inputs of the two-input module are distinct features
        x = feat([("pre", "input", 0), ("", "input", 0)], x)
        u = feat([("pre", "output", 0)], self.pre(x))
        p = feat([("two", "input", 0), ("two.a", "input", 0)], torch.tanh(u))
        q = feat([("two", "input", 1), ("two.b", "input", 0)], torch.cos(u))
        a = feat([("two.a", "output", 0)], self.two.a(p))
        b = feat([("two.b", "output", 0)], self.two.b(q))
        s = feat([("two", "output", 0)], torch.sin(a))
        t = feat([("two", "output", 1)], b**2)
        m = feat([("mid", "input", 0), ("mid.0", "input", 0)], s * t)
        m = feat([("mid.0", "output", 0), ("mid.1", "input", 0)], self.mid[0](m))
        m = feat([("mid.1", "output", 0), ("mid", "output", 0), ("head", "input", 0)],
                 torch.sigmoid(m))
        o = feat([("head", "output", 0), ("", "output", 0)], self.head(m))
        return rec.get("f"), o

    def forward(self, x):
        u = self.pre(x)
        s, t = self.two(torch.tanh(u), torch.cos(u))
        return self.head(self.mid(s * t))


FEATURES = [("pre", "output", 0), ("two", "input", 0), ("two", "input", 1), ("two.a", "input", 0),
            ("two.b", "input", 0), ("two.a", "output", 0), ("two.b", "output", 0),
            ("two", "output", 0), ("two", "output", 1), ("mid", "input", 0), ("mid.0", "input", 0),
            ("mid.0", "output", 0), ("mid.1", "input", 0), ("mid.1", "output", 0),
            ("mid", "output", 0), ("head", "input", 0), ("head", "output", 0), ("", "output", 0)]


def problem(rng):
    N, d, h = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2)
    loss = rng.choice(["mse", "ce", "bce"])
    C = rng.randint(2, 3) if loss == "ce" else rng.randint(1, 2)
    model = Net(rng, d, h, C).to(DT)
    if rng.random() < 0.2:
        for p in model.head.parameters():
            p.requires_grad_(False)
    X = torch.randn(N, d, dtype=DT)
    y = {"mse": lambda: torch.randn(N, C, dtype=DT), "ce": lambda: torch.randint(C, (N,)),
         "bce": lambda: torch.randint(2, (N, C)).to(DT)}[loss]()
    return model, make_loss(loss, rng.choice(["mean", "sum"])), X, y


def hooks(model):
    return sum(len(m._forward_hooks) + len(m._forward_pre_hooks) + len(m._backward_hooks)
               + len(m._backward_pre_hooks) for m in model.modules())


@case("C24", reps=120, thorough=1200)
def product(rng):
    from curvlinops.experimental import ActivationHessianLinearOperator

    model, loss, X, y = problem(rng)
    at = rng.choice(FEATURES)
    # the check differentiates w.r.t. all parameters
    det = rng.random() < 0.3 and all(p.requires_grad for p in model.parameters())
    op = ActivationHessianLinearOperator(model, loss, at, [(X, y)], check_deterministic=det)
    ensure(hooks(model) == 0, "hooks after construction")
    with torch.no_grad():
        z0, _ = model.run(X, at)
    z0 = z0.detach().clone()

    def f(z):
        return loss(model.run(X, at, z.reshape(z0.shape))[1], y)

    want = torch.autograd.functional.hessian(f, z0.reshape(-1))
    s = [tuple(z0.shape)]
    for _ in range(2):
        check_operator(op, want, rng, ensure, f"activation Hessian of {at}", s, s)
        ensure(hooks(model) == 0, "hooks after a product")
    # the model's parameters moved
    with torch.no_grad():
        for p in model.parameters():
            p.add_(0.1 * torch.randn_like(p))
        z0 = model.run(X, at)[0].detach().clone()
    want = torch.autograd.functional.hessian(f, z0.reshape(-1))
    check_operator(op, want, rng, ensure, f"activation Hessian of {at}, new parameters", s, s)
    sc = op.to_scipy()
    ensure(tuple(sc.shape) == tuple(want.shape), "SciPy shape")


@case("C24", reps=40, thorough=300)
def recording(rng):
    from curvlinops.experimental.activation_hessian import store_activation

    model, loss, X, y = problem(rng)
    at = rng.choice(FEATURES)
    dest = []
    with store_activation(model, *at, dest):
        ensure(not dest, "nothing to record yet")
        model(X)
    ensure(len(dest) == 1, f"{len(dest)} features recorded")
    z, _ = model.run(X, at)
    ensure(torch.allclose(z, dest[0]), f"another feature than {at} was recorded")
    ensure(hooks(model) == 0, "hooks after recording")
    model(X)
    ensure(len(dest) == 1, "recording after the context was left")
    # failing forward pass
    late = rng.choice([model.mid, model.head])
    h = late.register_forward_pre_hook(lambda m, i: 1 / 0)

    def run():
        with store_activation(model, *at, []):
            model(X)

    raises(ZeroDivisionError, run, "failing forward pass")
    h.remove()
    ensure(hooks(model) == 0, "hooks after a failing forward pass")
    full = [1]
    raises(ValueError, lambda: store_activation(model, *at, full), "destination not empty")


@case("C24", reps=30, thorough=200)
def failure(rng):
    """Failures inside products leave no hooks; later products are right."""
    from curvlinops.experimental import ActivationHessianLinearOperator

    model, loss, X, y = problem(rng)
    at = rng.choice(FEATURES)
    op = ActivationHessianLinearOperator(model, loss, at, [(X, y)], check_deterministic=False)
    n = op.shape[0]
    want = op @ torch.eye(n, dtype=DT)
    h = model.head.register_forward_pre_hook(lambda m, i: 1 / 0)
    raises(ZeroDivisionError, lambda: op @ torch.eye(n, dtype=DT), "failing forward pass")
    h.remove()
    ensure(hooks(model) == 0, "hooks after a failing product")
    got = op @ torch.eye(n, dtype=DT)
    ensure(torch.allclose(got, want), "product after a failed one")


@case("C24", reps=30, thorough=200)
def rejected(rng):
    from curvlinops.experimental import ActivationHessianLinearOperator as H

    model, loss, X, y = problem(rng)
    at = rng.choice(FEATURES)
    det = rng.random() < 0.5 and all(p.requires_grad for p in model.parameters())
    k = rng.randint(2, 3)
    raises(ValueError, lambda: H(model, loss, at, [(X, y)] * k, check_deterministic=det),
           f"{k} batches")
    kw = dict(check_deterministic=False)
    bad = rng.choice(["unknown", "two.c", "mid.2", "Head"])
    raises(ValueError, lambda: H(model, loss, (bad, *at[1:]), [(X, y)], **kw).shape,
           f"layer {bad}")
    bad = rng.choice(["Input", "out", "", "outputs"])
    raises(ValueError, lambda: H(model, loss, (at[0], bad, 0), [(X, y)], **kw).shape,
           f"kind {bad}")
    raises(ValueError, lambda: H(model, loss, ("head", "output", rng.randint(1, 2)), [(X, y)],
                                 **kw).shape, "index of single output")
    ensure(hooks(model) == 0, "hooks after rejection")
