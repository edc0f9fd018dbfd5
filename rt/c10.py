"""C10: determinism check."""
import torch
from torch import nn

from rt.common import case, ensure, raises
from rt.zoo import DT, Problem


def classes():
    import curvlinops as c

    return {
        "H": c.HessianLinearOperator, "G": c.GGNLinearOperator, "E": c.EFLinearOperator,
        "F": c.FisherMCLinearOperator, "J": c.JacobianLinearOperator,
        "T": c.TransposedJacobianLinearOperator,
    }


def build(k, model, loss, params, data, **kw):
    cls = classes()[k]
    args = (model, params, data) if k in "JT" else (model, loss, params, data)
    return cls(*args, check_deterministic=True, **kw)


class Shuffled:
    """Presents the mini-batches in another order in every pass."""

    def __init__(self, data, rng):
        self.data, self.rng, self.k = list(data), rng, 0

    def __iter__(self):
        self.k += 1
        d = self.data[self.k % len(self.data):] + self.data[: self.k % len(self.data)]
        return iter(d)


@case("C10", reps=30, thorough=400)
def accepted(rng):
    p = Problem(rng)
    k = rng.choice("HGEFJT")
    kw = p.kw()
    kw.pop("check_deterministic")
    A = build(k, p.model, p.loss_func, p.params, p.data, **kw)
    ensure(str(A._device) == "cpu" if hasattr(A, "_device") else True, "device")
    if k in "HGE":
        data = Shuffled(p.data, rng)
        build(k, p.model, p.loss_func, p.params, data, **kw)


class Pass:
    """Number of the current pass: one data object, iterated once per pass.

    The determinism check interleaves two passes; a batch belongs to the pass of the
    iterator it came from, which is recorded in the batch itself."""

    def __init__(self, data, fn):
        self.data, self.fn, self.count = data, fn, 0

    def __iter__(self):
        self.count += 1
        me = self.count
        for b, (X, y) in enumerate(self.data):
            yield self.fn(me, b, X, y)


def small(rng, C=2, nb=2, bias=True):
    m = nn.Sequential(nn.Linear(2, 2, bias=bias), nn.Tanh(), nn.Linear(2, C, bias=bias)).to(DT)
    data = [(torch.randn(rng.randint(1, 3), 2, dtype=DT),) for _ in range(nb)]
    data = [(x, torch.randn(x.shape[0], C, dtype=DT)) for (x,) in data]
    return m, data


def eps(rng):
    return rng.choice([1e-2, 0.1, 1.0])


@case("C10", reps=30, thorough=300)
def data_differs(rng):
    """Inputs or labels of one mini-batch differ between passes."""
    m, data = small(rng, nb=rng.randint(1, 3))
    params = list(m.parameters())
    k = rng.choice("HGEF")
    bad = rng.randrange(len(data))
    which = rng.choice("Xy")
    e = eps(rng)

    def fn(me, b, X, y):
        if b == bad:
            if which == "X":
                X = X + e * me
            else:
                y = y + e * me
        return X, y

    red = rng.choice(["sum", "mean"])
    raises(RuntimeError, lambda: build(k, m, nn.MSELoss(reduction=red), params, Pass(data, fn)),
           f"operator {k}: {which} of mini-batch {bad}/{len(data)} differs between passes by {e}")
    if which == "X":
        k = rng.choice("JT")
        raises(RuntimeError, lambda: build(k, m, None, params, Pass(data, fn)),
               f"operator {k}: {which} of mini-batch {bad}/{len(data)} differs between passes by {e}")


@case("C10", reps=10, thorough=100)
def labels_differ_without_loss(rng):
    """Operators with a fixed order compare the labels, also if they do not enter."""
    m, data = small(rng, nb=2)
    bad = rng.randrange(2)
    fn = lambda me, b, X, y: (X, y + (b == bad) * me)  # noqa: E731
    k = rng.choice("JT")
    raises(RuntimeError, lambda: build(k, m, None, list(m.parameters()), Pass(data, fn)),
           f"operator {k}: labels differ")


@case("C10", reps=10, thorough=100)
def order_differs(rng):
    """Fixed data order: total quantities agree, mini-batches do not."""
    m, data = small(rng, nb=rng.randint(2, 3))
    n = 2
    data = [(torch.randn(n, 2, dtype=DT), torch.randn(n, 2, dtype=DT)) for _ in data]
    k = rng.choice("FJT")
    raises(RuntimeError, lambda: build(k, m, nn.MSELoss(), list(m.parameters()),
                                       Shuffled(data, rng)), f"operator {k}: order differs")


@case("C10", reps=10, thorough=100)
def dict_entries_differ(rng):
    """Any entry of a dictionary input differs."""
    m, data = small(rng, nb=2)

    class M(nn.Module):
        def __init__(self):
            super().__init__()
            self.m = m

        def forward(self, X):
            return self.m(X["x"])

    bad, key = rng.randrange(2), rng.choice("abxi")
    e = eps(rng)

    def fn(me, b, X, y):
        d = {"a": torch.ones(2, dtype=DT), "x": X, "b": torch.ones(3, dtype=DT), "n": 3,
             "i": torch.arange(4)}
        if b == bad:
            d[key] = d[key] + (me if key == "i" else e * me)
        return d, y

    k = rng.choice("FJT")
    M_ = M()
    raises(RuntimeError, lambda: build(k, M_, nn.MSELoss(), list(m.parameters()), Pass(data, fn),
                                       batch_size_fn=lambda X: X["x"].shape[0]),
           f"operator {k}: entry {key} differs")


class Stateful(nn.Module):
    """Adds a term that depends on the number of the call."""

    def __init__(self, inner, target, mode, e, period):
        super().__init__()
        self.inner, self.mode, self.e, self.period = inner, mode, e, period
        self.n = 0
        self.targets = [target]

    def forward(self, x):
        self.n += 1
        c = self.e * self.n
        q = self.targets[0]
        out = self.inner(x)
        if self.mode == "value":
            return out + c
        d = (q - q.detach()).sum()
        if self.mode == "gradient":  # value equal
            return out + c * d
        return out + c * d**2  # value and gradient equal


@case("C10", reps=40, thorough=400)
def model_differs(rng):
    m, data = small(rng, nb=rng.randint(1, 3))
    params = list(m.parameters())
    rng.shuffle(params)
    if rng.random() < 0.4:
        params = params[: rng.randint(1, len(params))]
    q = rng.choice(params)
    mode = rng.choice(["value", "gradient", "curvature"])
    k = rng.choice("HGEFJT" if mode != "curvature" else "H")
    model = Stateful(m, q, mode, eps(rng), len(data))
    raises(RuntimeError, lambda: build(k, model, nn.MSELoss(reduction=rng.choice(["sum", "mean"])),
                                       params, data),
           f"operator {k}: the model's {mode} differs in every call (parameter "
           f"{[i for i, r in enumerate(params) if r is q]} of {len(params)})")


@case("C10", reps=20, thorough=200)
def loss_differs(rng):
    """Only the total loss differs, gradient and products agree."""
    m, data = small(rng, nb=rng.randint(1, 3))
    e = eps(rng)

    class L(nn.MSELoss):
        n = 0

        def forward(self, f, y):
            L.n += 1
            return super().forward(f, y) + e * L.n

    k = rng.choice("HGEF")
    raises(RuntimeError, lambda: build(k, m, L(reduction=rng.choice(["sum", "mean"])),
                                       list(m.parameters()), data), f"operator {k}: loss differs")


@case("C10", reps=6, thorough=60)
def dropout(rng):
    m, data = small(rng)
    data = [(torch.randn(20, 2, dtype=DT), torch.randn(20, 2, dtype=DT)) for _ in range(2)]
    model = nn.Sequential(m, nn.Dropout(0.5))
    k = rng.choice("HGEFJT")
    raises(RuntimeError, lambda: build(k, model, nn.MSELoss(), list(m.parameters()), data),
           f"operator {k}: dropout")
    model.eval()
    build(k, model, nn.MSELoss(), list(m.parameters()), data)


@case("C10", reps=10, thorough=100)
def device_restored(rng):
    """The check moves the operator to the CPU and back, also if it fails."""
    from curvlinops import GGNLinearOperator

    m, data = small(rng)
    log = []

    class Op(GGNLinearOperator):
        def to_device(self, device):
            log.append(str(device))
            super().to_device(device)

        def _infer_device(self):
            d = super()._infer_device()
            # the first call determines the device the operator is created on
            return torch.device("cpu", 0) if not log else d

    def fn(me, b, X, y):
        return X, y + me * fail

    for fail in (0, 1):
        log.clear()
        try:
            Op(m, nn.MSELoss(), list(m.parameters()), Pass(data, fn), check_deterministic=True)
            ensure(not fail, "non-deterministic labels accepted")
        except RuntimeError:
            ensure(fail, "deterministic setup rejected")
        if log:
            ensure(log[-1] == "cpu:0", f"operator ends on {log[-1]}, was created on cpu:0",
                   log=log)
