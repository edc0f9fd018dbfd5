"""C02: accumulation over mini-batches."""
import torch
from collections import UserDict
from torch import nn

from rt.common import case, ensure
from rt.zoo import DT, Problem, check_operator, close, err, spread


def base_cls():
    from curvlinops._torch_base import CurvatureLinearOperator

    class Op(CurvatureLinearOperator):
        """Mini-batch matrix: user-defined function of the mini-batch."""

        def _matmat_batch(self, X, y, M):
            mats = self._batch_mats
            B = mats[int(y.reshape(-1)[0])]
            (K,) = {m.shape[-1] for m in M}
            flat = torch.cat([m.reshape(-1, K) for m in M])
            out = (B @ flat).split([p.numel() for p in self._params])
            return [o.reshape(*p.shape, K) for o, p in zip(out, self._params)]

        def _adjoint(self):
            raise NotImplementedError

    return Op


@case("C02", reps=50, thorough=1500)
def weighted_sum(rng):
    Op = base_cls()
    nb = rng.randint(1, 4)
    sizes = [rng.randint(1, 5) for _ in range(nb)]
    params = [torch.randn([rng.randint(1, 3) for _ in range(rng.randint(0, 2))], dtype=DT)
              for _ in range(rng.randint(1, 3))]
    D = sum(p.numel() for p in params)
    mats = [torch.randn(D, D, dtype=DT) for _ in range(nb)]
    mode = rng.choice(["tensor", "dict", "userdict", "bsf"])
    data = []
    weights = list(sizes)
    for b, n in enumerate(sizes):
        X = torch.randn(n, 2, dtype=DT)
        y = torch.full((n, 1), b)
        if mode == "dict":
            X = {"a": X}
        elif mode == "userdict":
            X = UserDict(a=X)
        data.append((X, y))
    bsf = None
    if mode in ("dict", "userdict"):
        bsf = lambda X: X["a"].shape[0]  # noqa: E731
    elif mode == "bsf":
        extra = rng.randint(1, 3)
        bsf = lambda X: X.shape[0] * extra  # noqa: E731
        weights = [n * extra for n in sizes]
    red = rng.choice(["mean", "sum"])
    num_data = rng.choice([None, None, sum(weights) + rng.randint(1, 4)])
    kw = {} if bsf is None else {"batch_size_fn": bsf}
    A = Op(nn.Identity(), nn.MSELoss(reduction=red), params, data, check_deterministic=False,
           num_data=num_data, progressbar=rng.random() < 0.2, **kw)
    A._batch_mats = mats
    N = sum(weights) if num_data is None else num_data
    want = sum((w / N if red == "mean" else 1.0) * m for w, m in zip(weights, mats))
    shapes = [tuple(p.shape) for p in params]
    check_operator(A, want, rng, ensure, f"batches {sizes}, {red}, num_data={num_data}, {mode}",
                   shapes, shapes)


@case("C02", reps=6, thorough=100)
def split_invariance(rng):
    from curvlinops import EFLinearOperator, GGNLinearOperator, HessianLinearOperator

    p = Problem(rng)
    cls = rng.choice([GGNLinearOperator, HessianLinearOperator])
    V = torch.randn(p.D, 2, dtype=DT)
    A = cls(p.model, p.loss_func, p.params, p.data, **p.kw())
    ref = A @ V
    sizes = spread(rng, p.N, rng.randint(1, p.N))
    perm = torch.randperm(p.N)
    o, data = 0, []
    for n in sizes:
        idx = perm[o : o + n]
        X = p.X[idx]
        data.append(({"x": X} if p.as_dict else X, p.y[idx]))
        o += n
    B = cls(p.model, p.loss_func, p.params, data, **p.kw())
    got = B @ V
    ensure(close(got, ref), f"{cls.__name__} depends on the partition {p.sizes} vs {sizes}: "
           + err(got, ref), problem=p.desc())
