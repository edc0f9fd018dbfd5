"""Random models, losses and data sets, and dense reference quantities."""
from collections import UserDict

import numpy as np
import torch
from torch import nn

DT = torch.float64


class DictInput(nn.Module):
    """A model that consumes a dictionary."""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, X):
        return self.inner(X["x"])


class SeqToCE(nn.Module):
    """[batch, *seq, C] -> [batch, C, *seq]."""

    def forward(self, x):
        return x.movedim(-1, 1)


class Scale(nn.Module):
    """A module with an unusual parameter shape (0-dimensional and 3-dimensional)."""

    def __init__(self, d):
        super().__init__()
        self.s = nn.Parameter(torch.randn(()))
        self.t = nn.Parameter(torch.randn(1, 2, d))

    def forward(self, x):
        return x * torch.sin(self.s) + (self.t**2).sum((0, 1)) * torch.tanh(x)


def spread(rng, total, parts):
    """Random composition of total into ``parts`` positive parts."""
    cuts = sorted(rng.sample(range(1, total), parts - 1)) if parts > 1 else []
    return [b - a for a, b in zip([0] + cuts, cuts + [total])]


class Problem:
    """loss_func may be None."""

    def __init__(self, rng, losses=("mse", "ce", "bce"), seq=None, dict_ok=True,
                 scale_ok=True, n_batches=None, reduction=None, max_n=7, dtype=DT,
                 bias=None, kind="mlp"):
        self.rng = rng
        N = rng.randint(3, max_n)
        nb = n_batches or rng.randint(1, min(3, N))
        self.sizes = spread(rng, N, nb)
        self.N = N
        self.loss_name = rng.choice(losses)
        self.reduction = reduction or rng.choice(["mean", "sum"])
        self.seq = seq if seq is not None else rng.choice([(), (), (3,), (2, 2)])
        din, h = rng.randint(1, 3), rng.randint(1, 3)
        self.C = rng.randint(2, 3) if self.loss_name == "ce" else rng.randint(1, 3)
        b = (lambda: rng.random() < 0.7) if bias is None else (lambda: bias)
        layers = [nn.Linear(din, h, bias=b()), rng.choice([nn.Tanh(), nn.Sigmoid()])]
        if scale_ok and rng.random() < 0.4:
            layers.append(Scale(h))
        layers.append(nn.Linear(h, self.C, bias=b()))
        if self.loss_name == "ce" and self.seq:
            layers.append(SeqToCE())
        model = nn.Sequential(*layers).to(dtype)
        self.as_dict = dict_ok and rng.random() < 0.3
        mk = rng.choice([dict, UserDict])
        Xs = torch.randn(N, *self.seq, din, dtype=dtype)
        if self.loss_name == "ce":
            ys = torch.randint(self.C, (N, *self.seq))
        elif self.loss_name == "bce":
            ys = torch.randint(2, (N, *self.seq, self.C)).to(dtype)
        else:
            ys = torch.randn(N, *self.seq, self.C, dtype=dtype)
        self.X, self.y = Xs, ys
        self.core = model
        self.model = DictInput(model) if self.as_dict else model
        self.loss_func = make_loss(self.loss_name, self.reduction)
        self.data = []
        o = 0
        for n in self.sizes:
            x = Xs[o : o + n]
            self.data.append((mk(x=x) if self.as_dict else x, ys[o : o + n]))
            o += n
        self.bsf = (lambda X: X["x"].shape[0]) if self.as_dict else None
        params = list(model.parameters())
        # a subset in arbitrary order
        if rng.random() < 0.5:
            params = rng.sample(params, rng.randint(1, len(params)))
        self.params = params
        for p in model.parameters():
            p.requires_grad_(any(p is q for q in params) or rng.random() < 0.7)

    def kw(self, **more):
        kw = dict(check_deterministic=False)
        if self.bsf is not None:
            kw["batch_size_fn"] = self.bsf
        kw.update(more)
        return kw

    @property
    def D(self):
        return sum(p.numel() for p in self.params)

    def desc(self):
        return (f"loss={self.loss_name}/{self.reduction}, batch sizes={self.sizes}, "
                f"seq={self.seq}, params={[tuple(p.shape) for p in self.params]}, "
                f"dict={self.as_dict}, model={self.core}")

    def fwd(self, x):
        return self.core(x)

    def num_terms(self):
        """Number of loss terms per datum and output dimension of each."""
        return int(np.prod(self.seq)) if self.seq else 1

    def out2d(self, x):
        """Outputs as [terms, C] (row-major over batch and sequence)."""
        o = self.core(x)
        if self.loss_name == "ce":
            return o.movedim(1, -1).reshape(-1, self.C)
        return o.reshape(-1, self.C)

    def y2d(self, y):
        return y.reshape(-1) if self.loss_name == "ce" else y.reshape(-1, self.C)

    def risk(self):
        """Empirical risk with the loss function's reduction over all data points."""
        r = 0.0
        o = 0
        for n in self.sizes:
            x, y = self.X[o : o + n], self.y[o : o + n]
            l = self.loss_func(self.core(x), y)
            r = r + (l if self.reduction == "sum" else l * n / self.N)
            o += n
        return r


def make_loss(name, reduction):
    return {"mse": nn.MSELoss, "ce": nn.CrossEntropyLoss, "bce": nn.BCEWithLogitsLoss}[
        name
    ](reduction=reduction)


def per_term_loss(name, f, y):
    """Un-reduced (summed over C) loss of one term; written out by hand."""
    if name == "mse":
        return ((f - y) ** 2).sum()
    if name == "ce":
        return torch.logsumexp(f, 0) - f[y]
    return (torch.log1p(torch.exp(-f.abs())) + f.clamp(min=0) - f * y).sum()


def flatcat(ts):
    return torch.cat([t.reshape(-1) for t in ts]) if ts else torch.zeros(0)


def dgrad(out, params, create_graph=False):
    g = torch.autograd.grad(out, params, create_graph=create_graph, retain_graph=True,
                            allow_unused=True)
    return [torch.zeros_like(p) if x is None else x for x, p in zip(g, params)]


def hessian(risk, params, blocks=None):
    g = dgrad(risk, params, create_graph=True)
    rows = []
    for gi in g:
        for e in gi.reshape(-1):
            if e.requires_grad:
                rows.append(flatcat(dgrad(e, params)))
            else:
                rows.append(torch.zeros(sum(p.numel() for p in params), dtype=gi.dtype))
    H = torch.stack(rows)
    if blocks is not None:
        ids = []
        k = 0
        for b, s in enumerate(blocks):
            for p in params[k : k + s]:
                ids += [b] * p.numel()
            k += s
        ids = torch.tensor(ids)
        H = H * (ids[:, None] == ids[None, :]).to(H.dtype)
    return H


def jacobian(out, params):
    """Rows: entries of out (row-major)."""
    return torch.stack([flatcat(dgrad(e, params)) for e in out.reshape(-1)])


def loss_hessian(fun, f):
    """Hessian of a scalar function at a 1d tensor."""
    return torch.autograd.functional.hessian(fun, f.detach())


def close(a, b, rtol=1e-7, atol=1e-8):
    if a.shape != b.shape:
        return False
    return torch.allclose(a.to(DT), b.to(DT), rtol=rtol, atol=atol)


def err(a, b):
    if a.shape != b.shape:
        return f"shapes {tuple(a.shape)} and {tuple(b.shape)}"
    return f"max error {(a - b).abs().max().item():.3e} for values up to {b.abs().max().item():.3e}"


def check_operator(A, mat, rng, ensure, what, in_shapes=None, out_shapes=None,
                   rtol=1e-7, atol=1e-8, dtype=DT):
    """A (PyTorch operator) represents ``mat`` in all input formats."""
    M, N = mat.shape
    ensure(tuple(A.shape) == (M, N), f"{what}: shape", got=A.shape, want=(M, N))
    K = rng.choice([1, 2, 3])
    V = torch.randn(N, K, dtype=dtype)
    if rng.random() < 0.3:  # non-contiguous
        V = torch.randn(K, N, dtype=dtype).T
    if rng.random() < 0.3:  # sparse columns expose single entries
        V = torch.zeros(N, K, dtype=dtype)
        for k in range(K):
            V[rng.randrange(N), k] = 1.0
    V0 = V.clone()
    got = A @ V
    want = mat @ V
    ensure(close(got, want, rtol, atol), f"{what}: matrix product differs from the contract's "
           f"matrix, {err(got, want)}")
    ensure(torch.equal(V, V0), f"{what}: the multiplied matrix was modified")
    v = V[:, rng.randrange(K)]
    got = A @ v
    ensure(close(got, mat @ v, rtol, atol), f"{what}: vector product differs, {err(got, mat @ v)}")
    if in_shapes is not None:
        sizes = [int(np.prod(s)) if len(s) else 1 for s in in_shapes]
        osizes = [int(np.prod(s)) if len(s) else 1 for s in out_shapes]
        Vl = [x.reshape(*s, K).clone() for x, s in zip(V.split(sizes), in_shapes)]
        Vl0 = [x.clone() for x in Vl]
        ids = [id(x) for x in Vl]
        got = A @ Vl
        ensure(isinstance(got, list) and len(got) == len(out_shapes), f"{what}: list format")
        for g, w, s in zip(got, want.split(osizes), out_shapes):
            ensure(close(g, w.reshape(*s, K), rtol, atol),
                   f"{what}: matrix product in list format differs, {err(g, w.reshape(*s, K))}")
        ensure([id(x) for x in Vl] == ids and all(torch.equal(a, b) for a, b in zip(Vl, Vl0)),
               f"{what}: the multiplied tensor list was modified")
        vl = [x[..., 0].clone() for x in Vl]
        got = A @ vl
        for g, w, s in zip(got, want[:, 0].split(osizes), out_shapes):
            ensure(close(g, w.reshape(s), rtol, atol),
                   f"{what}: vector product in list format differs")
