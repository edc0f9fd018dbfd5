"""Random problems for KFAC and an independent computation of its factors."""
import itertools
import math

import torch
from torch import nn

from rt.zoo import DT, DictInput, make_loss, spread


def pair(x):
    return tuple(x) if isinstance(x, (tuple, list)) else (x, x)


def pad_amounts(padding, k, s, d, size):
    if padding == "valid":
        return 0, 0
    if padding == "same":
        total = d * (k - 1)
        return total // 2, total - total // 2
    return padding, padding


def patches(x, kernel, stride, padding, dilation, groups):
    """[N, O1, O2, C/g * K1 * K2], straight from the definition of a convolution."""
    N, C, I1, I2 = x.shape
    K, S, D = pair(kernel), pair(stride), pair(dilation)
    P = (padding, padding) if isinstance(padding, str) else pair(padding)
    pads = [pad_amounts(P[a], K[a], S[a], D[a], (I1, I2)[a]) for a in (0, 1)]
    O = [((I1, I2)[a] + sum(pads[a]) - D[a] * (K[a] - 1) - 1) // S[a] + 1 for a in (0, 1)]
    xg = x.reshape(N, groups, C // groups, I1, I2).mean(1)
    cg = C // groups
    out = torch.zeros(N, O[0], O[1], cg, K[0], K[1], dtype=x.dtype)
    for o1, o2, k1, k2 in itertools.product(range(O[0]), range(O[1]), range(K[0]), range(K[1])):
        i1 = o1 * S[0] - pads[0][0] + k1 * D[0]
        i2 = o2 * S[1] - pads[1][0] + k2 * D[1]
        if 0 <= i1 < I1 and 0 <= i2 < I2:
            out[:, o1, o2, :, k1, k2] = xg[:, :, i1, i2]
    return out.reshape(N, O[0], O[1], cg * K[0] * K[1])


class KProblem:
    def __init__(self, rng, losses=("mse", "ce", "bce"), max_n=5, subset=None, n_batches=None,
                 arch=None, max_terms=9, conv_groups=True, min_n=2):
        self.rng = rng
        N = rng.randint(min_n, max_n)
        self.N = N
        self.loss_name = rng.choice(losses)
        self.reduction = rng.choice(["mean", "sum"])
        self.C = rng.randint(2, 3) if self.loss_name == "ce" else rng.randint(1, 3)
        arch = arch or rng.choice(["mlp", "seq", "seqshare", "conv", "conv"])
        self.arch = arch
        b = lambda: rng.random() < 0.7  # noqa: E731
        act = lambda: rng.choice([nn.Tanh(), nn.ReLU(inplace=True), nn.Sigmoid()])  # noqa: E731
        self.seq = ()
        d = rng.randint(1, 3)
        h = rng.randint(1, 3)
        if arch == "mlp":
            X = torch.randn(N, d)
            core = nn.Sequential(nn.Linear(d, h, bias=b()), act(), nn.Linear(h, h, bias=b()), act(),
                                 nn.Linear(h, self.C, bias=b()))
        elif arch == "seq":  # several loss terms per datum
            self.seq = rng.choice([(2,), (3,), (2, 2), (1, 1, 2), (2, 1, 2)])
            X = torch.randn(N, *self.seq, d)
            core = nn.Sequential(nn.Linear(d, h, bias=b()), act(), nn.Linear(h, self.C, bias=b()))
        elif arch == "seqshare":  # weight sharing, one loss term per datum
            s = rng.randint(2, 3)
            X = torch.randn(N, s, d)
            core = nn.Sequential(nn.Linear(d, h, bias=b()), act(), nn.Flatten(),
                                 nn.Linear(s * h, self.C, bias=b()))
        else:
            g = rng.choice([1, 1, 2]) if conv_groups else 1
            cin, cout = g * rng.randint(1, 2), g * rng.randint(1, 2)
            k = rng.choice([1, 2, 3, (2, 1), (1, 3), (3, 2)])
            I1, I2 = rng.randint(3, 5), rng.randint(3, 5)
            stride = rng.choice([1, 2, (1, 2), (2, 1)])
            dil = rng.choice([1, 1, 2, (1, 2)])
            padding = rng.choice([0, 1, (0, 1), (1, 0), "valid"])
            if rng.random() < 0.2:
                padding, stride, k = "same", 1, rng.choice([1, 3, (3, 1)])
            if padding in (0, "valid") and pair(k) != (1, 1):
                dil = 1
            conv = nn.Conv2d(cin, cout, k, stride=stride, padding=padding, dilation=dil, groups=g,
                             bias=b())
            X = torch.randn(N, cin, I1, I2)
            try:
                with torch.no_grad():
                    o = conv(X)
            except RuntimeError:
                from rt.common import Skip

                raise Skip
            core = nn.Sequential(conv, act(), nn.Flatten(),
                                 nn.Linear(o[0].numel(), self.C, bias=b()))
        core = core.to(DT)
        self.core = core
        X = X.to(DT)
        if self.loss_name == "ce":
            y = torch.randint(self.C, (N, *self.seq))
        elif self.loss_name == "bce":
            y = torch.randint(2, (N, *self.seq, self.C)).to(DT)
        else:
            y = torch.randn(N, *self.seq, self.C, dtype=DT)
        self.X, self.y = X, y
        self.T = int(math.prod(self.seq)) if self.seq else 1
        from rt.zoo import SeqToCE

        full = nn.Sequential(core, SeqToCE()) if self.loss_name == "ce" and self.seq else core
        self.as_dict = rng.random() < 0.2
        self.model = DictInput(full) if self.as_dict else full
        self.loss_func = make_loss(self.loss_name, self.reduction)
        self.sizes = spread(rng, N, n_batches or rng.randint(1, min(3, N)))
        self.data = self.batches(self.sizes)
        self.bsf = (lambda Z: Z["x"].shape[0]) if self.as_dict else None
        params = list(core.parameters())
        if (rng.random() < 0.6) if subset is None else subset:
            params = rng.sample(params, rng.randint(1, len(params)))
        self.params = params

    def batches(self, sizes):
        res, o = [], 0
        for n in sizes:
            x = self.X[o : o + n]
            res.append(({"x": x} if self.as_dict else x, self.y[o : o + n]))
            o += n
        return res

    @property
    def D(self):
        return sum(p.numel() for p in self.params)

    def desc(self):
        return (f"{self.loss_name}/{self.reduction}, batches={self.sizes}, arch={self.arch}, "
                f"seq={self.seq}, model={self.core}, params="
                f"{[tuple(p.shape) for p in self.params]}")

    def kw(self, **more):
        kw = dict(check_deterministic=False)
        if self.bsf is not None:
            kw["batch_size_fn"] = self.bsf
        kw.update(more)
        return kw

    def layers(self):
        """(name in the model, module, {param name: position})."""
        res = []
        for name, mod in self.model.named_modules():
            if isinstance(mod, (nn.Linear, nn.Conv2d)):
                pos = {}
                for pn, p in mod.named_parameters():
                    for k, q in enumerate(self.params):
                        if q is p:
                            pos[pn] = k
                if pos:
                    res.append((name, mod, pos))
        return res

    # ------------------------------------------------------------------ reference
    def forward(self):
        """Full-data forward pass, returns outputs as [N*T, C] and layer in/outputs."""
        ins, outs = {}, {}
        hs = []
        x0 = self.X
        for name, mod, _ in self.layers():
            def pre(m, i, name=name):
                ins[name] = i[0].detach().clone()

            def post(m, i, o, name=name):
                outs[name] = o
                return o.clone()  # protects against in-place activations

            hs.append(mod.register_forward_pre_hook(pre))
            hs.append(mod.register_forward_hook(post))
        try:
            out = self.core(x0)  # [N, *seq, C]
        finally:
            for h in hs:
                h.remove()
        return out.reshape(-1, self.C), ins, outs

    def y2d(self):
        return self.y.reshape(-1) if self.loss_name == "ce" else self.y.reshape(-1, self.C)

    def input_factors(self, approx, separate):
        _, ins, _ = self.forward()
        res = {}
        for name, mod, pos in self.layers():
            if "weight" not in pos:
                continue
            x = ins[name]
            if isinstance(mod, nn.Conv2d):
                x = patches(x, mod.kernel_size, mod.stride, mod.padding, mod.dilation, mod.groups)
            x = x.reshape(self.N, -1, x.shape[-1])
            if "bias" in pos and not separate:
                x = torch.cat([x, torch.ones(*x.shape[:2], 1, dtype=DT)], 2)
            if approx == "reduce":
                x = x.mean(1)
                res[name] = sum(torch.outer(v, v) for v in x) / self.N
            else:
                S = x.shape[1]
                res[name] = sum(torch.outer(v, v) for v in x.reshape(-1, x.shape[-1])) / (
                    self.N * S)
        return res

    def grad_factor_from(self, columns, approx):
        """Sum over backpropagated output gradients [N*T, C] of the layers' covariances."""
        out, _, outs = self.forward()
        res = {}
        names = [n for n, _, _ in self.layers()]
        for col in columns:
            gs = torch.autograd.grad((out * col).sum(), [outs[n] for n in names],
                                     retain_graph=True, allow_unused=True)
            for (name, mod, _), g in zip(self.layers(), gs):
                g = torch.zeros_like(outs[name]) if g is None else g
                if isinstance(mod, nn.Conv2d):
                    g = g.movedim(1, -1)
                g = g.reshape(self.N, -1, g.shape[-1])
                if approx == "reduce":
                    g = g.sum(1, keepdim=True)
                g = g.reshape(-1, g.shape[-1])
                res[name] = res.get(name, 0) + sum(torch.outer(v, v) for v in g)
        return res

    def term_grads(self, y=None):
        """Gradient of each un-reduced (summed over C) loss term w.r.t. its output."""
        out, _, _ = self.forward()
        f = out.detach()
        y = self.y2d() if y is None else y
        if self.loss_name == "mse":
            return 2 * (f - y)
        if self.loss_name == "ce":
            return torch.softmax(f, 1) - torch.nn.functional.one_hot(y, self.C)
        return torch.sigmoid(f) - y

    def scale(self, mc=1):
        """Scaling of g gᵀ of the un-reduced terms."""
        s = 1.0 / mc
        if self.reduction == "mean":
            s = s / (self.N * self.T)
            if self.loss_name in ("mse", "bce"):
                s = s / self.C
        return s

    def gradient_factors(self, fisher, approx):
        if fisher == "forward-only":
            return {n: torch.eye(m.weight.shape[0], dtype=DT) for n, m, _ in self.layers()}
        if fisher == "empirical":
            B = self.grad_factor_from([self.term_grads()], approx)
        else:  # type-2
            out, _, _ = self.forward()
            f = out.detach()
            cols = []
            for c in range(self.C):
                rows = []
                for v in f:
                    if self.loss_name == "mse":
                        S = math.sqrt(2) * torch.eye(self.C, dtype=DT)
                    elif self.loss_name == "ce":
                        q = torch.softmax(v, 0)
                        S = torch.diag(q.sqrt()) - torch.outer(q, q.sqrt())
                    else:
                        q = torch.sigmoid(v)
                        S = torch.diag((q * (1 - q)).sqrt())
                    rows.append(S[:, c])
                cols.append(torch.stack(rows))
            B = self.grad_factor_from(cols, approx)
        s = self.scale()
        return {k: v * s for k, v in B.items()}

    def dense(self, A, B, separate):
        """KFAC matrix in the order of self.params from the factors."""
        D = self.D
        off = [0]
        for p in self.params:
            off.append(off[-1] + p.numel())
        K = torch.zeros(D, D, dtype=DT)
        for name, mod, pos in self.layers():
            b = B[name]
            if "weight" in pos and "bias" in pos and not separate:
                k = torch.kron(b, A[name])
                n, m = b.shape[0], A[name].shape[0]
                idx = []
                for i in range(n):
                    for j in range(m):
                        idx.append(off[pos["weight"]] + i * (m - 1) + j if j < m - 1
                                   else off[pos["bias"]] + i)
                idx = torch.tensor(idx)
                K[idx[:, None], idx[None, :]] = k
            else:
                for pn, k in pos.items():
                    blk = torch.kron(b, A[name]) if pn == "weight" else b
                    sl = slice(off[k], off[k + 1])
                    K[sl, sl] = blk
        return K


def config(rng, mc=False):
    return dict(
        fisher_type=rng.choice(["type-2", "empirical", "forward-only"] + (["mc"] if mc else [])),
        kfac_approx=rng.choice(["expand", "reduce"]),
        separate_weight_and_bias=rng.random() < 0.5,
    )


def make(p, **kw):
    from curvlinops import KFACLinearOperator

    return KFACLinearOperator(p.model, p.loss_func, p.params, kw.pop("data", p.data), **p.kw(**kw))


def reference(p, cfg):
    A = p.input_factors(cfg["kfac_approx"], cfg["separate_weight_and_bias"])
    B = p.gradient_factors(cfg["fisher_type"], cfg["kfac_approx"])
    return A, B
