"""Networks with layers which KFAC supports, and Kronecker factors with arbitrary entries."""
from specs.common_torch import *


class KNet:
    """layers: list of (kind, parameters considered, parameters of the layer); all sizes are arbitrary.

    The considered parameters are passed in the given order (a permutation of their number)."""

    def __init__(self, c, layers, order=None, dtype=None):
        self.c, self.dt = c, dtype or SymDType("dt")
        self.layers, kids, self.params, self.named = [], [], [], {}
        q = 0
        for j, (kind, used, has) in enumerate(layers):
            name = f"layer{j}"
            o = E.integer(f"out{j}")
            i = [E.integer(f"in{j}")] if kind == "linear" else [E.integer(f"{n}{j}") for n in ("cin", "k1_", "k2_")]
            for x in [o] + i:
                c.assume(x >= 1)
            own = []
            for pn in ("weight", "bias"):
                if pn not in has:
                    continue
                dims = [o] + i if pn == "weight" else [o]
                t = TS.Parameter.make(dims, lambda *k, q=q: E.mk(E.Fun(TS.THETA, deps=[TS.THETA]), (Ex.const(q),) + k),
                                      self.dt).register_index(Ex.const(q))
                t.meta = {"index": Ex.const(q)}
                q += 1
                own.append((pn, t))
                if pn in used:
                    self.params.append(t)
                    self.named[id(t)] = (j, pn, dims)
            cls = TS.Linear if kind == "linear" else TS.Conv2d
            mod = cls(params=own)
            kids.append((name, mod))
            kids.append((f"act{j}", TS.Module()))
            self.layers.append(dict(name=name, o=o, i=i, used=used, kind=kind, mod=mod))
        self.module = TS.Module(kids)
        if order is not None:
            self.params = [self.params[k] for k in order if k < len(self.params)]
        self.pos = {}
        for k, p in enumerate(self.params):
            j, pn, _ = self.named[id(p)]
            self.pos[j, pn] = k

    def joint(self, j, sep):
        return len(self.layers[j]["used"]) == 2 and not sep

    def in_parts(self, j):
        """Axes of the flattened weight's columns."""
        return self.layers[j]["i"]

    def dims(self, p):
        return list(self.named[id(p)][2])


def subsets(c, label, both=(("weight", "bias"), ("weight",), ("bias",))):
    return c.choice(both, label)


def factor_dims(net, j, sep):
    """Columns of the first factor: the weight's trailing axes flattened, plus one for a joint bias."""
    i = [TT.D(x) for x in net.in_parts(j)]
    d = i[0] if len(i) == 1 else TT.dprod(i)
    if net.joint(j, sep):
        return TT.D(d.size + 1)
    return TT.D(d.size)


def flat_index(net, j, idx):
    """Position in the flattened weight's columns."""
    i = net.in_parts(j)
    x = ZERO
    for s, k in zip(i, idx):
        x = x * s + k
    return x


def spd(name):
    """Entries of a symmetric positive definite matrix; the interpretation used for counterexamples."""
    import random

    f = E.Fun(name, symgroups=[(0,), (1,)])
    memo = {}

    def vec(k):
        if k not in memo:
            r = random.Random(f"{name}{k}")
            memo[k] = [r.uniform(-1, 1) for _ in range(4)]
        return memo[k]

    def ev(args):
        a, b = args
        return sum(x * y for x, y in zip(vec(a), vec(b))) + (0.5 if a == b else 0)
    f.ev = ev
    return f


class Factors:
    """Symmetric Kronecker factors with arbitrary entries, as _compute_kfac provides them."""

    def __init__(self, net, sep, tag=""):
        self.net, self.sep = net, sep
        self.fA = [spd(f"A{tag}{j}") for j in range(len(net.layers))]
        self.fB = [spd(f"B{tag}{j}") for j in range(len(net.layers))]
        self.computed = 0

    def A(self, j, a, b):
        return E.mk(self.fA[j], (Ex.of(a), Ex.of(b)))

    def B(self, j, a, b):
        return E.mk(self.fB[j], (Ex.of(a), Ex.of(b)))

    def tensors(self):
        A, B = {}, {}
        for j, l in enumerate(self.net.layers):
            if not l["used"]:
                continue
            if "weight" in l["used"]:
                d = factor_dims(self.net, j, self.sep)
                A[l["name"]] = TS.Tensor.make([d, d], lambda *k, j=j: self.A(j, *k), self.net.dt)
            B[l["name"]] = TS.Tensor.make([l["o"], l["o"]], lambda *k, j=j: self.B(j, *k), self.net.dt)
        return A, B

    def install(self, op):
        """Let _compute_kfac fulfil its contract."""
        def compute():
            self.computed += 1
            A, B = self.tensors()
            op._reset_matrix_properties()
            op._input_covariances.update(A)
            op._gradient_covariances.update(B)
        op._compute_kfac = compute
        return self

    def apply(self, V, j, pn, A=None, B=None):
        """Entry function of the product for parameter pn of layer j; V(pn, idx, k): entries of the operand."""
        net, sep = self.net, self.sep
        A, B = A or self.A, B or self.B
        l = net.layers[j]
        o, ins = l["o"], net.in_parts(j)
        n = ONE
        for x in ins:
            n = n * x

        def columns(fn, col):
            """Sum over the columns of the joint or separate block: fn(position, value of V)."""
            return fn

        def rows(body):
            return E.Sum(o, body)
        if net.joint(j, sep):
            def total(row, col, k):
                return rows(lambda r: B(j, row, r) * (
                    idx_sum(ins, lambda *i: A(j, flat_index(net, j, i), col) * V("weight", (r,) + i, k))
                    + A(j, n, col) * V("bias", (r,), k)))
            if pn == "weight":
                return lambda row, *rest: total(row, flat_index(net, j, rest[:-1]), rest[-1])
            return lambda row, k: total(row, n, k)
        if pn == "weight":
            return lambda row, *rest: rows(lambda r: B(j, row, r) * idx_sum(ins, lambda *i: A(
                j, flat_index(net, j, i), flat_index(net, j, rest[:-1])) * V("weight", (r,) + i, rest[-1])))
        return lambda row, k: rows(lambda r: B(j, row, r) * V("bias", (r,), k))


def operands(net, name, K):
    """A matrix in tensor list format; its entries."""
    fs = [E.Fun(f"{name}{k}") for k in range(len(net.params))]
    ts = [TS.Tensor.make(net.dims(p) + [K], lambda *i, f=f: E.mk(f, i), net.dt) for p, f in zip(net.params, fs)]
    return ts, fs


def entries(net, fs):
    def V(j):
        return lambda pn, idx, k: E.mk(fs[net.pos[j, pn]], tuple(idx) + (k,))
    return V


def kfac(c, net, sep, data=None, **kw):
    """A KFAC operator and its data."""
    cls = c.world.module("curvlinops.kfac").KFACLinearOperator
    B = data or Batches(c)
    loss = kw.pop("loss", None) or TS.MSELoss(reduction=kw.pop("reduction", "mean"))
    N, T = sizes(c, "N", "T")
    return cls(net.module, loss, net.params, B.data(), check_deterministic=False, separate_weight_and_bias=sep,
               **{"num_data": N, "num_per_example_loss_terms": T, **kw})


def check_product(c, name, out, net, F, fs, K, A=None, B=None):
    c.true(f"{name}: one tensor per parameter", isinstance(out, (list, tuple)) and len(out) == len(net.params),
           str(type(out)))
    V = entries(net, fs)
    for (j, pn), k in net.pos.items():
        c.tensor(f"{name}", out[k], net.dims(net.params[k]) + [K], F.apply(V(j), j, pn, A, B))
