"""Kronecker factors: covariances of the layers' inputs and of the gradients w.r.t. their outputs."""
from specs.c05 import KINDS, entry
from specs.kfac_common import *
from specs import common_torch as _c, c05 as _5, c06 as _6
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _6.TRUSTED + [
    "hooks on a layer's output are called with the gradient of the differentiated scalar w.r.t. that output",
    "extract_patches, extract_averaged_patches (C26), loss_hessian_matrix_sqrt (C25): arbitrary results for the "
    "arguments given"], _6.ASSUMPTIONS + [
    "the network treats the data points of a mini-batch independently of each other and uses each layer once",
    "draws of Monte-Carlo labels: one per mini-batch and sample, in this order, after seeding"]
BOUNDED = ["networks with one supported layer, or a linear layer and a convolution (of any sizes)"]

BOTH = ("weight", "bias")
SUBSETS = [BOTH, ("weight",), ("bias",)]
PATCH, AVG, ROOT = E.Fun("patch"), E.Fun("average_patch"), E.Fun("loss_hessian_sqrt")


def pack(name):
    return DPack(name, E.mk(int_fun(name + "size", 1), ()), E.mk(int_fun(name + "rank", 1), ()))


class Net(KNet):
    """A network whose layers process [n, *s, d] (linear) or [n, c, h, w] (convolution)."""

    def __init__(self, c, layers, kind, sequence, more, order=None, y_more=None):
        super().__init__(c, layers, order)
        self.kind, self.fails = kind, None
        self.C, = sizes(c, "C")
        rest = self.rest = [pack("rest")] if more else []
        ce = kind == "CrossEntropyLoss"
        self.B = Batches(c, y_dims=rest if ce else rest + [TT.D(self.C)])
        self.pred = Model(self.B, out=[TT.D(self.C)] + rest if ce else rest + [TT.D(self.C)])
        self.R = rest[0].size if more else ONE
        for j, l in enumerate(self.layers):
            l["I"], l["Z"] = E.Fun(f"I{j}", deps=[TS.THETA]), E.Fun(f"Z{j}", deps=[TS.THETA])
            l["J"] = E.Fun(f"JAC{j}", deps=[TS.THETA])
            if l["kind"] == "linear":
                l["s"] = [pack(f"seq{j}_")] if sequence else []
                l["x"], l["z"] = l["s"] + [TT.D(l["i"][0])], l["s"] + [TT.D(l["o"])]
            else:
                l["s"] = [TT.D(E.integer(f"{n}{j}")) for n in ("o1_", "o2_")]
                l["x"] = [TT.D(E.integer(f"{n}{j}")) for n in ("channels", "h", "w")]
                for d in l["s"] + l["x"]:
                    c.assume(d.size >= 1)
                l["z"] = [TT.D(l["o"])] + l["s"]
                l["locs"] = E.integer(f"locations{j}")
                c.assume(l["locs"] >= 1)
                l["hyper"] = {}
                for n in ("kernel_size", "stride", "padding", "dilation", "groups"):
                    l["hyper"][n] = E.integer(f"{n}{j}")
                    setattr(l["mod"], n, l["hyper"][n])
            l["mod"].fn = lambda x, l=l: self.output(l)
        self.module.fn = self.forward

    def tensor(self, fun, L, n, dims, name):
        t = TS.Tensor.make([n] + dims, lambda *i: E.mk(fun, (L,) + tuple(x for q in i for x in TT.flatten_idx(q))),
                           self.dt, name=name)
        t.requires_grad = True
        return t

    def output(self, l):
        L, n, features = self.now
        t = self.tensor(l["Z"], L, n, l["z"], "output")
        features.append((t, lambda x: self.gradient(l, L, x)))
        return t

    def gradient(self, l, L, x):
        """Entries of the gradient of x w.r.t. the output of layer l for the mini-batch with inputs L."""
        F = self.pred.f

        def leaf(n, row):
            def rule(a):
                if a.fun is None or a.fun.frozen or a.fun.name != F.name or a.args[0].key != L.key:
                    return None
                r = E.delta(a.args[1], n)
                for p, q in zip(a.args[2:], row):
                    r = r * E.delta(p, q)
                return r
            return rule
        flat = lambda i: tuple(y for q in i for y in TT.flatten_idx(q))
        return lambda n, *i: E.freeze(TT.sum_dims(self.pred.out, lambda row: E.diff(x, "@spec", (), leaf(n, flat(row)))
                                                  * E.mk(l["J"], (L, n) + flat(row) + flat(i))))

    def forward(self, X):
        L, n = lam(tensor_of(X)), tensor_of(X).dims[0]
        features = []
        self.now = L, n, features
        if self.fails:
            self.fails("before the layers")
        for q, l in enumerate(self.layers):
            l["mod"](self.tensor(l["I"], L, n, l["x"], "input"))
            if q == 0 and self.fails:
                self.fails("between the layers")
        TS.Graph.last = TS.Graph(features)
        t = self.pred.tensor(X)
        return t

    # -- the definition of the factors
    def inputs(self, j, reduce):
        """(sum over the columns of the covariance's square root, number of averaged ones): fn(b, n, s, a)."""
        l = self.layers[j]
        flat = lambda i: tuple(y for q in i for y in TT.flatten_idx(q))

        def x(b, n, s, a):
            L = lam(self.B.X(b))
            if l["kind"] == "linear":
                return E.freeze(E.mk(l["I"], (L, n) + flat(s) + (a,)))
            return E.mk(PATCH, self.patch_args(l, L) + (n,) + flat(s) + (a,))
        return x

    def patch_args(self, l, L):
        n = E.HOOKS
        X = self.tensor(l["I"], L, self.size_of(L), l["x"], "input").detach()
        return (lam(X),) + tuple(l["hyper"].values())

    def size_of(self, L):
        return L.sizes[0]


def install(c, net):
    """Replace the functions with contracts of their own."""
    kfac_ = c.world.module("curvlinops.kfac")

    def patches(fun, averaged):
        def fn(x, kernel_size, stride, padding, dilation, groups):
            l = next((l for l in net.layers if l["kind"] == "conv" and [d.key for d in x.dims[1:]] == [
                d.key for d in l["x"]]), None)
            TT.require(l is not None, ValueError, "not the input of a convolution")
            args = (lam(x), Ex.of(kernel_size), Ex.of(stride), Ex.of(padding), Ex.of(dilation), Ex.of(groups))
            d = TT.D(TT.dprod([TT.D(k) for k in l["i"]]).size)
            if averaged:
                return TS.Tensor.make([x.dims[0], d], lambda n, a: E.Sum(l["locs"], lambda s: E.mk(
                    PATCH, args + (n, s, a))) / l["locs"], x.dtype_)
            return TS.Tensor.make([x.dims[0], l["locs"], d], lambda n, s, a: E.mk(PATCH, args + (n, s, a)), x.dtype_)
        return fn
    kfac_.extract_patches = patches(PATCH, False)
    kfac_.extract_averaged_patches = patches(PATCH, True)

    def root(out, target, loss):
        TT.require(Ex.of(out.shape[0]) == 1, ValueError, "several data points")
        TT.require(Ex.of(target.shape[0]) == 1, ValueError, "several data points")
        at, y, C = out.snapshot(), target.snapshot(), out.dims[1]
        args = (E.Lam([C.size], lambda i: at(ZERO, i[0])),)
        if len(target.dims) == 1:
            args += (y(ZERO),)
        else:
            args += (E.Lam([C.size], lambda i: y(ZERO, i[0])),)
        return TS.Tensor.make([C, C], lambda i, k: E.mk(ROOT, args + (i, k)), out.dtype_)
    kfac_.loss_hessian_matrix_sqrt = root


def label_gradients(net, fisher, red, seed, S):
    """(columns, fn(column, b, n, r, cc)): gradients of the un-reduced loss terms w.r.t. their prediction."""
    B, C, kind, rest = net.B, net.C, net.kind, net.rest

    def f(b, n, r):
        L = lam(B.X(b))
        return lambda k: E.freeze(entry(kind, rest, net.pred, L, n, r, k))

    def label(b, n, r, *k):
        return B.y(b).at(n, *((r,) if rest else ()), *k)
    prob = lambda b, n, r, k: E.ex_exp(f(b, n, r)(k)) / E.Sum(C, lambda q: E.ex_exp(f(b, n, r)(q)))
    sig = lambda b, n, r, k: 1 / (1 + E.ex_exp(-f(b, n, r)(k)))
    if fisher == "type-2":
        def g(k, b, n, r, cc):
            y = label(b, n, r) if kind == "CrossEntropyLoss" else E.Lam([C], lambda i: label(b, n, r, i[0]))
            return E.mk(ROOT, (E.Lam([C], lambda i: f(b, n, r)(i[0])), y, cc, k))
        return C, g
    def derivative(b, n, r, cc, y):
        """Derivative of the loss term of this place with label y w.r.t. entry cc of its prediction."""
        L, row = lam(B.X(b)), (n,) + ((r,) if rest else ())
        F = lambda k: entry(kind, rest, net.pred, L, n, r, k)
        target = F(cc).single_atom()
        if kind == "CrossEntropyLoss":
            x = E.mk(TS.CE, (E.Lam([C], lambda i: F(i[0])), y))
        elif kind == "MSELoss":
            x = E.Sum(C, lambda k: (F(k) - y(k)) ** 2)
        else:
            x = E.Sum(C, lambda k: E.mk(TS.BCE, (F(k), y(k))))

        def leaf(a):
            if a.fun is None or a.fun.frozen or a.fun.name != target.fun.name or a.args[0].key != L.key:
                return None
            d = ONE
            for p, q in zip(a.args[1:], target.args[1:]):
                d = d * E.delta(p, q)
            return d
        return E.freeze(E.diff(x, "@spec", (), leaf))
    if fisher == "empirical":
        return ONE, lambda k, b, n, r, cc: derivative(b, n, r, cc, label(b, n, r) if kind == "CrossEntropyLoss" else
                                                      lambda q: label(b, n, r, q))
    pos = lambda k, b: Ex.of(b) * S + k
    row = lambda n, r: (n, r) if rest else (n,)
    if kind == "CrossEntropyLoss":
        y = lambda k, b, n, r: E.mk(TS.MULT, (E.Lam([C], lambda i: prob(b, n, r, i[0])), seed, pos(k, b)) + row(n, r) + (
            ZERO,))
    elif kind == "MSELoss":
        y = lambda k, b, n, r: lambda q: f(b, n, r)(q) + E.ex_sqrt(Ex.const(E.Fraction(1, 2))) * E.mk(
            TS.NORM, (seed, pos(k, b)) + row(n, r) + (q,))
    else:
        y = lambda k, b, n, r: lambda q: E.mk(TS.BERN, (sig(b, n, r, q), seed, pos(k, b)) + row(n, r) + (q,))
    return S, lambda k, b, n, r, cc: derivative(b, n, r, cc, y(k, b, n, r))


def expected(net, fisher, red, reduce, seed, S, N, T):
    B, C = net.B, net.C
    flat = lambda i: tuple(y for q in i for y in TT.flatten_idx(q))

    def A(j):
        l, x = net.layers[j], net.inputs(j, reduce)
        s = l["s"] if l["kind"] == "linear" else [TT.D(l["locs"])]
        n_s = ONE
        for d in s:
            n_s = n_s * d.size

        def fn(a, b):
            """a, b: (column,) or None for the appended one."""
            def X(bb, n, i, a):
                return ONE if a is None else x(bb, n, i, a)

            def mean(bb, n, a):
                return ONE if a is None else TT.sum_dims(s, lambda i: x(bb, n, i, a)) / n_s
            return B.sum(lambda bb: E.Sum(B.n(bb), lambda n: mean(bb, n, a) * mean(bb, n, b) if reduce else TT.sum_dims(
                s, lambda i: X(bb, n, i, a) * X(bb, n, i, b)) / n_s)) / N
        return fn

    def Bf(j):
        l = net.layers[j]
        if fisher == "forward-only":
            return lambda p, q: E.delta(p, q)
        cols, v = label_gradients(net, fisher, red, seed, S)
        spatial = [TT.as_dim(d) for d in l["s"]]

        def G(k, b, n, s, o):
            L = lam(B.X(b))
            place = flat(s) + (o,) if l["kind"] == "linear" else (o,) + flat(s)
            ce = net.kind == "CrossEntropyLoss"

            def term(r, cc):
                mid = (r,) if net.rest else ()
                row = (cc,) + mid if ce else mid + (cc,)
                return v(k, b, n, r, cc) * E.freeze(E.mk(l["J"], (L, n) + row + place))
            inner = lambda r: E.Sum(C, lambda cc: term(r, cc))
            return E.Sum(net.R, inner) if net.rest else inner(None)
        kappa = ONE if fisher == "type-2" else ONE / S
        if red == "mean":
            kappa = kappa / (N * T)
            if net.kind != "CrossEntropyLoss" and fisher != "type-2":
                kappa = kappa / C
        elif fisher == "type-2":
            kappa = ONE

        def fn(p, q):
            def sq(k, b, n):
                if reduce:
                    return TT.sum_dims(spatial, lambda s: G(k, b, n, s, p)) * TT.sum_dims(spatial, lambda s: G(k, b, n, s, q))
                return TT.sum_dims(spatial, lambda s: G(k, b, n, s, p) * G(k, b, n, s, q))
            return kappa * B.sum(lambda b: E.Sum(B.n(b), lambda n: E.Sum(cols, lambda k: sq(k, b, n))))
        return fn
    return A, Bf


def check_factors(c, name, net, sep, sd, A, B):
    As, Bs = sd["input_covariances"], sd["gradient_covariances"]
    c.true(f"{name}: layers", sorted(As) == sorted(l["name"] for l in net.layers if "weight" in l["used"]) and
           sorted(Bs) == sorted(l["name"] for l in net.layers if l["used"]), f"{sorted(As)}, {sorted(Bs)}")
    for j, l in enumerate(net.layers):
        if l["name"] not in Bs or "weight" in l["used"] and l["name"] not in As:
            continue
        if "weight" in l["used"]:
            f = A(j)
            n = ONE
            for x in l["i"]:
                n = n * x
            if net.joint(j, sep):
                d = TT.DCat([TT.D(n), TT.D(ONE)])

                def fn(a, b, f=f):
                    return f(*[i[2] if i[1] == 0 else None for i in (a, b)])
            else:
                d, fn = TT.D(n), f
            c.tensor(f"{name}: first factor", As[l["name"]], [d, d], fn)
        c.tensor(f"{name}: second factor", Bs[l["name"]], [l["o"], l["o"]], B(j))


def setup(c, kind, fisher, layers=None, sequence=None, more=None, red=None, given=True):
    many = fisher in ("mc", "type-2")
    sep = c.choice([True, False], "separate") if not many else False
    red = red or c.choice(["mean", "sum"], "reduction")
    reduce = c.choice([False, True], "reduce")
    if layers is None:
        layers = [("linear", BOTH, BOTH)]
    if many and sequence is None and more is None:
        sequence = more = c.choice([False, True], "sequence and more output dimensions")
    net = Net(c, layers, kind, c.choice([False, True], "sequence") if sequence is None else sequence,
              c.choice([False, True], "more output dimensions") if more is None else more)
    install(c, net)
    seed, S = E.integer("seed"), E.integer("mc_samples") if fisher == "mc" else ONE
    if fisher == "mc":
        c.assume(S >= 1)
    N, = sizes(c, "N")
    T = net.R
    if not given:
        N = net.B.total()
    loss = getattr(TS, kind)(reduction=red)
    op = kfac(c, net, sep, data=net.B, loss=loss, fisher_type=fisher, mc_samples=S if fisher == "mc" else 1, seed=seed,
              num_data=N if given else None, num_per_example_loss_terms=T if given else None, kfac_approx="reduce" if reduce else "expand")
    op_ = op
    return net, sep, op, expected(net, fisher, red, reduce, seed, S, N, T)


def factors(c, kind, fisher):
    net, sep, op, (A, B) = setup(c, kind, fisher)
    K, = sizes(c, "K")
    ts, fs = operands(net, "V", K)
    op @ ts
    check_factors(c, "factors", net, sep, op.state_dict(), A, B)
    c.true("no hooks on the model", not net.module.all_hooks())


def conv(c, fisher):
    net, sep, op, (A, B) = setup(c, "MSELoss", fisher, [("conv", BOTH, BOTH)], False, False)
    ts, _ = operands(net, "V", ONE)
    op @ ts
    check_factors(c, "factors", net, sep, op.state_dict(), A, B)


def layers(c, fisher):
    """Two layers, of which some parameters are considered."""
    used = c.choice([(("weight",), ("bias",)), (BOTH, ("weight",)), (("bias",), BOTH)], "parameters")
    net, sep, op, (A, B) = setup(c, "CrossEntropyLoss", fisher, [("linear", used[0], BOTH), ("conv", used[1], BOTH)],
                                 False, False, red="mean")
    ts, _ = operands(net, "V", ONE)
    op @ ts
    check_factors(c, "factors", net, sep, op.state_dict(), A, B)


def inferred(c, kind):
    """Number of data points and of loss terms per data point are determined from the data."""
    net, sep, op, (A, B) = setup(c, kind, "empirical", sequence=False, given=False)
    ts, _ = operands(net, "V", ONE)
    op @ ts
    check_factors(c, "factors", net, sep, op.state_dict(), A, B)


CASES = [(f"{f}-{k}", lambda c, f=f, k=k: factors(c, k, f), {}) for f in ("forward-only", "empirical", "mc", "type-2")
         for k in KINDS]
CASES += [(f"conv-{f}", lambda c, f=f: conv(c, f), {}) for f in ("forward-only", "empirical", "mc", "type-2")]
CASES += [(f"layers-{f}", lambda c, f=f: layers(c, f), {}) for f in ("forward-only", "empirical")]
CASES += [(f"inferred-{k}", lambda c, k=k: inferred(c, k), {}) for k in KINDS]
