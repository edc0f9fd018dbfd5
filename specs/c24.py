"""Second derivatives w.r.t. an input or output of a layer."""
from specs.common_torch import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED + [
    "torch.nn.Module: forward hooks are called with (module, inputs, output) in the order of their registration, "
    "and not if the forward pass fails"], _c.ASSUMPTIONS + [
    "model and loss function are differentiable and depend on their arguments only",
    "a tensor recorded by a hook is not modified afterwards"]
BOUNDED = []

FEATURES = [("first", "output", 0), ("layer", "input", 0), ("layer", "input", 1), ("layer", "output", 0),
            ("layer", "output", 1), ("last", "input", 0), ("last", "output", 0), ("", "output", 0)]


class Net:
    """X -> u1, u2 = first(X); z1, z2 = layer(u1, u2); f = last(z1, z2), arbitrary functions."""

    def __init__(self, B, params, fails=None):
        self.B, self.dt = B, SymDType("dt")
        pk = lambda s: DPack(s, E.mk(int_fun(s + "size", 1), ()), E.mk(int_fun(s + "rank", 0), ()))
        self.n = B.n(ZERO)
        self.feat = {k: [TT.D(self.n), pk(k)] for k in ("u1", "u2", "z1", "z2", "f")}
        self.funs = {k: E.Fun(k, deps=[TS.THETA]) for k in self.feat}
        self.fails, self.ran = fails, []
        M = TS.Module
        self.first = M(forward=self.step("first", ["u1", "u2"]), params=[("weight", p) for p in params])
        self.layer = M(forward=self.step("layer", ["z1", "z2"]))
        self.last = M(forward=self.step("last", ["f"]))
        self.top = M([("first", self.first), ("layer", self.layer), ("last", self.last)],
                     lambda X: self.last(*self.layer(*self.first(tensor_of(X)))))

    def step(self, name, outs):
        def forward(*args):
            if self.fails == name:
                raise RuntimeError("forward pass fails")
            ts = []
            for k in outs:
                f, L = self.funs[k], [lam(x) for x in args]
                t = TS.Tensor.make(self.feat[k], lambda *i, f=f: E.mk(
                    f, tuple(L) + tuple(x for q in i for x in TT.flatten_idx(q))), self.dt, name=k)
                t.requires_grad = True
                ts.append(t)
            return ts[0] if len(ts) == 1 else tuple(ts)
        return forward

    def name(self, feature):
        name, io, k = feature
        return {("first", "output"): ("u1", "u2"), ("layer", "input"): ("u1", "u2"), ("layer", "output"): ("z1", "z2"),
                ("last", "input"): ("z1", "z2"), ("last", "output"): ("f",), ("", "output"): ("f",)}[name, io][k]


def setup(c, feature, fails=None):
    B = Batches(c, c.choice([False, True], "dict-like inputs") if fails is None else False)
    loss = GenericLoss("mean")
    params = [TS.Tensor.make([E.integer("p")], lambda i: E.mk(E.Fun("p"), (i,)), SymDType("dt")) for _ in range(1)]
    net = Net(B, params, fails)
    B.nb = ONE
    return B, loss, net


def product(c, feature):
    B, loss, net = setup(c, feature)
    kw = {}
    B.famy = family(lambda *i: E.mk(B.fy, tuple(i)), "y_in")
    K, = sizes(c, "K")
    cls = c.world.module("curvlinops.experimental.activation_hessian").ActivationHessianLinearOperator
    if B.mapping:
        # the number of data points is not needed by an operator with a single batch
        op, e = c.call(lambda: cls(net.top, loss, feature, B.data(), check_deterministic=False))
        if e is not None:
            return c.true("dict-like inputs need a batch size", isinstance(e, ValueError), str(e))
        return
    op = cls(net.top, loss, feature, B.data(), check_deterministic=False)
    a = net.name(feature)
    dims = net.feat[a]
    shape = P.as_seq(op._in_shape).concrete()
    c.true("one feature", len(shape) == 1, str(shape))
    c.holds("shape of the operator", Ex.of(op.shape[0]) == dims[0].size * dims[1].size)
    c.holds("square", Ex.of(op.shape[0]) == Ex.of(op.shape[1]))
    fV = E.Fun("V")
    V = TS.Tensor.make(dims + [K], lambda n, o, k: E.mk(fV, (n, o, k)), net.dt)
    X, y = B.X(ZERO), B.y(ZERO)
    n_args = {"u1": 1, "u2": 1, "z1": 2, "z2": 2, "f": 2}[a]

    def leaf(n, o):
        def rule(b):
            if b.fun is not net.funs[a]:
                return None
            z = b.args[n_args if a[0] != "u" else 1:]
            return E.delta(z[0], n) * E.delta(z[1], o)
        return rule

    def run():
        u = net.step("first", ["u1", "u2"])(X)
        return net.step("last", ["f"])(*net.step("layer", ["z1", "z2"])(*u))
    L = loss.value(run(), y)

    def expected(n, o, k):
        g = E.diff(L, "@spec", (), leaf(n, o))
        return E.Sum(dims[0].size, lambda m: E.Sum(dims[1].size, lambda q: E.diff(
            g, "@spec", (), leaf(m, q)) * E.mk(fV, (m, q, k))))
    out = op @ [V]
    c.true("list with one tensor", isinstance(out, (list, tuple)) and len(out) == 1, str(type(out)))
    c.tensor("product", out[0], dims + [K], expected)
    c.true("no hook remains", not net.top.all_hooks(), str(net.top.all_hooks()))
    c.tensor("frame: input", V, dims + [K], lambda n, o, k: E.mk(fV, (n, o, k)))
    data_unchanged(c, B)


def failing(c, where):
    """The forward pass fails in a product, but not before."""
    feature = c.choice([f for f in FEATURES if f[0]], "feature")
    B, loss, net = setup(c, feature, fails="never")
    op = c.world.module("curvlinops.experimental.activation_hessian").ActivationHessianLinearOperator(
        net.top, loss, feature, B.data(), check_deterministic=False)
    net.fails = where
    dims = net.feat[net.name(feature)]
    V = TS.Tensor.make(dims, lambda n, o: E.mk(E.Fun("V"), (n, o)), net.dt)
    _, e = c.call(lambda: op @ [V])
    c.true("the exception of the forward pass is passed on", isinstance(e, RuntimeError) and "forward pass" in str(e),
           f"{type(e).__name__}: {e}")
    c.true("no hook remains", not net.top.all_hooks(), str(net.top.all_hooks()))


def failing_shape(c):
    feature = c.choice([f for f in FEATURES if f[0]], "feature")
    B, loss, net = setup(c, feature, fails=c.choice(["first", "layer", "last"], "failing layer"))
    _, e = c.call(lambda: c.world.module("curvlinops.experimental.activation_hessian").ActivationHessianLinearOperator(
        net.top, loss, feature, B.data(), check_deterministic=False))
    c.true("the exception of the forward pass is passed on", isinstance(e, RuntimeError) and "forward pass" in str(e),
           f"{type(e).__name__}: {e}")
    c.true("no hook remains", not net.top.all_hooks(), str(net.top.all_hooks()))


def rejected(c):
    feature = c.choice([("nope", "output", 0), ("first", "weight", 0), ("first", "Output", 0), ("firs", "input", 0),
                        ("first", "output", 0)], "feature")
    B = Batches(c)
    params = [TS.Tensor.make([E.integer("p")], lambda i: E.mk(E.Fun("p"), (i,)), SymDType("dt"))]
    net = Net(B, params)
    several = feature == ("first", "output", 0)
    c.assume(B.nb >= 2 if several else B.nb == 1)
    _, e = c.call(lambda: c.world.module("curvlinops.experimental.activation_hessian").ActivationHessianLinearOperator(
        net.top, GenericLoss("mean"), feature, B.data(), check_deterministic=False))
    c.true("several mini-batches: ValueError" if several else "unknown layer or kind of feature: ValueError",
           isinstance(e, ValueError), f"{type(e).__name__}: {e}")
    c.true("no hook remains", not net.top.all_hooks(), str(net.top.all_hooks()))


CASES = [(f"{n or 'model'} {io} {k}", lambda c, f=(n, io, k): product(c, f), {}) for n, io, k in FEATURES] + [
    (f"failure in {w}", lambda c, w=w: failing(c, w), {}) for w in ("first", "layer", "last")] + [
    ("failure before", failing_shape, {}), ("rejected", rejected, {})]
