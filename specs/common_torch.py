"""Symbols and spec functions shared by the operators on PyTorch tensors."""
from vc import expr as E, npstub as N, prove as PR, py as P, tensor as TT, torchstub as TS
from vc.ctx import Ctx
from vc.expr import Ex, ONE, ZERO
from vc.tensor import DPack, Shape, SymDType

stubs = TS.modules
TRUSTED = [
    "torch 2.15: elementwise arithmetic, views and in-place semantics, reshape/split/cat/stack/einsum (vc/torchstub.py)",
    "torch.autograd.grad, BackPACK's hessian/jacobian/ggn vector products: exact derivatives (vc/torchstub.py)",
]
ASSUMPTIONS = [
    "arithmetic is exact over the reals (floating point rounding, overflow and NaN are not modelled)",
    "one device; vc/loader.py's syntax-tree rewriting preserves the meaning of the Python subset it accepts",
]


def sizes(c, *names, least=1):
    out = []
    for n in names:
        x = E.integer(n)
        c.assume(x >= least)
        out.append(x)
    return out


def int_fun(name, least=None):
    return E.Fun(name, "I", positive=least == 1, nonneg=least is not None and least >= 0)


def family(content, name, cls=TS.Tensor):
    """A family of tensors: t(j, dims) has the entries content(j, *idx)."""
    cell = TT.Cell(TT.memoised(content), name)

    def inv(j):
        return lambda base: (E.delta(base[0], j), tuple(base[1:]))

    def get(j, dims, dtype=None):
        j = Ex.of(j)
        return cls(cell, [TT.as_dim(d) for d in dims], lambda idx: (j,) + tuple(idx), inv(j), dtype)
    return get


class Space:
    """A list of n tensor shapes of any rank."""

    def __init__(self, name, n):
        self.name, self.n = name, n
        self.fsize, self.frank = int_fun(name + ".numel", 1), int_fun(name + ".rank", 0)

    def size(self, j):
        return E.mk(self.fsize, (Ex.of(j),))

    def rank(self, j):
        return E.mk(self.frank, (Ex.of(j),))

    def dim(self, j):
        j = Ex.of(j)
        return DPack(self.name, self.size(j), self.rank(j), [j])

    def flat(self):
        return TT.DSum(self.n, lambda j: TT.D(self.size(j)))

    def shapes(self):
        return P.VList(P.Seq.sym(self.n, lambda j: Shape([self.dim(j)])))

    def sum(self, fn):
        """Sum over all entries (j, i)."""
        return E.Sum(self.n, lambda j: E.Sum(self.size(j), lambda i: fn(j, i)))

    def tensors(self, fun, *more, dtype=None, cls=None, wrap=None):
        """The list of tensors with entries fun(j, i, *more indices)."""
        fam = family(lambda *i: E.mk(fun, tuple(i)), fun.name, cls or TS.Tensor)

        def get(j):
            j = Ex.of(j)
            t = fam(j, [self.dim(j)] + [TT.as_dim(m) for m in more], dtype)
            return wrap(t, j) if wrap else t
        return P.VList(P.Seq.sym(self.n, get))

    def flat_tensor(self, fun, *more, dtype=None):
        return TS.Tensor.make([self.flat()] + [TT.as_dim(m) for m in more],
                              lambda s, *i: E.mk(fun, (s[1], s[2]) + tuple(i)), dtype, name=fun.name)


def tensor_list(c, name, xs, space, more, fn):
    """xs is a list with one tensor per entry of the space, with entries fn(j, *idx)."""
    if not isinstance(xs, (list, tuple)):
        return c.rec(name, "unknown", f"{type(xs).__name__} instead of a list")
    s = P.as_seq(xs)
    c.holds(name + ": length of the list", Ex.of(s.length()) == space.n)
    j = E.integer("%j")
    E.HOOKS.ranges["%j"] = Ex.of(space.n)
    t = s.get(j)
    c.tensor(name, t, [space.dim(j)] + list(more), lambda *i: fn(j, *i))


def unchanged_list(c, name, xs, space, fun, more):
    tensor_list(c, name, xs, space, more, lambda j, *i: E.mk(fun, (j,) + tuple(i)))


def unchanged(c, name, t, dims, fun):
    def fn(*i):
        return E.mk(fun, tuple(x for q in i for x in TT.flatten_idx(q)))
    c.tensor(name, t, dims, fn)


# ------------------------------------------------------------------------------ data, models, losses
class Data(P.Stub):
    """An iterable of nb mini-batches; element(b) gives (X_b, y_b) anew in every pass."""

    def __init__(self, nb, element):
        self.nb, self.fn = nb, element
        self.passes = 0  # iterators created
        self.beyond = 0  # elements asked for other than the first one

    def element(self, b):
        b = Ex.of(b)
        if not (b.is_const() and b.value() == 0):
            self.beyond += 1
        return self.fn(b)

    def vc_seq(self):
        self.passes += 1
        if Ex.of(self.nb).is_const():
            return P.Seq([("c", [self.element(Ex.const(b)) for b in range(int(Ex.of(self.nb).value()))])])
        return P.Seq.sym(self.nb, lambda b: self.element(Ex.of(b)))


class Batches:
    """nb mini-batches of arbitrary sizes n(b) >= 1 with inputs and labels of any shape."""

    def __init__(self, c, mapping=False, y_dims=None):
        self.nb, = sizes(c, "NB")
        self.fn, self.fX, self.fy = int_fun("n", 1), E.Fun("X_in"), E.Fun("y_in")
        self.mapping = mapping
        self.xfeat = DPack("xshape", E.mk(int_fun("xsize", 1), ()), E.mk(int_fun("xrank", 0), ()))
        self.ydims = [DPack("yshape", E.mk(int_fun("ysize", 1), ()), E.mk(int_fun("yrank", 0), ()))] \
            if y_dims is None else [TT.as_dim(d) for d in y_dims]
        self.famX = family(lambda *i: E.mk(self.fX, tuple(i)), "X_in")
        self.famy = family(lambda *i: E.mk(self.fy, tuple(i)), "y_in")

    def n(self, b):
        return E.mk(self.fn, (Ex.of(b),))

    def X(self, b):
        return self.famX(b, [TT.D(self.n(b)), self.xfeat])

    def y(self, b):
        return self.famy(b, [TT.D(self.n(b))] + self.ydims)

    def element(self, b):
        X = self.X(b)
        return (P.VDict({"x": X}) if self.mapping else X, self.y(b))

    def data(self):
        return Data(self.nb, self.element)

    def total(self):
        return E.Sum(self.nb, self.n)

    def sum(self, fn):
        return E.Sum(self.nb, fn)


def tensor_of(X):
    return X["x"] if isinstance(X, dict) else X


def lam(t):
    """The contents of a tensor as argument of a function symbol."""
    s = t.snapshot()
    return E.Lam([d.size for d in t.dims], lambda i: s(*i))


class Loss(P.Stub):
    """A loss function of which only the reduction is used."""

    def __init__(self, reduction):
        self.reduction = reduction


def param_list(space, dtype):
    """The list of parameters theta[j, i]."""
    f = E.Fun(TS.THETA, deps=[TS.THETA])

    def wrap(t, j):
        t.meta = {"index": j}
        return t
    return space.tensors(f, dtype=dtype, cls=TS.Parameter, wrap=wrap)


def data_unchanged(c, B):
    b = E.integer("%b")
    E.HOOKS.ranges["%b"] = B.nb
    c.tensor("frame: inputs", B.X(b), [B.n(b), B.xfeat], lambda i, q: E.mk(B.fX, (b, i, q)))
    c.tensor("frame: labels", B.y(b), [B.n(b)] + B.ydims, lambda *i: E.mk(B.fy, (b,) + tuple(i)))


class Model:
    """model_func: a differentiable function of the parameters and the mini-batch input, which maps
    n data points to outputs of shape [n, *out]."""

    def __init__(self, B, name="F", out=None):
        self.B = B
        self.f = E.Fun(name, deps=[TS.THETA])
        self.out = [DPack("out", E.mk(int_fun("outsize", 1), ()), E.mk(int_fun("outrank", 0), ()))] if out is None \
            else [TT.as_dim(d) for d in out]
        self.calls = 0
        self.dtype = SymDType("dt")

    def entry(self, X, *i):
        """F(X)[i]"""
        return E.mk(self.f, (X if isinstance(X, E.Lam) else lam(tensor_of(X)),) + tuple(
            x for q in i for x in TT.flatten_idx(q)))

    def tensor(self, X):
        L = lam(tensor_of(X))
        t = TS.Tensor.make([tensor_of(X).dims[0]] + self.out, lambda *i: self.entry(L, *i), self.dtype, name="F")
        t.requires_grad = True
        return t

    def __call__(self, X):
        self.calls += 1
        return self.tensor(X)

    def vc_subst(self, sub):
        return self


class GenericLoss(Loss):
    """A differentiable loss function of all predictions and labels of a mini-batch."""

    def __init__(self, reduction, dtype=None):
        super().__init__(reduction)
        self.f = E.Fun("LOSS")
        self.dtype = dtype

    def value(self, pred, y):
        return E.mk(self.f, (lam(pred), lam(y)))

    def __call__(self, pred, y):
        v = self.value(pred, y)
        t = TS.Tensor.make([], lambda: v, self.dtype or pred.dtype_, name="loss")
        t.requires_grad = pred.requires_grad
        return t


def d2(x, j, i, m, o):
    return E.diff(E.diff(x, TS.THETA, (Ex.of(j), i)), TS.THETA, (Ex.of(m), o))


def d1(x, j, i):
    return E.diff(x, TS.THETA, (Ex.of(j), i))


def loss_hessian(loss, X, y, a, c):
    """Second derivative of the loss w.r.t. entries a, c of the prediction; X: the prediction."""
    flat = lambda i: tuple(x for q in i for x in TT.flatten_idx(q))
    return E.mk(loss.f, (lam(X), lam(y)), (("@0", flat(a)), ("@0", flat(c))))


def idx_sum(dims, fn):
    return TT.sum_dims([TT.as_dim(d) for d in dims], lambda i: fn(*i))
