"""Assumed contracts of the parts of PyTorch, BackPACK and einops that curvlinops calls.

One device ("cpu"); exact arithmetic; automatic differentiation is exact differentiation of the
normal forms.  A detached tensor shares its entries with the original but does not depend on
the parameters.
"""
from __future__ import annotations

import builtins
from fractions import Fraction

import z3

from . import expr as E
from . import npstub as N
from . import py as P
from . import tensor as TT
from .arr import Arr, BoolT, einsum_core, einsum_names
from .ctx import Ctx
from .expr import Ex, ONE, ZERO, SymBool, Unsupported
from .loader import StubModule
from .tensor import D, DType, DPack, Shape, T, as_dim, elementwise, is_one, promote, simp

F32, F64, I64, BF16 = DType("float32"), DType("float64"), DType("int64"), DType("bfloat16")
THETA = "theta"


class Device(P.Stub):
    def __init__(self, name="cpu", *_):
        if isinstance(name, Device):
            name = name.name
        self.name = self.type = name

    def __eq__(self, o):
        return isinstance(o, Device) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


CPU = Device("cpu")


def split_parts(t, k, seq):
    """Parts of unknown number along a plain axis (read only)."""
    def size(j):
        return Ex.of(seq.get(Ex.of(j)))

    def part(j):
        j = Ex.of(j)
        start = TT.Sum(j, size)
        p = TT.narrow(t, k, start, start + size(j))
        p.ro = True
        p.cell.nowrite = "part of a tensor"
        return p
    return P.Seq.sym(Ex.of(seq.segs[0][1]), part)


class Tensor(Arr):
    """torch.Tensor"""

    lib = "torch"
    frz = False  # detached: reads do not depend on the parameters
    is_leaf_param = False

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.device_ = CPU if isinstance(self.device_, str) else self.device_

    # -- reads of detached tensors
    def at(self, *idx):
        r = super().at(*idx)
        return E.freeze(r) if self.frz and r.deps else r

    def snapshot(self):
        s = super().snapshot()
        if not self.frz:
            return s

        def f(*idx):
            r = s(*idx)
            return E.freeze(r) if r.deps else r
        return f

    def view_(self, *a):
        r = super().view_(*a)
        r.frz = self.frz
        r.meta = {k: v for k, v in self.meta.items() if k == "frz"}
        return r

    # -- attributes
    @property
    def dtype(self):
        return self.dtype_ or F32

    @property
    def device(self):
        return self.device_

    is_cuda = False

    @property
    def data(self):
        return self.detach()

    @property
    def mT(self):
        n = len(self.dims)
        return TT.permute(self, list(builtins.range(n - 2)) + [n - 1, n - 2])

    @property
    def requires_grad_prop(self):
        return self.requires_grad

    # -- copies, devices, types
    def detach(self):
        t = Tensor(self.cell, self.dims, self.fwd, self.inv, self.dtype_, self.device_)
        t.ro, t.frz, t.meta = self.ro, True, dict(self.meta)
        return t

    def detach_(self):
        self.frz = True
        self.requires_grad = False
        return self

    def clone(self, **k):
        return self.fresh_copy()

    def contiguous(self):
        return self

    def to(self, *a, **k):
        t = self
        for x in list(a) + list(k.values()):
            if isinstance(x, (Device, str)):
                if Device(x) != self.device_:
                    raise Unsupported("several devices")
            elif isinstance(x, (DType, TT.SymDType)):
                t = t.cast(x)
            elif isinstance(x, T):
                t = t.cast(x.dtype)
            elif isinstance(x, bool):
                pass
            else:
                raise Unsupported("argument of Tensor.to")
        return t

    def cast(self, dt):
        if dt is self.dtype:
            return self
        if isinstance(dt, DType) and not dt.is_floating_point and not (
                isinstance(self.dtype, DType) and not self.dtype.is_floating_point):
            raise Unsupported("truncation to integers")
        r = self.fresh_copy()
        r.dtype_ = dt
        return r

    def type(self, dt):
        return self.cast(dt)

    def float(self):
        return self.cast(F32)

    def double(self):
        return self.cast(F64)

    def cpu(self):
        return self

    def cuda(self, *a):
        raise Unsupported("several devices")

    def numpy(self):
        t = N.NA(self.cell, self.dims, self.fwd, self.inv, self.dtype_)
        t.ro = self.ro
        if not self.frz:
            if self.requires_grad:
                raise RuntimeError("Can't call numpy() on Tensor that requires grad.")
        else:
            s = self.snapshot()
            base = self.cell.content
            t = N.NA.make(self.dims, lambda *i: s(*i), self.dtype_) if base is None else t
            if getattr(self, "frz", False):
                t = FrozenNA.of(self)
        return t

    def item(self):
        return self.scalar()

    def tolist(self):
        if not self.dims:
            return self.scalar()
        return P.VList(P.as_seq(self).map(lambda x: x.scalar() if isinstance(x, T) and not x.dims else x.tolist()))

    # -- arithmetic
    def add(self, o, alpha=1):
        return self + _scale(o, alpha)

    def sub(self, o, alpha=1):
        return self - _scale(o, alpha)

    def add_(self, o, alpha=1):
        return self.inplace_(lambda a, b: a + b, N_(_scale(o, alpha)))

    def sub_(self, o, alpha=1):
        return self.inplace_(lambda a, b: a - b, N_(_scale(o, alpha)))

    def mul(self, o):
        return self * o

    def mul_(self, o):
        return self.inplace_(lambda a, b: a * b, N_(o))

    def div(self, o):
        return self / o

    def div_(self, o):
        return self.inplace_(lambda a, b: a / b, N_(o))

    def neg(self):
        return -self

    def neg_(self):
        return self.inplace_(lambda a: -a)

    def pow(self, e):
        return self ** e

    def pow_(self, e):
        return self.inplace_(lambda a: a ** Ex.of(e))

    def square(self):
        return self ** 2

    def square_(self):
        return self.pow_(2)

    def sqrt_(self):
        return self.inplace_(E.ex_sqrt)

    def exp_(self):
        return self.inplace_(E.ex_exp)

    def log_(self):
        return self.inplace_(E.ex_log)

    def abs_(self):
        return self.inplace_(lambda a: abs(a))

    def reciprocal_(self):
        return self.inplace_(lambda a: 1 / a)

    def sigmoid_(self):
        return self.inplace_(sigmoid)

    def sqrt(self):
        return elementwise(E.ex_sqrt, self)

    def exp(self):
        return elementwise(E.ex_exp, self)

    def log(self):
        return elementwise(E.ex_log, self)

    def abs(self):
        return elementwise(lambda a: abs(a), self)

    def reciprocal(self):
        return 1 / self

    def sigmoid(self):
        return elementwise(sigmoid, self)

    def softmax(self, dim=None, dtype=None):
        return softmax(self, dim)

    def zero_(self):
        self.before_inplace()
        self.assign(lambda old, *i: ZERO)
        return self

    def fill_(self, v):
        v = Ex.of(v)
        self.assign(lambda old, *i: v)
        return self

    def copy_(self, o):
        return self.inplace_(lambda a, b: b, N_(o))

    def before_inplace(self):
        if self.is_leaf_param and not Ctx.cur.ghost("no_grad"):
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")

    # -- reductions
    def sum(self, dim=None, keepdim=False, dtype=None, axis=None):
        return self.sum_(_axes(dim if axis is None else axis), keepdim)

    def mean(self, dim=None, keepdim=False, dtype=None, axis=None):
        return self.sum_(_axes(dim if axis is None else axis), keepdim, True)

    def trace(self):
        if len(self.dims) != 2:
            raise RuntimeError("trace: expected a matrix")
        TT.require(self.dims[0].size == self.dims[1].size, RuntimeError, "trace of a rectangular matrix")
        a, b = self.dims
        s = self.snapshot()
        return self.like([], lambda: TT.sum_dim(a, lambda i: s(i, TT.conv(i, a, b))))

    def diag(self, k=0):
        if k:
            raise Unsupported("off-diagonal")
        s = self.snapshot()
        if len(self.dims) == 2:
            a, b = self.dims
            TT.require(a.size == b.size, RuntimeError, "diagonal of a rectangular matrix")
            return self.like([a], lambda i: s(i, TT.conv(i, a, b)))
        a = self.dims[0]
        return self.like([a, a], lambda i, j: TT.delta_idx(i, j) * s(i))

    def diagonal(self, *a, **k):
        raise Unsupported("diagonal view")

    def norm(self, p=2, dim=None, **k):
        if dim is not None or p not in (2, "fro") or k:
            raise Unsupported("norm of this order")
        return self.like([], lambda s=self.snapshot(): E.ex_sqrt(TT.sum_dims(self.dims, lambda i: s(*i) ** 2)))

    def det(self):
        return DETF(self)

    def logdet(self):
        return LOGDETF(self)

    # -- shapes
    def reshape(self, *s):
        return TT.reshape(self, _sizes(s))

    view = reshape

    def flatten(self, start_dim=0, end_dim=-1):
        n = len(self.dims)
        a = start_dim % n if n else 0
        b = end_dim % n if n else 0
        if n == 0:
            return TT.insert_axis(self, 0)
        if n and (any(isinstance(d, DPack) for d in self.dims[:a + (start_dim != 0)]) and start_dim > 0
                  or (end_dim < -1)):
            raise Unsupported("flatten next to an unknown number of axes")
        if a == b and not isinstance(self.dims[a], DPack):
            return self
        return TT.group(self, a, b - a + 1)

    def unsqueeze(self, k):
        n = len(self.dims)
        if k < 0:
            if any(isinstance(d, DPack) for d in self.dims[n + 1 + k:]):
                raise Unsupported("axis next to an unknown number of axes")
            k = n + 1 + k
        elif any(isinstance(d, DPack) for d in self.dims[:k]):
            raise Unsupported("axis next to an unknown number of axes")
        return TT.insert_axis(self, k)

    def squeeze_(self, k=None):
        t = self.squeeze(k)
        self.dims, self.fwd, self.inv = t.dims, t.fwd, t.inv
        return self

    def squeeze(self, k=None):
        if k is None:
            t = self
            for q in reversed(builtins.range(len(self.dims))):
                d = self.dims[q]
                if isinstance(d, DPack):
                    raise Unsupported("squeeze of an unknown number of axes")
                if is_one(d) or bool(d.size == 1):
                    t = TT.drop_axis(t, q)
            return t
        q = self.axis(k)
        if isinstance(self.dims[q], DPack):
            raise Unsupported("squeeze of an unknown number of axes")
        if is_one(self.dims[q]) or bool(self.dims[q].size == 1):
            return TT.drop_axis(self, q)
        return self

    def permute(self, *p):
        p = _sizes(p)
        return TT.permute(self, [self.axis(int(x)) for x in p])

    def transpose(self, a, b):
        perm = list(builtins.range(len(self.dims)))
        a, b = self.axis(a), self.axis(b)
        perm[a], perm[b] = perm[b], perm[a]
        return TT.permute(self, perm)

    def t(self):
        return self.T

    def expand(self, *s):
        s = _sizes(s)
        dims = list(self.dims)
        new = []
        extra = len(s) - len(dims)
        for q, x in enumerate(s):
            d = dims[q - extra] if q >= extra else None
            if isinstance(x, int) and x == -1:
                if d is None:
                    raise RuntimeError("expand: -1 in a new axis")
                new.append(d)
            else:
                x = as_dim(x)
                if d is not None and not is_one(d):
                    TT.require(d.size == x.size, RuntimeError, "expand: sizes differ")
                    x = d
                new.append(x)
        src = self.snapshot()

        def f(*i):
            return src(*[TT.zero_idx(d) if is_one(d) and not is_one(o) else TT.conv(x, o, d)
                         for x, o, d in zip(i[extra:], new[extra:], dims)])
        r = self.like(new, f)
        r.ro = True
        r.cell.nowrite = "expanded tensor"
        return r

    def expand_as(self, o):
        return self.expand(*Shape(o.dims).star())

    def repeat(self, *s):
        s = _sizes(s)
        dims = list(self.dims)
        # reps: one per axis of self (no new axes)
        src = self.snapshot()
        new, pos = [], 0
        for x in s:
            if pos >= len(dims):
                raise Unsupported("repeat with new axes")
            d = dims[pos]
            if isinstance(x, TT.Ones):
                if not (isinstance(d, DPack) and Ex.of(x.rank).same(Ex.of(d.rank))):
                    raise Unsupported("repeat of an unknown number of axes")
                new.append(d)
            elif isinstance(d, DPack):
                raise Unsupported("repeat of an unknown number of axes")
            elif is_one(d):
                new.append(as_dim(x))
            elif isinstance(x, int) and x == 1:
                new.append(d)
            else:
                raise Unsupported("repeat of an axis")
            pos += 1
        if pos != len(dims):
            raise RuntimeError("Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor")
        return self.like(new, lambda *i: src(*[TT.zero_idx(d) if is_one(d) and not is_one(o) else TT.conv(x, o, d)
                                               for x, o, d in zip(i, new, dims)]))

    def new_ones(self, *s, dtype=None, device=None, **k):
        return full_(_sizes(s), 1, dtype or self.dtype_)

    def new_zeros(self, *s, dtype=None, device=None, **k):
        return full_(_sizes(s), 0, dtype or self.dtype_)

    def new_full(self, size, fill_value, dtype=None, device=None, **k):
        return full_(_sizes((size,)), fill_value, dtype or self.dtype_)

    def split(self, sizes, dim=0):
        k = self.axis(dim)
        d = self.dims[k]
        if isinstance(sizes, (int, Ex)):
            if not Ex.of(sizes).same(ONE):
                raise Unsupported("split into equal chunks")

            def one(j):
                r = TT.insert_axis(TT.select(self, k, TT.unflatten(Ex.of(j), d)), k)
                return r
            return P.VList(P.Seq.sym(d.size, one))
        seq = P.as_seq(sizes)
        total = P.b_sum(sizes)
        TT.require(Ex.of(total) == d.size, RuntimeError, "split_with_sizes expects the sizes to sum to the axis's size")
        c = seq.concrete()
        if c is None and len(seq.segs) == 1 and isinstance(d, TT.DSum) and seq.segs[0][1].same(d.n):
            v = Ex.atom(E.fresh("j", "I"))
            E.HOOKS.ranges[v.single_atom().name] = d.n
            if Ex.of(seq.get(v)).same(d.fn(v).size):
                return P.VList(P.Seq.sym(d.n, lambda i: TT.sum_component(self, k, Ex.of(i))))
        if c is None and len(seq.segs) == 1 and isinstance(d, TT.D):
            return P.VList(split_parts(self, k, seq))
        if c is not None:
            if isinstance(d, TT.DCat) and len(d.parts) == len(c) and all(Ex.of(x).same(p.size) for x, p in zip(c, d.parts)):
                return P.VList([TT.component(self, k, q, q + 1) for q in builtins.range(len(c))])
            out, acc = [], ZERO
            for x in c:
                out.append(TT.narrow(self, k, acc, acc + x))
                acc = acc + x
            return P.VList(out)
        raise Unsupported("split into an unknown number of parts")

    def narrow(self, dim, start, length):
        return TT.narrow(self, self.axis(dim), Ex.of(start), Ex.of(start) + length)

    def __iter__(self):
        return super().__iter__()

    # -- comparisons
    def allclose(self, o, rtol=1e-5, atol=1e-8, equal_nan=False):
        return closeness(self, o, rtol, atol)

    def isclose(self, o, rtol=1e-5, atol=1e-8, equal_nan=False):
        return Mask(self, o)

    def __getitem__(self, k):
        if isinstance(k, Mask):
            return k.select(self)
        return super().__getitem__(k)

    def max(self, *a):
        if a:
            raise Unsupported("maximum along an axis")
        return extremum("max", self)

    def min(self, *a):
        if a:
            raise Unsupported("minimum along an axis")
        return extremum("min", self)

    def any(self, *a, **k):
        return (self != 0).any(*a, **k)

    def all(self, *a, **k):
        return (self != 0).all(*a, **k)

    def backward(self, *a, **k):
        raise Unsupported("backward")

    def register_hook(self, fn):
        self.hooks.append(fn)
        return HookHandle(self.hooks, fn)

    def inner(self, o):
        return einsum_names([[str(q) for q in builtins.range(len(self.dims))]] * 2, [], [self, o])

    def dot(self, o):
        return self @ o

    def mm(self, o):
        return self @ o

    def bernoulli(self, *a, generator=None, **k):
        return draw(BERN, list(self.dims), self.dtype_, generator, lambda i, s=self.snapshot(): [s(*i)])

    def multinomial(self, num_samples, replacement=False, generator=None):
        if not replacement and not (isinstance(num_samples, int) and num_samples == 1):
            raise Unsupported("multinomial without replacement")
        if len(self.dims) != 2:
            raise Unsupported("multinomial of this shape")
        s = self.snapshot()
        n, c = self.dims
        return draw(MULT, [n, as_dim(num_samples)], I64, generator,
                    lambda i: [E.Lam([c.size], lambda j: s(i[0], j[0]))])

    def unique(self, *a, **k):
        return UniqueValues(self)


class FrozenNA(N.NA):
    """Array sharing memory with a detached tensor."""

    @staticmethod
    def of(t):
        r = FrozenNA(t.cell, t.dims, t.fwd, t.inv, t.dtype_)
        r.ro = t.ro
        return r

    def at(self, *idx):
        x = super().at(*idx)
        return E.freeze(x) if x.deps else x

    def snapshot(self):
        s = super().snapshot()

        def f(*idx):
            x = s(*idx)
            return E.freeze(x) if x.deps else x
        return f

    def like(self, dims, fn, dtype=None):
        return N.NA.make(dims, fn, dtype or self.dtype_)


def opaque_pred(tag, lams, symmetric=False):
    """An uninterpreted condition on tensors; a predicate of the generic indices in them."""
    import itertools

    lams = [E.unfreeze(x) for x in lams]
    free = sorted(n for n in frozenset().union(*[x.fv for x in lams]) if n in E.HOOKS.ranges)
    best = None
    for perm in itertools.permutations(free):
        sub = {n: E.integer(f"%c{q}") for q, n in enumerate(perm)}
        keys = [E.subst_arg(x, sub).key for x in lams]
        if symmetric:
            keys.sort()
        if best is None or keys < best[0]:
            best = (keys, perm)
    keys, perm = best
    name = f"{tag}<{'|'.join(keys)}>"
    if not perm:
        return SymBool(z3.Bool(name))
    return SymBool(z3.Function(name, *([z3.IntSort()] * len(perm)), z3.BoolSort())(*[z3.Int(n) for n in perm]))


def closeness(a, b, rtol=1e-5, atol=1e-8):
    """Assumed: true for equal tensors without NaN; otherwise an unknown (symmetric) relation."""
    if not (isinstance(a, T) and isinstance(b, T)):
        raise Unsupported("allclose of non-tensors")
    if len(a.dims) != len(b.dims) or not bool(TT.shape_eq(Shape(a.dims), Shape(b.dims))):
        raise Unsupported("allclose with broadcasting")
    sa, sb = a.snapshot(), b.snapshot()
    la, lb = tensor_lam(a.dims, sa), tensor_lam(a.dims, lambda *i: sb(*[
        TT.conv(x, d, e) for x, d, e in zip(i, a.dims, b.dims)]))
    Ctx.cur.explorer.tolerances = getattr(Ctx.cur.explorer, "tolerances", set()) | {(rtol, atol)}
    la, lb = E.unfreeze(la), E.unfreeze(lb)
    if la.key == lb.key:
        return SymBool(z3.BoolVal(True))
    return opaque_pred("close", [la, lb], True)


def tensor_lam(dims, fn):
    """The contents as function of the elementary indices."""
    sizes = []
    for d in dims:
        if isinstance(d, TT.DSum):
            sizes.append(None)
        elif TT.structure(d) > 1:
            raise Unsupported("structured axis in an opaque condition")
        else:
            sizes.append(d.size)
    flat, pos = [], []
    for d, s in zip(dims, sizes):
        if s is None:
            flat += [d.n, None]
        else:
            flat.append(s)
    if not any(x is None for x in flat):
        return E.Lam(flat, lambda i: fn(*i))
    # component j of a concatenated axis: nested function of its index
    k = next(q for q, s in enumerate(sizes) if s is None)
    d = dims[k]
    if any(s is None for s in sizes[k + 1:]):
        raise Unsupported("several concatenated axes in an opaque condition")

    def outer(j):
        inner = d.fn(j[0])
        return E.mk(NESTED, (tensor_lam([inner] + list(dims[:k]) + list(dims[k + 1:]), lambda i, *o: fn(
            *o[:k], ("s", j[0], i), *o[k:])),))
    return E.Lam([d.n], outer)


NESTED = E.Fun("component")
EXTREMUM = {"max": E.Fun("max"), "min": E.Fun("min")}


def extremum(kind, t):
    s = t.snapshot()
    lam = tensor_lam(t.dims, s)
    return Tensor.make([], lambda: E.mk(EXTREMUM[kind], (lam,)), t.dtype_)


class Mask(P.Stub):
    """isclose: an unknown number of entries is selected."""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.count = None

    def logical_not_(self):
        return self

    logical_not = logical_not_
    __invert__ = logical_not_

    def size(self):
        if self.count is None:
            self.count = E.fresh("nonclose", "I")
            Ctx.cur.assume(Ex.atom(self.count) >= 0)
        return Ex.atom(self.count)

    def argwhere(self):
        f = E.Fun("argwhere", "I", nonneg=True)
        n = self.size()
        return Tensor.make([D(n), D(E.mk(E.Fun("rank", "I", nonneg=True), (n,)))], lambda i, q: E.mk(f, (n, i, q)), I64)

    nonzero = argwhere

    def select(self, t):
        f = E.Fun("selected")
        n = self.size()
        lam = tensor_lam(t.dims, t.snapshot())
        return Tensor.make([D(n)], lambda i: E.mk(f, (n, lam, i)), t.dtype_)


def parts_of(d):
    if isinstance(d, TT.DProd):
        return [q for p in d.parts for q in parts_of(p)]
    if isinstance(d, (TT.DSum, TT.DCat)):
        raise Unsupported("concatenated axis in an opaque condition")
    return [d]


def join(d, i):
    """Index of the axis from the indices of its parts (removed from the list i)."""
    if isinstance(d, TT.DProd):
        return ("p",) + tuple(join(p, i) for p in d.parts)
    return i.pop(0)


class UniqueValues(P.Stub):
    """tensor.unique(): only used for a test of the values."""

    def __init__(self, t):
        self.t = t

    def flatten(self):
        return self

    def tolist(self):
        return self

    def vc_set(self):
        return self

    def issubset(self, o):
        vals = list(o)
        s = self.t.snapshot()
        key = "&".join(sorted(str(v) for v in vals))
        dims = [p for d in self.t.dims for p in parts_of(d)]

        def at(i):
            i = list(i)
            return s(*[join(d, i) for d in self.t.dims])
        return opaque_pred(f"values:{key}", [E.Lam([d.size for d in dims], at)])


class Parameter(Tensor):
    """torch.nn.Parameter: a leaf tensor whose entries are the variables theta[j, i]."""

    is_leaf_param = True
    requires_grad = True

    def data_ptr(self):
        return id(self.cell)

    def register_index(self, j):
        self.index = j
        return self

    def vc_gen(self):
        return None


def N_(o):
    if isinstance(o, T):
        return o
    return Ex.of(o)


def _scale(o, alpha):
    if isinstance(alpha, (int, float)) and alpha == 1:
        return o
    return o * alpha


def _axes(dim):
    if dim is None:
        return None
    if isinstance(dim, (int, Ex)):
        return (int(dim),)
    return tuple(int(x) for x in P.as_seq(dim).concrete())


def _sizes(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        return P.star(s[0])
    out = []
    for x in s:
        if isinstance(x, Shape):
            out += x.star()
        else:
            out.append(x)
    return out


def sigmoid(x):
    return E.ex_exp(x) / (1 + E.ex_exp(x))


class HookHandle(P.Stub):
    def __init__(self, hooks, fn):
        self.hooks, self.fn = hooks, fn

    def remove(self):
        for q, f in enumerate(self.hooks):
            if f is self.fn:
                del self.hooks[q]
                return


# ----------------------------------------------------------------------------------
# creation
# ----------------------------------------------------------------------------------
def full_(dims, v, dtype, name=None):
    v = Ex.of(v)
    return Tensor.make(dims, lambda *i: v, dtype, name=name)


def zeros(*s, device=None, dtype=None, **k):
    return full_(_sizes(s), 0, dtype or F32)


def ones(*s, device=None, dtype=None, **k):
    return full_(_sizes(s), 1, dtype or F32)


def empty(*s, device=None, dtype=None, **k):
    f = E.Fun(E.fresh_named("uninit").name)
    return Tensor.make(_sizes(s), lambda *i: E.mk(f, tuple(x for j in i for x in TT.flatten_idx(j))), dtype or F32)


def zeros_like(t, device=None, dtype=None, **k):
    return full_(list(t.dims), 0, dtype or t.dtype_)


def ones_like(t, device=None, dtype=None, **k):
    return full_(list(t.dims), 1, dtype or t.dtype_)


def empty_like(t, **k):
    return empty(*t.dims, dtype=t.dtype_)


def eye(n, m=None, device=None, dtype=None, **k):
    d = as_dim(n)
    return Tensor.make([d, d if m is None else as_dim(m)], lambda i, j: TT.delta_idx(i, j), dtype or F32)


def tensor(x, device=None, dtype=None, **k):
    if isinstance(x, T):
        raise Unsupported("tensor() of a tensor")
    if isinstance(x, (int, float, Ex, bool)):
        return full_([], x, dtype or F32)
    c = P.as_seq(x).concrete()
    if c is None or any(not isinstance(y, (int, float, Ex)) for y in c):
        raise Unsupported("tensor() of this object")
    return Tensor.make([D(len(c))], lambda i: P.pick([Ex.of(y) for y in c], i), dtype or F32)


def as_tensor(x, dtype=None, device=None):
    if isinstance(x, Tensor):
        return x.cast(dtype) if dtype is not None else x
    if isinstance(x, N.NA):
        if dtype is None or dtype is x.dtype:
            t = Tensor(x.cell, x.dims, x.fwd, x.inv, x.dtype)
            t.ro = x.ro
            return t
        s = x.snapshot()
        return Tensor.make(list(x.dims), lambda *i: s(*i), dtype)
    return tensor(x, dtype=dtype)


def from_numpy(x):
    return as_tensor(x)


def arange(*a, **k):
    r = N.arange(*a)
    s = r.snapshot()
    return Tensor.make(list(r.dims), lambda *i: s(*i), I64)


def cat(ts, dim=0):
    if not P.needs_seq(ts):
        ts = list(ts)
        if not ts:
            raise RuntimeError("torch.cat(): expected a non-empty list of Tensors")
        return TT.cat(ts, dim)
    s = P.as_seq(ts)
    if s.concrete() is not None:
        return TT.cat(s.concrete(), dim)
    if len(s.segs) != 1:
        raise Unsupported("concatenation of this list")
    _, n, get = s.segs[0]
    if not bool(Ex.of(n) >= 1):
        raise RuntimeError("torch.cat(): expected a non-empty list of Tensors")
    v = E.fresh("j", "I")
    E.HOOKS.ranges[v.name] = Ex.of(n)
    V = Ex.atom(v)
    t0 = get(V)
    k = t0.axis(dim)
    for q, d in enumerate(t0.dims):
        if q != k and v.name in Ex.of(d.size).fv:
            z = get(ZERO).dims[q]
            TT.require(d.size == z.size, RuntimeError, "Sizes of tensors must match except in dimension")

    def part(i):
        return t0.dims[k].subst({v.name: Ex.of(i)})
    memo = {}

    def src(i):
        key = i.key
        if key not in memo:
            memo[key] = get(i).snapshot()
        return memo[key]

    # the family's content at a generic element, specialised
    def f(*idx):
        _, i, loc = idx[k]
        return src(i)(*idx[:k], loc, *idx[k + 1:])
    dims = [d.subst({v.name: ZERO}) for d in t0.dims]
    dims[k] = TT.DSum(n, part)
    r = Tensor.make(dims, f, t0.dtype_)
    r.requires_grad = t0.requires_grad
    return r


def stack(ts, dim=0):
    s = P.as_seq(ts)
    c = s.concrete()
    if c is not None:
        return TT.stack_list(c, dim)
    if len(s.segs) != 1:
        raise Unsupported("stack of this list")
    _, n, get = s.segs[0]
    v = E.fresh("j", "I")
    E.HOOKS.ranges[v.name] = Ex.of(n)
    t0 = get(Ex.atom(v))
    if any(v.name in Ex.of(d.size).fv for d in t0.dims):
        raise Unsupported("stack of tensors of different shapes")
    if not bool(Ex.of(n) >= 1):
        raise RuntimeError("stack expects a non-empty TensorList")
    k = dim if dim >= 0 else len(t0.dims) + 1 + dim
    memo = {}

    def src(i):
        if i.key not in memo:
            memo[i.key] = get(i).snapshot()
        return memo[i.key]
    dims = list(t0.dims)
    dims.insert(k, D(n))
    r = Tensor.make(dims, lambda *i: src(i[k])(*i[:k], *i[k + 1:]), t0.dtype_)
    r.requires_grad = t0.requires_grad
    return r


def softmax(t, dim):
    k = t.axis(dim)
    s = t.snapshot()
    d = t.dims[k]
    return t.like(list(t.dims), lambda *i: E.ex_exp(s(*i)) / TT.sum_dim(
        d, lambda j: E.ex_exp(s(*i[:k], j, *i[k + 1:]))))


def one_hot(t, num_classes=-1):
    s = t.snapshot()
    return Tensor.make(list(t.dims) + [as_dim(num_classes)], lambda *i: E.delta(s(*i[:-1]), i[-1]), I64)


def einsum(eq, *ops):
    return einsum_core(eq, list(ops))


def outer(a, b):
    return einsum_names([["i"], ["j"]], ["i", "j"], [a, b])


# ----------------------------------------------------------------------------------
# random numbers
# ----------------------------------------------------------------------------------
NORM = E.Fun("torch.normal")
UNI = E.Fun("torch.rand", nonneg=True)
BERN = E.Fun("torch.bernoulli", "I", nonneg=True)
MULT = E.Fun("torch.multinomial", "I", nonneg=True)


class Generator(P.Stub):
    """State: (seed, number of draws since)."""

    count = 0

    def __init__(self, device=None):
        self.device = CPU if device is None else Device(device)
        n = Ctx.cur.ghost("generators")
        Ctx.cur.set_ghost("generators", n + 1)
        self.num = n
        Ctx.cur.set_ghost(f"gen{n}.seed", Ex.of(-1 - n))

    def manual_seed(self, s):
        c = Ctx.cur
        c.set_ghost(f"gen{self.num}.seed", Ex.of(s))
        c.set_ghost(f"gen{self.num}.pos", ZERO)
        return self

    def seed(self):
        raise Unsupported("non-deterministic seed")


def draw(fun, dims, dtype, generator, params):
    c = Ctx.cur
    if generator is None:
        seed, key = Ex.of(-10 ** 6), "torch_rng"
    else:
        seed, key = Ex.of(c.ghost(f"gen{generator.num}.seed")), f"gen{generator.num}.pos"
    pos = Ex.of(c.ghost(key))
    c.set_ghost(key, pos + 1)
    frozen = lambda y: E._freeze_lam(y) if isinstance(y, E.Lam) else E.freeze(Ex.of(y))  # no gradient through draws
    return Tensor.make(dims, lambda *i: E.mk(fun, tuple(frozen(y) for y in params(i)) + (seed, pos) + tuple(
        x for j in i for x in TT.flatten_idx(j))), dtype)


def rand(*s, generator=None, device=None, dtype=None, **k):
    return draw(UNI, _sizes(s), dtype or F32, generator, lambda i: [])


def randn(*s, generator=None, device=None, dtype=None, **k):
    return draw(NORM, _sizes(s), dtype or F32, generator, lambda i: [])


def normal(mean, std, size=None, generator=None, **k):
    if size is not None or not isinstance(mean, T):
        raise Unsupported("normal with these arguments")
    z = draw(NORM, list(mean.dims), mean.dtype_, generator, lambda i: [])
    return z * std + mean


# ----------------------------------------------------------------------------------
# automatic differentiation
# ----------------------------------------------------------------------------------
def wrt(x, inp):
    """(dims, fn(idx) -> derivative of the scalar x w.r.t. entry idx of inp)"""
    if getattr(inp, "is_leaf_param", False):
        j = inp.meta["index"]
        return lambda i: E.diff(x, THETA, (j,) + TT.flatten_idx(i[0]))
    leaf = leaf_rule(inp)

    def f(i):
        return E.diff(x, "@leaf", (), leaf(i))
    return f


def leaf_rule(inp):
    """Entries of a non-leaf tensor as variables: they must be single atoms."""
    gens = []
    for d in inp.dims:
        g = d.generic("g")
        if len(g) != 1:
            raise Unsupported("derivative w.r.t. a concatenation")
        gens.append(g[0])
    idx = [g[0] for g in gens]
    for g in gens:
        for v, s in g[1]:
            E.HOOKS.ranges[v.name] = Ex.of(s)
    names = [v.name for g in gens for v, _ in g[1]]
    raw = inp.cell.content(*(inp.fwd(tuple(idx)) if inp.fwd is not None else idx))
    if inp.frz:
        raise RuntimeError("One of the differentiated Tensors does not require grad")
    a = raw.single_atom()
    if a is None or a.fun is None:
        raise Unsupported("derivative w.r.t. an intermediate result")
    pos = {}
    for p, y in enumerate(a.args):
        fv = (y.fv if isinstance(y, (Ex, E.Lam)) else frozenset()) & set(names)
        if not fv:
            continue
        if not (isinstance(y, Ex) and y.single_atom() is not None and y.single_atom().name in names) or \
                y.single_atom().name in pos:
            raise Unsupported("derivative w.r.t. this view")
        pos[y.single_atom().name] = p
    if set(pos) != set(names):
        raise Unsupported("derivative w.r.t. an expanded tensor")

    def rule(i):
        flat = [x for j in i for x in TT.flatten_idx(j)]
        at = {pos[n]: x for n, x in zip(names, flat)}

        def leaf(b):
            if b.fun is not a.fun or b.ders:
                return None
            r = ONE
            for p, (y, z) in enumerate(zip(a.args, b.args)):
                if p in at:
                    r = r * E.delta(z, at[p])
                elif isinstance(y, Ex):
                    r = r * E.delta(z, y)
                elif not (y == z):
                    raise Unsupported("derivative w.r.t. one of several model outputs")
            return r
        return leaf
    return rule


def scalar_of(out):
    if not isinstance(out, T):
        raise TypeError("grad of a non-tensor")
    return out.scalar()


def seq_of(inputs):
    return P.as_seq(inputs)


class Graph:
    """The last forward pass of a network whose layers' outputs may carry hooks.

    features: (tensor, fn) where fn(x) gives the entries of the gradient of the scalar x."""

    last = None

    def __init__(self, features):
        self.features, self.freed = list(features), E.fresh_named("graph freed").name

    @classmethod
    def backward(cls, x, retain):
        g = cls.last
        if g is None:
            return
        if bool(Ex.of(Ctx.cur.ghost(g.freed)) >= 1):
            raise RuntimeError("Trying to backward through the graph a second time")
        for t, fn in g.features:
            for h in list(t.hooks):
                r = Tensor.make(list(t.dims), fn(x), t.dtype_)
                r.requires_grad = False
                if h(r) is not None:
                    raise Unsupported("a hook which changes the gradient")
        if not retain:
            Ctx.cur.set_ghost(g.freed, Ex.of(Ctx.cur.ghost(g.freed)) + 1)


def grad(outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, allow_unused=None,
         is_grads_batched=False, materialize_grads=False):
    if isinstance(outputs, (list, tuple)):
        outputs, = outputs
    if isinstance(grad_outputs, (list, tuple)):
        grad_outputs, = grad_outputs
    if is_grads_batched:
        raise Unsupported("batched gradients")
    if grad_outputs is None:
        if any(not is_one(d) for d in outputs.dims):
            if not bool(outputs.shape.numel() == 1):
                raise RuntimeError("grad can be implicitly created only for scalar outputs")
        x = scalar_of(outputs)
    else:
        go = grad_outputs.snapshot()
        so = outputs.snapshot()
        TT.require(TT.shape_eq(Shape(outputs.dims), Shape(grad_outputs.dims)), RuntimeError, "Mismatch in shape")
        x = TT.sum_dims(list(outputs.dims), lambda i: so(*i) * E.freeze(go(*[
            TT.conv(a, b, c) for a, b, c in zip(i, outputs.dims, grad_outputs.dims)])))
    single = isinstance(inputs, T)
    Graph.backward(x, create_graph if retain_graph is None else retain_graph)

    def one(inp):
        f = wrt(x, inp)
        r = Tensor.make(list(inp.dims), lambda *i: f(i) if create_graph else E.freeze(f(i)), inp.dtype_)
        r.requires_grad = bool(create_graph)
        return r
    if single:
        return (one(inputs),)
    s = seq_of(inputs)
    c = s.concrete()
    if c is not None:
        return tuple(one(i) for i in c)
    r = P.VList(P.Seq([("c", [one(x_) for x_ in g[1]]) if g[0] == "c" else
                       ("s", g[1], lambda i, g=g: one(g[2](i))) for g in s.segs]))
    r.frozen = True
    return r


def paired(params, vs):
    """Pairs of parameters and directions as list of segments."""
    ps, v = P.as_seq(params), P.as_seq(vs)
    TT.require(Ex.of(ps.length()) == Ex.of(v.length()), AssertionError, "lists of different length")
    return ps, v


def jv_entry(fn, params, vs):
    """x -> sum_j <d x / d p_j, v_j> for scalars x given by fn."""
    ps, v = paired(params, vs)

    def out(x):
        tot = ZERO
        n = Ex.of(ps.length())

        def term(j):
            p, w = ps.get(j), v.get(j)
            TT.require(TT.shape_eq(Shape(p.dims), Shape(w.dims)), RuntimeError, "direction of another shape")
            sw = w.snapshot()
            f = wrt(x, p)
            return TT.sum_dims(list(p.dims), lambda i: E.freeze(sw(*[
                TT.conv(a, b, c) for a, b, c in zip(i, p.dims, w.dims)])) * f(i))
        if n.is_const():
            for j in builtins.range(int(n.value())):
                tot = tot + term(Ex.const(j))
            return tot
        off = ZERO
        for g in ps.segs:
            if g[0] == "c":
                for _ in g[1]:
                    tot = tot + term(off)
                    off = off + 1
            else:
                o = off
                tot = tot + E.Sum(g[1], lambda j: term(o + j))
                off = off + g[1]
        return tot
    return out


def result_list(params, fn, detach=True):
    """Tensors shaped like the parameters with entries fn(parameter, index)."""
    def one(p):
        r = Tensor.make(list(p.dims), lambda *i: E.freeze(fn(p, i)) if detach else fn(p, i), p.dtype_)
        return r
    s = P.as_seq(params)
    c = s.concrete()
    if c is not None:
        return tuple(one(p) for p in c)
    r = P.VList(P.Seq([("c", [one(x_) for x_ in g[1]]) if g[0] == "c" else
                       ("s", g[1], lambda i, g=g: one(g[2](i))) for g in s.segs]))
    r.frozen = True
    return r


def hessian_vector_product(f, params, v, grad_params=None, detach=True):
    """BackPACK: sum_k d^2 f / (d p_j d p_k) v_k; with grad_params given: derivative of
    sum_k <grad_params_k, v_k>."""
    ps, vs = paired(params, v)
    if grad_params is None:
        x = scalar_of(f)
        Rx = jv_entry(None, params, v)(x)
    else:
        gs = P.as_seq(grad_params)
        TT.require(Ex.of(gs.length()) == Ex.of(vs.length()), AssertionError, "lists of different length")

        def term(j):
            g, w = gs.get(j), vs.get(j)
            TT.require(TT.shape_eq(Shape(g.dims), Shape(w.dims)), AssertionError, "direction of another shape")
            sg, sw = g.snapshot(), w.snapshot()
            return TT.sum_dims(list(g.dims), lambda i: sg(*i) * E.freeze(sw(*[
                TT.conv(a, b, c) for a, b, c in zip(i, g.dims, w.dims)])))
        Rx = total(gs, term)
    return result_list(params, lambda p, i: wrt(Rx, p)(i), detach)


def total(seq, term):
    tot, off = ZERO, ZERO
    for g in seq.segs:
        if g[0] == "c":
            for _ in g[1]:
                tot = tot + term(off)
                off = off + 1
        else:
            o = off
            tot = tot + E.Sum(g[1], lambda j: term(o + j))
            off = off + g[1]
    return tot


def jacobian_vector_product(f, x, v, detach=True):
    """BackPACK's R-operator: tuple with J v."""
    fs = P.as_seq(f).concrete() if isinstance(f, (list, tuple)) else [f]
    if isinstance(x, T):
        x, v = [x], [v]
    jv = jv_entry(None, x, v)
    out = []
    for t in fs:
        s = t.snapshot()
        out.append(Tensor.make(list(t.dims), lambda *i, s=s: E.freeze(jv(s(*i))) if detach else jv(s(*i)), t.dtype_))
    return tuple(out)


def transposed_jacobian_vector_product(f, x, v, retain_graph=True, detach=True):
    fs = P.as_seq(f).concrete() if isinstance(f, (list, tuple)) else [f]
    vs = P.as_seq(v).concrete() if isinstance(v, (list, tuple)) else [v]
    tot = ZERO
    for t, w in zip(fs, vs):
        TT.require(TT.shape_eq(Shape(t.dims), Shape(w.dims)), RuntimeError, "Mismatch in shape")
        s, sw = t.snapshot(), w.snapshot()
        tot = tot + TT.sum_dims(list(t.dims), lambda i: s(*i) * E.freeze(sw(*[
            TT.conv(a, b, c) for a, b, c in zip(i, t.dims, w.dims)])))
    xs = [x] if isinstance(x, T) else x
    return result_list(xs, lambda p, i: wrt(tot, p)(i), detach)


def ggn_vector_product_from_plist(loss, output, plist, v):
    """BackPACK: J^T H J v with J = d output / d plist, H = d^2 loss / d output^2."""
    jv = jv_entry(None, plist, v)
    so = output.snapshot()
    x = scalar_of(loss)
    dims = list(output.dims)

    d1 = wrt(x, output)

    def hjv(i):
        # derivative of sum_k dloss/dout_k (Jv)_k in direction of out_i
        g = TT.sum_dims(dims, lambda k: wrt_entry(d1(i), output)(k) * E.freeze(jv(so(*k))))
        return E.freeze(g)
    tot = TT.sum_dims(dims, lambda i: so(*i) * hjv(i))
    return result_list(plist, lambda p, i: wrt(tot, p)(i), True)


def wrt_entry(x, inp):
    leaf = leaf_rule(inp)
    return lambda i: E.diff(x, "@leaf", (), leaf(i))


def ggn_vector_product(loss, output, model, v):
    raise Unsupported("ggn_vector_product of a module")


# ----------------------------------------------------------------------------------
# determinants, inverses (opaque functions with the assumed algebra)
# ----------------------------------------------------------------------------------
DET = E.Fun("det")
LOGDET = E.Fun("logdet")


def _np_logdet(m):
    import numpy
    sign, v = numpy.linalg.slogdet(m)
    return numpy.array(v) if sign > 0 else None


DET.evlam = N._numeric(lambda m: __import__("numpy").array(N._np().det(m)))
LOGDET.evlam = N._numeric(_np_logdet)
INV = E.Fun("inverse")


def _matrix(t):
    if len(t.dims) != 2:
        raise Unsupported("batched linear algebra")
    s = t.snapshot()
    for d in t.dims:
        if TT.structure(d) > 1:
            raise Unsupported("structured axis in a function argument")
    return E.Lam([d.size for d in t.dims], lambda i: s(*i))


def DETF(t):
    return Tensor.make([], lambda lam=_matrix(t): E.mk(DET, (lam,)), t.dtype_)


def LOGDETF(t):
    return Tensor.make([], lambda lam=_matrix(t): E.mk(LOGDET, (lam,)), t.dtype_)


CHOL = E.Fun("cholesky")
CHOL.evlam = N._numeric(lambda m: _try(lambda: _np().cholesky(m)))
INV.evlam = N._numeric(lambda m: _try(lambda: _np().inv(m)))
INV.symgroups = ((1,), (2,))  # only matrices which are symmetric are inverted


def _try(f):
    import numpy
    try:
        return f()
    except numpy.linalg.LinAlgError:
        return None


def _np():
    return N._np()


def inverse_of(lam):
    return lambda i, j: E.mk(INV, (lam, i, j))


class CholeskyFailure:
    """Switch: the decomposition may fail in a data type other than float64."""

    on = None  # function which decides


def cholesky(t, upper=False):
    """Assumed: lower triangular factor L with L L^T = t, or RuntimeError."""
    if upper:
        raise Unsupported("upper Cholesky factor")
    TT.require(t.dims[0].size == t.dims[1].size, RuntimeError, "linalg.cholesky: not a square matrix")
    if CholeskyFailure.on and t.dtype_ is not F64:
        if CholeskyFailure.on():
            raise RuntimeError("linalg.cholesky: the input is not positive-definite")
    lam = _matrix(t)
    r = Tensor.make(t.dims, lambda i, j: E.mk(CHOL, (lam, i, j)), t.dtype_)
    r.chol = lam
    return r


def cholesky_inverse(t, upper=False):
    """Assumed: the inverse of L L^T."""
    if upper or len(t.dims) != 2:
        raise Unsupported("options of cholesky_inverse")
    i, j = E.fresh("r", "I"), E.fresh("s", "I")
    e = t.snapshot()(Ex.atom(i), Ex.atom(j))
    a = e.single_atom() if isinstance(e, Ex) else None
    if a is None or getattr(a, "fun", None) is not CHOL or not (a.args[1].same(Ex.atom(i)) and a.args[2].same(Ex.atom(j))):
        raise Unsupported("cholesky_inverse of something else than a Cholesky factor")
    return Tensor.make(t.dims, inverse_of(a.args[0]), t.dtype_)


def inv(t):
    TT.require(t.dims[0].size == t.dims[1].size, RuntimeError, "linalg.inv: not a square matrix")
    lam = _matrix(t)
    return Tensor.make(t.dims, lambda i, j: E.mk(INV, (lam, i, j)), t.dtype_)


def t_eigh(t, UPLO="L"):
    TT.require(t.dims[0].size == t.dims[1].size, RuntimeError, "linalg.eigh: not a square matrix")
    lam = _matrix(t)
    n = t.dims[0]
    return (Tensor.make([n], lambda i: E.mk(N.EIGVAL, (lam, i)), t.dtype_),
            Tensor.make([n, n], lambda i, j: E.mk(N.EIGVEC, (lam, i, j)), t.dtype_))


# ----------------------------------------------------------------------------------
# modules
# ----------------------------------------------------------------------------------
class Module(P.Stub):
    """torch.nn.Module: named children, forward hooks."""

    training = False

    def __init__(self, children=(), forward=None, params=()):
        self.pre_hooks, self.fwd_hooks = [], []
        self.kids, self.fn, self.own = list(children), forward, list(params)

    def _hooks(self):
        if "fwd_hooks" not in self.__dict__:
            self.pre_hooks, self.fwd_hooks, self.kids, self.own = [], [], [], []
        return self

    def to(self, dev):
        return self

    def eval(self):
        self.training = False
        return self

    def forward(self, *args):
        return self.fn(*args)

    def __call__(self, *args):
        self._hooks()
        for h in list(self.pre_hooks):
            r = h(self, args)
            if r is not None:
                args = tuple(r) if isinstance(r, tuple) else (r,)
        out = self.forward(*args)
        for h in list(self.fwd_hooks):
            r = h(self, args, out)
            if r is not None:
                out = r
        return out

    def register_forward_hook(self, fn):
        self._hooks().fwd_hooks.append(fn)
        return HookHandle(self.fwd_hooks, fn)

    def register_forward_pre_hook(self, fn):
        self._hooks().pre_hooks.append(fn)
        return HookHandle(self.pre_hooks, fn)

    def state_dict(self):
        return dict(self.named_parameters())

    def load_state_dict(self, d):
        own = dict(self.named_parameters())
        if set(own) != set(d):
            raise RuntimeError("Error(s) in loading state_dict")
        for n, p in own.items():
            s = d[n].snapshot()
            p.assign(lambda old, *i, s=s: s(*i))

    def named_modules(self, prefix=""):
        self._hooks()
        out = [(prefix, self)]
        for n, k in self.kids:
            out += k.named_modules(prefix + ("." if prefix else "") + n)
        return out

    def modules(self):
        return [m for _, m in self.named_modules()]

    def get_submodule(self, name):
        for n, m in self.named_modules():
            if n == name:
                return m
        raise AttributeError(name)

    def named_parameters(self):
        return [((n + "." if n else "") + k, p) for n, m in self.named_modules() for k, p in m.own]

    def parameters(self):
        return [p for _, p in self.named_parameters()]

    def all_hooks(self):
        return [h for m in self.modules() for h in m.pre_hooks + m.fwd_hooks]


class Linear(Module):
    """torch.nn.Linear"""


class Conv2d(Module):
    """torch.nn.Conv2d; the hyperparameters are attributes."""


def _pair(x):
    return tuple(x) if isinstance(x, (tuple, list)) else (x, x)


# ----------------------------------------------------------------------------------
# loss functions (classes of torch.nn with default arguments)
# ----------------------------------------------------------------------------------
CE = E.Fun("cross_entropy")
BCE = E.Fun("bce_with_logits")


class _Loss(Module):
    def __init__(self, reduction="mean", **k):
        if k:
            raise Unsupported(f"loss function arguments {sorted(k)}")
        if reduction not in ("mean", "sum"):
            raise Unsupported(f"reduction {reduction}")
        self.reduction = reduction

    def finish(self, dims, fn, pred):
        if "vc_fails" in self.__dict__:
            self.vc_fails()
        tot = TT.sum_dims(dims, lambda i: fn(tuple(i)))
        if self.reduction == "mean":
            n = ONE
            for d in dims:
                n = n * d.size
            tot = tot / n
        t = Tensor.make([], lambda: tot, pred.dtype_, name="loss")
        t.requires_grad = pred.requires_grad
        return t


class _Elementwise(_Loss):
    def __call__(self, pred, y):
        if not (isinstance(pred, Tensor) and isinstance(y, Tensor)):
            raise Unsupported("loss function of non-tensors")
        if not bool(TT.shape_eq(Shape(pred.dims), Shape(y.dims))):
            raise Unsupported("loss function with broadcasting")
        sp, sy = pred.snapshot(), y.snapshot()
        return self.finish(list(pred.dims), lambda i: self.term(sp(*i), sy(*[
            TT.conv(a, b, c) for a, b, c in zip(i, pred.dims, y.dims)])), pred)


class MSELoss(_Elementwise):
    def term(self, f, y):
        return (f - y) ** 2


class BCEWithLogitsLoss(_Elementwise):
    def term(self, f, y):
        return E.mk(BCE, (f, y))


class L1Loss(_Elementwise):
    def term(self, f, y):
        return abs(f - y)


class CrossEntropyLoss(_Loss):
    """Class indices as labels."""

    def __call__(self, pred, y):
        if not (isinstance(pred, Tensor) and isinstance(y, Tensor)):
            raise Unsupported("loss function of non-tensors")
        dims = list(pred.dims)
        if len(dims) < 2:
            raise Unsupported("cross-entropy of a vector")
        rest = dims[:1] + dims[2:]
        if len(rest) != len(y.dims) or not bool(TT.shape_eq(Shape(rest), Shape(y.dims))):
            raise Unsupported("cross-entropy with labels of this shape")
        if TT.structure(dims[1]) > 1:
            raise Unsupported("structured class axis")
        sp, sy = pred.snapshot(), y.snapshot()

        def term(i):
            row = E.Lam([dims[1].size], lambda c: sp(i[0], c[0], *i[1:]))
            return E.mk(CE, (row, sy(*[TT.conv(a, b, c) for a, b, c in zip(i, rest, y.dims)])))
        return self.finish(rest, term, pred)


class no_grad(P.Stub):
    def __enter__(self):
        self.old = Ctx.cur.ghost("no_grad")
        Ctx.cur.set_ghost("no_grad", 1)
        return self

    def __exit__(self, *a):
        Ctx.cur.set_ghost("no_grad", self.old)
        return False

    def __call__(self, f):
        return f


def Size(x=()):
    if isinstance(x, Shape):
        return x
    return Shape(P.star(x))


# ----------------------------------------------------------------------------------
# einops
# ----------------------------------------------------------------------------------
def _tokens(side):
    """List of axes; a group is a list of names."""
    out, cur = [], None
    for tok in side.replace("(", " ( ").replace(")", " ) ").split():
        if tok == "(":
            cur = []
        elif tok == ")":
            out.append(cur)
            cur = None
        elif cur is not None:
            cur.append(tok)
        else:
            out.append(tok)
    return out


def _split_named(t, toks, sizes):
    """View with one axis per name of the left-hand side: (tensor, names)."""
    n_ell = len(t.dims) - (len(toks) - 1)
    if "..." in toks:
        if n_ell < 0:
            raise einops_error("Wrong shape: expected more dims")
        k = toks.index("...")
        toks = toks[:k] + [f"...{q}" for q in builtins.range(n_ell)] + toks[k + 1:]
    rank = Ex.of(Shape(t.dims).rank())
    if len(toks) != len(t.dims) or not ("..." in "".join(map(str, toks))) and not rank.same(Ex.of(len(toks))):
        raise einops_error(f"Wrong shape: expected {len(toks)} dims. Received {Shape(t.dims)}")
    names, cur, pos = [], t, 0
    for tok in toks:
        if isinstance(tok, list):
            d = cur.dims[pos]
            known = ONE
            unk = [x for x in tok if x not in sizes and x != "1"]
            for x in tok:
                if x in sizes:
                    known = known * as_dim(sizes[x]).size
            if len(unk) > 1:
                raise einops_error("Could not infer sizes")
            parts = []
            for x in tok:
                if x in sizes:
                    parts.append(as_dim(sizes[x]))
                elif x == "1":
                    parts.append(D(1))
                else:
                    parts.append(None)
            if unk:
                q = parts.index(None)
                parts[q] = _quotient(d, parts, q, known)
            cur = TT.ungroup(cur, pos, parts) if len(parts) != 1 else cur
            names += [x for x in tok]
            pos += len(tok)
        else:
            if tok == "1":
                TT.require(cur.dims[pos].size == 1, einops_error, "axis of size 1 expected")
            elif tok in sizes:
                TT.require(cur.dims[pos].size == as_dim(sizes[tok]).size, einops_error, "size of an axis")
            names.append(tok)
            pos += 1
    return cur, names


def _quotient(d, parts, q, known):
    """The inferred part of a composed axis."""
    if isinstance(d, TT.DProd):
        ps = list(d.parts)
        left, right = parts[:q], parts[q + 1:]
        for x in left:
            if not ps or not ps[0].size.same(x.size):
                break
            ps.pop(0)
        else:
            for x in reversed(right):
                if not ps or not ps[-1].size.same(x.size):
                    break
                ps.pop()
            else:
                return TT.dprod(ps)
    m = d.size / known
    if not m.is_int_sorted():
        raise Unsupported("inferred size of a composed axis")
    return as_dim(m)


class einops_error(Exception):
    pass


def rearrange(t, pattern, **sizes):
    if isinstance(t, (list, tuple)) or P.needs_seq(t) and not isinstance(t, T):
        t = stack(t)
    lhs, rhs = pattern.split("->")
    cur, names = _split_named(t, _tokens(lhs), sizes)
    ell = [n for n in names if n.startswith("...")]
    out = []
    for tok in _tokens(rhs):
        if isinstance(tok, list):
            out.append([y for x in tok for y in (ell if x == "..." else [x])])
        elif tok == "...":
            out += ell
        else:
            out.append(tok)
    flat = [y for x in out for y in (x if isinstance(x, list) else [x])]
    # singleton axes of the left-hand side disappear
    for q in reversed(builtins.range(len(names))):
        if names[q] == "1":
            cur = TT.drop_axis(cur, q)
            names.pop(q)
    real = [y for y in flat if y != "1"]
    if sorted(real) != sorted(names):
        raise einops_error("Identifiers only on one side of expression")
    cur = TT.permute(cur, [names.index(y) for y in real])
    pos = 0
    for x in out:
        if isinstance(x, list):
            ys = [y for y in x if y != "1"]
            if not ys:
                cur = TT.insert_axis(cur, pos)
            elif len(ys) > 1:
                cur = TT.group(cur, pos, len(ys))
        elif x == "1":
            cur = TT.insert_axis(cur, pos)
        pos += 1
    return cur


def reduce(t, pattern, reduction, **sizes):
    lhs, rhs = pattern.split("->")
    cur, names = _split_named(t, _tokens(lhs), sizes)
    ell = [n for n in names if n.startswith("...")]
    keep = []
    for tok in _tokens(rhs):
        for x in (tok if isinstance(tok, list) else [tok]):
            keep += ell if x == "..." else [x]
    drop = [q for q, n in enumerate(names) if n not in keep]
    if reduction not in ("sum", "mean"):
        raise Unsupported("reduction " + str(reduction))
    if drop:
        cur = TT.reduce_sum(cur, set(drop), reduction == "mean")
    left = [n for n in names if n in keep]
    names2 = " ".join(n.replace("...", "e") for n in left)
    r = []
    for tok in _tokens(rhs):
        if isinstance(tok, list):
            r.append("(" + " ".join(y.replace("...", "e") for x in tok for y in (ell if x == "..." else [x])) + ")")
        elif tok == "...":
            r += [e.replace("...", "e") for e in ell]
        else:
            r.append(tok)
    return rearrange(cur, f"{names2} -> {' '.join(r)}")


def einops_einsum(*args):
    *ops, pattern = args
    for t in ops:
        if not isinstance(t, T):
            P.contract_error(TypeError(f"einsum operand of type {type(t).__name__}"))
    lhs, rhs = pattern.split("->")
    ins = [s.split() for s in lhs.split(",")]
    ell = None
    full = []
    for s, t in zip(ins, ops):
        if "..." in s:
            n = len(t.dims) - (len(s) - 1)
            names = [f"...{q}" for q in builtins.range(n)]
            if ell is not None and ell != names:
                raise Unsupported("ellipses of different lengths")
            ell = names
            k = s.index("...")
            s = s[:k] + names + s[k + 1:]
        full.append(s)
    out = []
    for x in rhs.split():
        out += (ell or []) if x == "..." else [x]
    return einsum_names(full, out, list(ops))


# ----------------------------------------------------------------------------------
class Tqdm(P.Stub):
    pass


def tqdm(it, *a, **k):
    return it


def modules():
    mods = N.modules()
    t = StubModule("torch")
    fn = StubModule("torch.nn.functional")
    nn = StubModule("torch.nn")
    ag = StubModule("torch.autograd")
    t.__dict__.update(
        Tensor=Tensor, Size=Size, device=Device, dtype=DType, float32=F32, float64=F64, bfloat16=BF16, int64=I64,
        long=I64, zeros=zeros, ones=ones, empty=empty, zeros_like=zeros_like, ones_like=ones_like,
        empty_like=empty_like, eye=eye, tensor=tensor, as_tensor=as_tensor, from_numpy=from_numpy, arange=arange,
        cat=cat, stack=stack, softmax=softmax, einsum=einsum, outer=outer, rand=rand, randn=randn, normal=normal,
        Generator=Generator, no_grad=no_grad, manual_seed=None, sqrt=lambda x: x.sqrt(), exp=lambda x: x.exp(),
        log=lambda x: x.log(), square=lambda x: x ** 2, matmul=lambda a, b: a @ b, diag=lambda x: x.diag(),
        sigmoid=lambda x: x.sigmoid(), diag_embed=None, allclose=lambda a, b, **k: a.allclose(b, **k),
        sum=lambda x, *a, **k: x.sum(*a, **k), mean=lambda x, *a, **k: x.mean(*a, **k),
        clone=lambda x: x.clone(), abs=lambda x: x.abs(),
        unsqueeze=lambda x, k: x.unsqueeze(k), squeeze=lambda x, *k: x.squeeze(*k),
        reshape=lambda x, s: x.reshape(s), split=lambda x, s, dim=0: x.split(s, dim),
    )
    for k in ("manual_seed", "diag_embed"):
        del t.__dict__[k]
    ag.__dict__.update(grad=grad)
    nu, num, hk = StubModule("torch.nn.utils"), StubModule("torch.nn.modules.utils"), StubModule("torch.utils.hooks")
    num.__dict__.update(_pair=_pair)
    hk.__dict__.update(RemovableHandle=HookHandle)
    tl = StubModule("torch.linalg")
    tl.__dict__.update(cholesky=cholesky, eigh=t_eigh, inv=inv)
    t.__dict__.update(linalg=tl, cholesky_inverse=cholesky_inverse, trace=lambda x: x.trace(), inverse=inv)
    mods.update({"torch.nn.modules.utils": num, "torch.utils.hooks": hk, "torch.linalg": tl})
    nn.__dict__.update(Linear=Linear, Conv2d=Conv2d)
    nn.__dict__.update(Module=Module, Parameter=Parameter, functional=fn, MSELoss=MSELoss, L1Loss=L1Loss,
                       CrossEntropyLoss=CrossEntropyLoss, BCEWithLogitsLoss=BCEWithLogitsLoss)
    fn.__dict__.update(one_hot=one_hot, softmax=softmax)
    t.__dict__.update(nn=nn, autograd=ag)
    mods.update({"torch": t, "torch.nn": nn, "torch.nn.functional": fn, "torch.autograd": ag})
    for name, d in (("hvp", dict(hessian_vector_product=hessian_vector_product)),
                    ("ggnvp", dict(ggn_vector_product_from_plist=ggn_vector_product_from_plist,
                                   ggn_vector_product=ggn_vector_product)),
                    ("lop", dict(transposed_jacobian_vector_product=transposed_jacobian_vector_product)),
                    ("rop", dict(jacobian_vector_product=jacobian_vector_product))):
        m = StubModule("backpack.hessianfree." + name)
        m.__dict__.update(d)
        mods[m.__name__] = m
    e = StubModule("einops")
    e.__dict__.update(rearrange=rearrange, reduce=reduce, einsum=einops_einsum)
    mods["einops"] = e
    q = StubModule("tqdm")
    q.__dict__.update(tqdm=tqdm)
    mods["tqdm"] = q
    mods["tqdm.auto"] = q
    return mods
