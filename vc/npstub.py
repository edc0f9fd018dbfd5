"""Assumed contracts of the numpy and scipy functions that the sources use."""
from __future__ import annotations

import math as _math
import types

import z3

from . import expr as E
from . import py as P
from . import tensor as TT
from .arr import Arr, BoolT, einsum_core, scal
from .ctx import Ctx
from .expr import Ex, ONE, ZERO, SymBool, Unsupported
from .loader import StubModule
from .tensor import D, DType, Shape, T, as_dim, elementwise, is_one, promote, simp

F64 = DType("float64")


class NA(Arr):
    lib = "numpy"

    def before_inplace(self):
        pass

    # attributes
    @property
    def dtype(self):
        return self.dtype_ or F64

    @property
    def size_(self):
        return self.numel()

    @property
    def flat(self):
        raise Unsupported("flat iterator")

    strides = property(lambda self: P.Seq.sym(E.integer("%nd"), lambda i: E.integer("%stride")) if False else ())

    def ravel(self, order="C"):
        if order != "C":
            raise Unsupported("ravel order")
        return TT.reshape(self, [-1]) if len(self.dims) != 1 else self.view_(
            self.dims, lambda i: i, lambda b: (ONE, tuple(b)))

    def flatten(self, order="C"):
        return self.ravel(order).fresh_copy()

    def reshape(self, *s, order="C"):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = TT.star(s[0]) if isinstance(s[0], Shape) else list(s[0])
        if order != "C":
            raise Unsupported("reshape order")
        return TT.reshape(self, list(s))

    def copy(self, order="C"):
        return self.fresh_copy()

    def astype(self, dt, copy=True):
        r = self.fresh_copy()
        dt = dtype_of(dt)
        if isinstance(dt, DType) and dt.name.startswith("int") and not (
                isinstance(self.dtype_, DType) and self.dtype_.name.startswith("int")):
            raise Unsupported("truncation to integers")
        r.dtype_ = dt
        return r

    def transpose(self, *p):
        if not p:
            return self.T
        if len(p) == 1 and isinstance(p[0], (tuple, list)):
            p = p[0]
        return TT.permute(self, [self.axis(int(x)) for x in p])

    def sum(self, axis=None, keepdims=False, dtype=None):
        return self.sum_(axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        return self.sum_(axis, keepdims, True)

    def dot(self, o):
        return dot(self, o)

    def conj(self):
        return self

    conjugate = conj
    real = property(lambda self: self)
    H = property(lambda self: self.T)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def repeat(self, n, axis=None):
        if axis is None:
            raise Unsupported("repeat without axis")
        k = self.axis(int(axis))
        if not is_one(self.dims[k]):
            raise Unsupported("repeat of an axis")
        src = self.snapshot()
        dims = list(self.dims)
        z = TT.zero_idx(self.dims[k])
        dims[k] = as_dim(n)
        return self.like(dims, lambda *i: src(*i[:k], z, *i[k + 1:]))

    def any(self, *a, **k):
        return (self != 0).any(*a, **k)

    def all(self, *a, **k):
        return (self != 0).all(*a, **k)

    def item(self):
        return self.scalar()

    def tolist(self):
        return P.VList(P.as_seq(self).map(lambda x: x.scalar() if isinstance(x, T) and not x.dims else x))

    def fill(self, v):
        self.assign(lambda old, *i: Ex.of(v))

    def __array__(self):
        raise Unsupported("conversion to a real array")

    def max(self, *a, **k):
        raise Unsupported("max")

    min = argmax = argmin = argsort = sort = cumsum = prod = max

    def trace(self):
        return np_trace(self)

    def diagonal(self):
        return np_diag(self)


def val(x):
    """Scalars of rank-0 arrays."""
    if isinstance(x, T) and not x.dims:
        return x.scalar()
    return x


def arr(x, dtype=None):
    """asarray"""
    if isinstance(x, T):
        if x.lib != "numpy":
            raise Unsupported("conversion of a torch tensor")
        return x
    if isinstance(x, (int, float, Ex)):
        return NA.make([], lambda: Ex.of(x), dtype or (F64 if not Ex.of(x).is_int_sorted() or isinstance(x, float) else DType("int64")))
    if isinstance(x, (tuple, list)) or P.is_symbolic(x):
        s = P.as_seq(x)
        c = s.concrete()
        if c is not None and c and isinstance(c[0], (T, list, tuple)):
            return TT.stack_list([arr(y) for y in c], 0)
        if c is not None:
            vs = [Ex.of(val(y)) for y in c]
            isint = all(isinstance(y, int) or (isinstance(y, Ex) and y.is_int_sorted()) for y in c) and c
            return NA.make([D(len(vs))], lambda i: P.pick(vs, i) if not i.is_const() else vs[int(i.value())],
                           DType("int64") if isint else F64)
        e = s.get(Ex.atom(E.sym_atom("%probe", "I")))
        if isinstance(e, T) and e.dims:
            return stack_seq(s, 0)
        return NA.make([D(s.length())], lambda i: Ex.of(val(s.get(i))), F64)
    if isinstance(x, P.Poison):
        x._bad()
    raise Unsupported(f"array of {type(x).__name__}")


def stack_seq(s, axis):
    c = s.concrete()
    if c is not None:
        return TT.stack_list([arr(x) for x in c], axis)
    if len(s.segs) != 1:
        raise Unsupported("stack of several segments")
    n, get = s.segs[0][1], s.segs[0][2]
    v = E.fresh("st", "I")
    E.HOOKS.ranges[v.name] = n
    t = get(Ex.atom(v))
    for d in t.dims:
        if any(v.name in x.fv for x in [d.size]):
            raise Unsupported("stack of arrays of different shapes")
    k = axis if axis >= 0 else len(t.dims) + 1 + axis
    dims = list(t.dims)
    dims.insert(k, D(n))
    snaps = {}

    def f(*idx):
        i, rest = idx[k], idx[:k] + idx[k + 1:]
        key = i.key
        if key not in snaps:
            snaps[key] = get(i).snapshot()
        return snaps[key](*rest)

    # contents are fixed now: elements must not change later
    return t.like(dims, freeze_reads(get, n, k, t))


def freeze_reads(get, n, k, t):
    """Contents of the elements at this moment as a function of the position."""
    v = E.fresh("st", "I")
    E.HOOKS.ranges[v.name] = n
    snap = get(Ex.atom(v)).snapshot()

    def f(*idx):
        i, rest = idx[k], idx[:k] + idx[k + 1:]
        tmps = []
        # evaluate at the generic element with the given indices, then specialise
        return E.subst(Ex.of(snap(*rest)), {v.name: i})

    return f


def dtype_of(d):
    if d is None:
        return F64
    if isinstance(d, (DType, TT.SymDType)):
        return d
    if d is float or getattr(d, "real", None) is float:
        return F64
    if d is int or getattr(d, "real", None) is int:
        return DType("int64")
    if d is bool:
        return DType("bool")
    if isinstance(d, str):
        return DType(d)
    raise Unsupported(f"data type {d!r}")


def shape_list(s):
    if isinstance(s, (int, Ex)):
        return [s]
    if isinstance(s, Shape):
        return s.star()
    return list(s)


def const_array(c):
    def f(shape, dtype=None, order="C"):
        return NA.make(shape_list(shape), lambda *i: Ex.const(c), dtype_of(dtype))
    return f


zeros, ones = const_array(0), const_array(1)


def empty(shape, dtype=None, order="C"):
    n = E.fresh_named("uninit")
    fn = E.Fun("uninit" + n.name)
    return NA.make(shape_list(shape), lambda *i: E.mk(fn, tuple(x for j in i for x in TT.flatten_idx(j))), dtype_of(dtype))


def full(shape, v, dtype=None):
    return NA.make(shape_list(shape), lambda *i: Ex.of(v), dtype_of(dtype))


def like(c):
    def f(x, dtype=None):
        return NA.make(x.dims, lambda *i: Ex.const(c), dtype_of(dtype) if dtype else x.dtype_)
    return f


def eye(n, m=None, dtype=None):
    return NA.make([n, n if m is None else m], lambda i, j: E.delta(i, j), dtype_of(dtype))


def arange(*a, dtype=None):
    if len(a) == 1:
        return NA.make([a[0]], lambda i: i, DType("int64"))
    if len(a) == 2:
        lo = Ex.of(a[0])
        return NA.make([Ex.of(a[1]) - lo], lambda i: i + lo, DType("int64"))
    raise Unsupported("arange with step")


def einsum(eq, *ops, optimize=None, **k):
    if isinstance(eq, T):
        raise Unsupported("einsum with sub-lists")
    ops = [arr(o) for o in ops]
    if "." in eq:
        raise Unsupported("einsum with ellipsis")
    return einsum_core(eq, ops)


def einsum_path(eq, *ops, **k):
    einsum_core(eq, [arr(o) for o in ops])
    return (P.VList(["einsum_path"]), "")


def column_stack(xs):
    s = P.as_seq(xs)
    c = s.concrete()
    if c is not None:
        if not c:
            raise ValueError("need at least one array to concatenate")
        cols = [arr(x) for x in c]
        cols = [TT.insert_axis(x, 1) if len(x.dims) == 1 else x for x in cols]
        if all(is_one(x.dims[1]) for x in cols):
            return TT.stack_list([TT.drop_axis(x, 1) for x in cols], 1)
        return TT.cat(cols, 1)
    n = Ex.of(s.length())
    if not bool(n >= 1):
        raise ValueError("need at least one array to concatenate")
    v = E.fresh("st", "I")
    E.HOOKS.ranges[v.name] = n
    t = s.get(Ex.atom(v))
    if len(t.dims) == 1:
        return stack_seq(s, 1)
    if len(t.dims) == 2 and is_one(t.dims[1]):
        return stack_seq(s.map(lambda x: TT.drop_axis(x, 1)), 1)
    raise Unsupported("column_stack of matrices")


def stack(xs, axis=0):
    return stack_seq(P.as_seq(xs), int(axis))


def concatenate(xs, axis=0):
    c = P.as_seq(xs).concrete()
    if c is None:
        raise Unsupported("concatenation of a list of unknown length")
    return TT.cat([arr(x) for x in c], int(axis))


def hstack(xs):
    c = P.as_seq(xs).concrete()
    if c is None or len(c[0].dims) == 1:
        return concatenate(xs, 0)
    return concatenate(xs, 1)


def vstack(xs):
    return stack_seq(P.as_seq(xs), 0)


def dot(a, b):
    a, b = arr(a), arr(b)
    if not a.dims or not b.dims:
        return a * b
    if len(a.dims) == 1 and len(b.dims) == 1 or len(b.dims) <= 2 and len(a.dims) <= 2:
        r = TT.matmul(a, b)
        return r.scalar() if not r.dims else r
    raise Unsupported("dot")


def inner(a, b):
    a, b = arr(a), arr(b)
    if len(a.dims) == 1 and len(b.dims) == 1:
        return TT.matmul(a, b).scalar()
    raise Unsupported("inner")


def vdot(a, b):
    return dot(arr(a).ravel(), arr(b).ravel())


def outer(a, b):
    return einsum_core("i,j->ij", [arr(a), arr(b)])


def result_type(*a):
    dt = None
    for x in a:
        dt = promote(dt, x.dtype if isinstance(x, T) else dtype_of(x))
    return dt


def unary(fn):
    def f(x, *a, **k):
        if isinstance(x, T):
            return elementwise(fn, x)
        return fn(Ex.of(x)) if isinstance(x, Ex) else simp_const(fn, x)
    return f


def simp_const(fn, x):
    return fn(Ex.of(x))


np_exp, np_log = unary(E.ex_exp), unary(E.ex_log)
np_sqrt = unary(E.ex_sqrt)
np_abs = unary(abs)
np_square = unary(lambda a: a * a)


def np_sum(x, axis=None, **k):
    if isinstance(x, T):
        r = x.sum(axis)
        return r
    s = P.as_seq(x)
    return np_sum(arr(x), axis)


def np_mean(x, axis=None):
    return arr(x).mean(axis)


def cumsum(x, axis=None):
    a = arr(x)
    if len(a.dims) != 1:
        raise Unsupported("cumsum")
    src = a.snapshot()
    d = a.dims[0]
    if d.size.is_const():
        vals, acc = [], ZERO
        for i in range(int(d.size.value())):
            acc = acc + src(Ex.const(i))
            vals.append(acc)
        return NA.make([d], lambda i: P.pick(vals, i) if not i.is_const() else vals[int(i.value())], a.dtype_)
    return NA.make([d], lambda i: E.Sum(i + 1, lambda j: src(j)), a.dtype_)


def linspace(a, b, num=50, endpoint=True, **k):
    a, b = Ex.of(val(a)), Ex.of(val(b))
    n = Ex.of(num)
    div = n - 1 if bool(endpoint) else n
    if not bool(n >= 2):
        raise Unsupported("linspace with fewer than two points")
    return NA.make([num], lambda i: a + (b - a) * i / div, F64)


def squeeze(x, axis=None):
    if axis is None:
        ks = [k for k, d in enumerate(x.dims) if is_one(d)]
        for d in x.dims:
            if not is_one(d) and not d.size.is_const() and not E.HOOKS.entails(E.z3of(d.size) > 1):
                if not isinstance(d, TT.DPack) and bool(d.size == 1):
                    raise Unsupported("squeeze of an axis of unknown size")
    else:
        ks = [x.axis(int(axis))]
        if not is_one(x.dims[ks[0]]):
            raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    for k in reversed(ks):
        x = TT.drop_axis(x, k)
    return x


def np_trace(x):
    src = x.snapshot()
    return E.Sum(x.dims[0].size, lambda i: src(i, i))


def np_diag(x):
    src = x.snapshot()
    if len(x.dims) == 2:
        return x.like([x.dims[0]], lambda i: src(i, i))
    return x.like([x.dims[0], x.dims[0]], lambda i, j: E.delta(i, j) * src(i))


def np_isnan(x):
    """NaNs do not occur in exact arithmetic; whether a computed entry is NaN is unknown."""
    t = arr(x)
    src = t.snapshot()
    f = NANF
    r = t.like(t.dims, lambda *i: E.mk(f, (src(*i),)))
    b = BoolT(r.cell, r.dims, None, None, DType("bool"))
    b.op = "!="
    return b


NANF = E.Fun("isnan", "I", nonneg=True)


def np_any(x, **k):
    if isinstance(x, T):
        return x.any(**k)
    return P.b_any(x)


def np_all(x, **k):
    if isinstance(x, T):
        return x.all(**k)
    return P.b_all(x)


# -- linear algebra ------------------------------------------------------------------
def frob2(x):
    src = x.snapshot()
    return TT.sum_dims(list(x.dims), lambda i: src(*i) * src(*i))


def norm(x, ord=None, axis=None, **k):
    if axis is not None or ord not in (None, 2, "fro") or (ord == 2 and len(x.dims) == 2):
        raise Unsupported("norm of this order")
    return E.ex_sqrt(frob2(arr(x)))


def lam_of(t):
    """Content of an array as argument of a function symbol."""
    src = t.snapshot()
    for d in t.dims:
        if not isinstance(d, (D, TT.DPack)):
            raise Unsupported("structured axis in a function argument")
    return E.Lam([d.size for d in t.dims], lambda i: src(*i))


def qr(x, mode="reduced"):
    """Assumed: the columns of Q are an orthonormal basis of a space containing the columns
    of x (exactly their span for full rank)."""
    if mode != "reduced":
        raise Unsupported("qr mode")
    lam = lam_of(x)
    n, k = x.dims
    if not E.HOOKS.entails(E.z3of(n.size - k.size) >= 0):
        if bool(k.size > n.size):
            raise Unsupported("QR of a wide matrix")
    q = NA.make([n, k], lambda i, j: E.mk(QRQ, (lam, i, j)), F64)
    r = NA.make([k, k], lambda i, j: E.mk(QRR, (lam, i, j)), F64)
    return q, r


QRQ, QRR = E.Fun("qr.Q"), E.Fun("qr.R")
EIGVAL, EIGVEC = E.Fun("eigh.values"), E.Fun("eigh.vectors")
QRQ.orth, EIGVEC.orth = ((1, 2),), ((1, 2), (2, 1))


def _numeric(fn):
    """Value under an interpretation: fn(matrix), indexed."""
    def ev(args, memo):
        import numpy
        key = (fn, args[0])
        if key not in memo:
            flat = [v for v in args[0] if not isinstance(v, tuple)]
            ns = [v[1] for v in args[0] if isinstance(v, tuple)]
            if any(isinstance(v, complex) for v in flat) or not ns or len(flat) == 0:
                memo[key] = None
            else:
                memo[key] = fn(numpy.array(flat, float).reshape(ns[0], -1))
        r = memo[key]
        if r is None:
            return None
        return float(r[tuple(args[1:])])
    return ev


def _np():
    import numpy.linalg
    return numpy.linalg


QRQ.evlam = _numeric(lambda m: _np().qr(m)[0])
QRR.evlam = _numeric(lambda m: _np().qr(m)[1])
EIGVAL.evlam = _numeric(lambda m: _np().eigh((m + m.T) / 2)[0])
EIGVEC.evlam = _numeric(lambda m: _np().eigh((m + m.T) / 2)[1])


def eigh(x, *a, **k):
    if a or k:
        raise Unsupported("options of eigh")
    lam = lam_of(x)
    n = x.dims[0]
    return (NA.make([n], lambda i: E.mk(EIGVAL, (lam, i)), F64),
            NA.make([n, n], lambda i, j: E.mk(EIGVEC, (lam, i, j)), F64))


def eigh_tridiagonal(d, e, *a, **k):
    if a or k:
        raise Unsupported("options of eigh_tridiagonal")
    sd, se = d.snapshot(), e.snapshot()
    n = d.dims[0]
    t = NA.make([n, n], lambda i, j: tridiag(sd, se, i, j), F64)
    return eigh(t)


def tridiag(d, e, i, j):
    return E.delta(i, j) * d(i) + E.delta(i, j + 1) * e(j) + E.delta(j, i + 1) * e(i)


class Diags(P.Stub):
    def __init__(self, t):
        self.t = t

    def todense(self):
        return self.t

    toarray = todense


def diags(ds, offsets=0, **k):
    ds = P.as_seq(ds).concrete()
    offs = [int(o) for o in P.as_seq(offsets).concrete()]
    snaps = [arr(d).snapshot() for d in ds]
    n = None
    for d, o in zip(ds, offs):
        m = Ex.of(arr(d).dims[0].size) + abs(o)
        if n is None:
            n = m
        TT.require(m == n, ValueError, "diagonals have different lengths")

    def f(i, j):
        r = ZERO
        for s, o in zip(snaps, offs):
            if o >= 0:
                r = r + E.delta(j, i + o) * s(i)
            else:
                r = r + E.delta(i, j - o) * s(j)
        return r

    return Diags(NA.make([n, n], f, F64))


# -- random numbers ---------------------------------------------------------------------
RANDN = E.Fun("randn")
BINOM = E.Fun("bernoulli", "I", nonneg=True)


def _draw(fun, shape, dt, *args):
    ctx = Ctx.cur
    pos = Ex.of(ctx.ghost("np_rng"))
    ctx.set_ghost("np_rng", pos + 1)
    return NA.make(shape, lambda *i: E.mk(fun, (pos,) + tuple(Ex.of(a) for a in args) + tuple(
        x for j in i for x in TT.flatten_idx(j))), dt)


def randn(*shape):
    return _draw(RANDN, list(shape), F64)


def binomial(n, p, size=None):
    if not (Ex.of(n).is_const() and Ex.of(n).value() == 1):
        raise Unsupported("binomial with several trials")
    return _draw(BINOM, shape_list(size), DType("int64"), p)


def normal(loc=0.0, scale=1.0, size=None):
    r = _draw(RANDN, shape_list(size), F64)
    return r * scale + loc


def standard_normal(size=None):
    return _draw(RANDN, shape_list(size), F64)


CHOICE = E.Fun("randint", "I", nonneg=True)


def randint(lo, hi=None, size=None):
    if hi is None:
        lo, hi = 0, lo
    if int(hi) - int(lo) == 2:
        r = _draw(BINOM, shape_list(size), DType("int64"), 0.5)
        return r + int(lo) if int(lo) else r
    raise Unsupported("randint")


def choice(a, size=None, replace=True, p=None):
    c = P.as_seq(a).concrete() if not isinstance(a, int) else list(range(a))
    if c is None or len(c) != 2 or p is not None or replace is not True:
        raise Unsupported("choice")
    r = _draw(BINOM, shape_list(size), DType("int64"), 0.5)
    x, y = Ex.of(c[0]), Ex.of(c[1])
    out = elementwise(lambda b: x + (y - x) * b, r)
    out.dtype_ = F64
    return out


# -- scipy.sparse.linalg.LinearOperator ----------------------------------------------------
class LinearOperator(P.Stub):
    """scipy.sparse.linalg.LinearOperator (version 1.13): dispatch of products."""

    vc_serial = 0

    def __new__(cls, *a, **k):
        if cls is LinearOperator:
            return object.__new__(CustomLinearOperator)
        return object.__new__(cls)

    def __init__(self, dtype=None, shape=None, *a, **k):
        if dtype is not None:
            dtype = dtype_of(dtype)
        c = P.as_seq(shape).concrete() if not isinstance(shape, Shape) else list(shape)
        shape = tuple(c)
        if len(shape) != 2:
            raise ValueError(f"invalid shape {shape!r} (must be 2-d)")
        self.dtype = dtype
        self.shape = tuple(val(s) for s in shape)

    @property
    def ndim(self):
        return 2

    def _matvec(self, x):
        return self.matmat(x.reshape(-1, 1))

    def _matmat(self, X):
        return hstack_cols([], X, self.matvec)

    def _rmatvec(self, x):
        if type(self)._adjoint == LinearOperator._adjoint:
            raise NotImplementedError
        return self.H.matvec(x)

    def _rmatmat(self, X):
        if type(self)._adjoint == LinearOperator._adjoint:
            return hstack_cols([], X, self.rmatvec)
        return self.H.matmat(X)

    def matvec(self, x):
        x = arr(x)
        M, N = self.shape
        ok = E.sym_or(TT.shape_eq(Shape(x.dims), Shape([N])), TT.shape_eq(Shape(x.dims), Shape([N, 1])))
        if not ok:
            raise ValueError("dimension mismatch")
        y = arr(self._matvec(x))
        if len(x.dims) == 1:
            return TT.reshape(y, [M])
        return TT.reshape(y, [M, 1])

    def rmatvec(self, x):
        x = arr(x)
        M, N = self.shape
        ok = E.sym_or(TT.shape_eq(Shape(x.dims), Shape([M])), TT.shape_eq(Shape(x.dims), Shape([M, 1])))
        if not ok:
            raise ValueError("dimension mismatch")
        y = arr(self._rmatvec(x))
        return TT.reshape(y, [N] if len(x.dims) == 1 else [N, 1])

    def matmat(self, X):
        X = arr(X)
        if len(X.dims) != 2:
            raise ValueError("expected 2-d ndarray or matrix")
        if not (X.dims[0].size == Ex.of(self.shape[1])):
            raise ValueError("dimension mismatch")
        return self._matmat(X)

    def rmatmat(self, X):
        X = arr(X)
        if len(X.dims) != 2:
            raise ValueError("expected 2-d ndarray or matrix")
        if not (X.dims[0].size == Ex.of(self.shape[0])):
            raise ValueError("dimension mismatch")
        return self._rmatmat(X)

    def __call__(self, x):
        return self * x

    def __mul__(self, x):
        return self.dot(x)

    def dot(self, x):
        if isinstance(x, LinearOperator):
            raise Unsupported("product of operators")
        if isinstance(x, (int, float, Ex)):
            raise Unsupported("scaled operator")
        x = arr(x)
        if len(x.dims) == 1 or (len(x.dims) == 2 and bool(x.dims[1].size == 1)):
            return self.matvec(x)
        if len(x.dims) == 2:
            return self.matmat(x)
        raise ValueError("expected 1-d or 2-d array or matrix")

    def __matmul__(self, x):
        if isinstance(x, (int, float, Ex)):
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return self.dot(x)

    def adjoint(self):
        return self._adjoint()

    H = property(lambda self: self.adjoint())

    def transpose(self):
        raise Unsupported("transposed operator")

    T = property(transpose)

    def _adjoint(self):
        raise Unsupported("default adjoint of scipy operators")


def hstack_cols(_, X, f):
    """np.hstack([f(col.reshape(-1, 1)) for col in X.T])"""
    s = P.as_seq(X.T)
    c = s.concrete()
    cols = P.comp("list", s if c is None else P.VList(c), lambda col: [f(TT.insert_axis(col, 1))])
    return column_stack(cols)


class CustomLinearOperator(LinearOperator):
    def __init__(self, shape, matvec, rmatvec=None, matmat=None, dtype=None, rmatmat=None):
        super().__init__(dtype, shape)
        self.args = ()
        self.f = {"matvec": matvec, "rmatvec": rmatvec, "matmat": matmat, "rmatmat": rmatmat}
        if self.dtype is None:
            self.dtype = F64

    def _matmat(self, X):
        f = self.f["matmat"]
        return f(X) if f is not None else super()._matmat(X)

    def _matvec(self, x):
        return self.f["matvec"](x)

    def _rmatvec(self, x):
        f = self.f["rmatvec"]
        if f is None:
            raise NotImplementedError("rmatvec is not defined")
        return f(x)

    def _rmatmat(self, X):
        f = self.f["rmatmat"]
        return f(X) if f is not None else super()._rmatmat(X)

    def _adjoint(self):
        f = self.f
        return CustomLinearOperator((self.shape[1], self.shape[0]), f["rmatvec"], f["matvec"], f["rmatmat"],
                                    self.dtype, f["matmat"])


class GivenOperator(LinearOperator):
    """Contract of an arbitrary (deterministic, linear) operator A given by the user."""

    def __init__(self, name, shape, dtype=None, symmetric=False, adj=None, transposed=False):
        self.name, self.dtype = name, dtype or TT.SymDType("dtype_" + name)
        self.shape = shape
        self.symmetric = symmetric
        self.transposed = transposed
        self.fun = adj.fun if adj is not None else E.Fun(
            name, symgroups=((0,), (1,)) if symmetric else None)
        self.adj = adj
        self.calls = P.VList()  # ghost: the arguments of all products, in order

    def entry(self, i, j):
        return E.mk(self.fun, (j, i) if self.transposed else (i, j))

    def _count(self, x):
        ctx = Ctx.cur
        self.calls.append(x.fresh_copy())
        ctx.set_ghost("applied_" + self.name, Ex.of(ctx.ghost("applied_" + self.name)) + 1)

    def matvec(self, x):
        x = arr(x)
        M, N = self.shape
        if not E.sym_or(TT.shape_eq(Shape(x.dims), Shape([N])), TT.shape_eq(Shape(x.dims), Shape([N, 1]))):
            raise ValueError("dimension mismatch")
        self._count(x)
        src = x.snapshot()
        n = x.dims[0]
        dt = promote(self.dtype, x.dtype_)
        if len(x.dims) == 1:
            return NA.make([M], lambda i: TT.sum_dim(n, lambda j: self.entry(i, j) * src(j)), dt)
        return NA.make([M, 1], lambda i, c: TT.sum_dim(n, lambda j: self.entry(i, j) * src(j, c)), dt)

    def matmat(self, X):
        X = arr(X)
        if len(X.dims) != 2:
            raise ValueError("expected 2-d ndarray or matrix")
        M, N = self.shape
        if not (X.dims[0].size == Ex.of(N)):
            raise ValueError("dimension mismatch")
        src = X.snapshot()
        n = X.dims[0]
        self._count(X)
        return NA.make([M, X.dims[1]], lambda i, c: TT.sum_dim(n, lambda j: self.entry(i, j) * src(j, c)),
                       promote(self.dtype, X.dtype_))

    _matvec, _matmat = matvec, matmat

    def rmatvec(self, x):
        return self.adjoint().matvec(x)

    def rmatmat(self, x):
        return self.adjoint().matmat(x)

    def _adjoint(self):
        if self.symmetric:
            return self
        if self.adj is None:
            self.adj = GivenOperator(self.name + "^T", (self.shape[1], self.shape[0]), self.dtype,
                                     False, self, not self.transposed)
            self.adj.fun = self.fun
        return self.adj


def np_dtype(x):
    return dtype_of(x)


def issubdtype(a, b):
    raise Unsupported("issubdtype")


def modules():
    np = StubModule("numpy")
    d = np.__dict__
    d.update(
        ndarray=NA, zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=like(0), ones_like=like(1),
        eye=eye, identity=eye, arange=arange, einsum=einsum, einsum_path=einsum_path, column_stack=column_stack,
        stack=stack, concatenate=concatenate, hstack=hstack, vstack=vstack, dot=dot, inner=inner, vdot=vdot,
        outer=outer, matmul=lambda a, b: arr(a) @ arr(b), result_type=result_type, exp=np_exp, log=np_log,
        sqrt=np_sqrt, abs=np_abs, absolute=np_abs, square=np_square, sum=np_sum, mean=np_mean, cumsum=cumsum,
        linspace=linspace, asarray=arr, array=lambda x, dtype=None: arr(x).fresh_copy(), asanyarray=arr,
        squeeze=squeeze, trace=np_trace, diag=np_diag, isnan=np_isnan, any=np_any, all=np_all,
        multiply=lambda a, b: a * b, subtract=lambda a, b: a - b, add=lambda a, b: a + b,
        divide=lambda a, b: a / b, power=lambda a, b: a ** b, negative=lambda a: -a,
        transpose=lambda x: x.T, reshape=lambda x, s: x.reshape(s), ravel=lambda x: x.ravel(),
        expand_dims=lambda x, axis: TT.insert_axis(x, axis if axis >= 0 else len(x.dims) + 1 + axis),
        copy=lambda x: x.fresh_copy(), pi=E.real("pi", True), newaxis=None,
        float64=F64, float32=DType("float32"), int64=DType("int64"), dtype=np_dtype, issubdtype=issubdtype,
        inexact=P.StubAttr("numpy.inexact"), conj=lambda x: x, allclose=allclose,
    )
    la = StubModule("numpy.linalg")
    la.__dict__.update(norm=norm, qr=qr, eigh=eigh)
    rnd = StubModule("numpy.random")
    rnd.__dict__.update(randn=randn, binomial=binomial, normal=normal, standard_normal=standard_normal,
                        randint=randint, choice=choice)
    d.update(linalg=la, random=rnd)
    sla = StubModule("scipy.sparse.linalg")
    sla.__dict__.update(LinearOperator=LinearOperator, cg=P.StubAttr("scipy.sparse.linalg.cg"), lsmr=P.StubAttr("scipy.sparse.linalg.lsmr"))
    ss = StubModule("scipy.sparse")
    ss.__dict__.update(diags=diags, linalg=sla)
    sl = StubModule("scipy.linalg")
    sl.__dict__.update(eigh=eigh, eigh_tridiagonal=eigh_tridiagonal, norm=norm)
    sc = StubModule("scipy")
    sc.__dict__.update(sparse=ss, linalg=sl)
    mt = StubModule("math")
    mt.__dict__.update(sqrt=np_sqrt, log=np_log, exp=np_exp, pi=E.real("pi", True), inf=float("inf"),
                       prod=math_prod, isclose=None)
    return {"numpy": np, "numpy.linalg": la, "numpy.random": rnd, "scipy": sc, "scipy.sparse": ss,
            "scipy.sparse.linalg": sla, "scipy.linalg": sl, "math": mt}


def math_prod(xs):
    if isinstance(xs, Shape):
        return xs.numel()
    r = 1
    c = P.as_seq(xs).concrete()
    if c is None:
        raise Unsupported("product of a list of unknown length")
    for x in c:
        r = r * x
    return r


def allclose(a, b, **k):
    """Assumed: true for equal arrays; otherwise unknown."""
    a, b = arr(a), arr(b)
    return (a == b).all() if isinstance((a == b), BoolT) else (a == b)
