"""Symbolic tensors: dimensions with structured indices, views, in-place writes.

A tensor's content is a pure function from index trees to expressions (``Ex``).  Floating
point numbers are mathematical reals.  Every dimension has a symbolic size; tensors of
unknown rank are tensors with a ``DPack`` dimension, which stands for any number of axes.
"""
from __future__ import annotations

from fractions import Fraction

from . import expr as E
from .ctx import Ctx
from .expr import (Ex, ONE, ZERO, Sum, SymBool, Unsupported, delta, fresh, guard_ge0, subst, z3of)


# ----------------------------------------------------------------------------------
# dimensions
# ----------------------------------------------------------------------------------
class Dim:
    rank = 1

    @property
    def key(self):
        raise NotImplementedError

    def __repr__(self):
        return self.key


class D(Dim):
    """One axis of symbolic size; indices are integer expressions."""

    def __init__(self, size):
        self.size = Ex.of(size)

    @property
    def key(self):
        return f"D[{self.size.key}]"

    def subst(self, sub):
        return D(subst(self.size, sub))

    def generic(self, pre="i"):
        v = fresh(pre, "I")
        return [(Ex.atom(v), [(v, self.size)])]

    def flat(self, i):
        return i


class DPack(Dim):
    """Any number of axes, indexed by one opaque (row-major) integer."""

    def __init__(self, name, size, rank, args=()):
        self.name, self.size, self.rank = name, Ex.of(size), rank
        self.args = tuple(args)

    @property
    def key(self):
        return f"P[{self.name}({','.join(a.key for a in self.args)}):{self.size.key}]"

    def subst(self, sub):
        return DPack(self.name, subst(self.size, sub), subst(Ex.of(self.rank), sub),
                     [subst(a, sub) for a in self.args])

    def generic(self, pre="i"):
        v = fresh(pre, "I")
        return [(Ex.atom(v), [(v, self.size)])]

    def flat(self, i):
        return i


class DProd(Dim):
    """Row-major flattening of several axes; indices are tuples."""

    def __init__(self, parts):
        ps = []
        for p in parts:
            if isinstance(p, DProd):
                ps += p.parts
            elif is_one(p):
                continue
            else:
                ps.append(p)
        self.parts = ps
        self.size = ONE
        for p in ps:
            self.size = self.size * p.size

    @property
    def key(self):
        return "X[" + ",".join(p.key for p in self.parts) + "]"

    def subst(self, sub):
        return DProd([p.subst(sub) for p in self.parts])

    def generic(self, pre="i"):
        out = [((), [])]
        for p in self.parts:
            out = [(i + (j,), v + w) for i, v in out for j, w in p.generic(pre)]
        return [(("p",) + i, v) for i, v in out]

    def flat(self, i):
        r = ZERO
        for p, j in zip(self.parts, i[1:]):
            r = r * p.size + p.flat(j)
        r = Ex(r.terms)
        r.struct = self, i  # how the position is composed
        return r


class DSum(Dim):
    """Concatenation of ``n`` axes, the i-th of which is ``fn(i)``; indices ('s', i, j)."""

    def __init__(self, n, fn):
        self.n, self.fn = Ex.of(n), fn
        self.size = Sum(self.n, lambda i: fn(i).size)

    @property
    def key(self):
        return f"S[{self.n.key};{self.fn(Ex.atom(E.sym_atom('%dim', 'I'))).key}]"

    def subst(self, sub):
        return DSum(subst(self.n, sub), lambda i: self.fn(i).subst(sub))

    def generic(self, pre="i"):
        v = fresh(pre, "I")
        return [(("s", Ex.atom(v), j), [(v, self.n)] + w)
                for j, w in self.fn(Ex.atom(v)).generic(pre)]

    def flat(self, i):
        _, k, j = i
        return Sum(k, lambda t: self.fn(t).size) + self.fn(k).flat(j)


class DCat(Dim):
    """Concatenation of finitely many axes; indices ('c', p, j)."""

    def __init__(self, parts):
        ps = []
        for p in parts:
            if isinstance(p, DCat):
                ps += p.parts
            else:
                ps.append(p)
        self.parts = ps
        self.size = ZERO
        for p in ps:
            self.size = self.size + p.size

    @property
    def key(self):
        return "C[" + ",".join(p.key for p in self.parts) + "]"

    def subst(self, sub):
        return DCat([p.subst(sub) for p in self.parts])

    def generic(self, pre="i"):
        return [(("c", k, j), w) for k, p in enumerate(self.parts) for j, w in p.generic(pre)]

    def flat(self, i):
        _, k, j = i
        r = ZERO
        for p in self.parts[:k]:
            r = r + p.size
        return r + self.parts[k].flat(j)


def dcat(parts):
    parts = list(parts)
    return parts[0] if len(parts) == 1 else DCat(parts)


def dprod(parts):
    d = DProd(parts)
    if len(d.parts) == 1:
        return d.parts[0]
    if not d.parts:
        return D(1)
    return d


def is_one(d):
    if isinstance(d, DPack):
        return False
    z = d.size
    u = Ctx.cur.units
    if u and z.fv & u.keys():
        z = subst(z, u)
    return z.is_const() and z.value() == 1


def sum_dim(dim, fn):
    """Sum of fn over all indices of dim."""
    if isinstance(dim, (D, DPack)):
        return Sum(dim.size, fn)
    if isinstance(dim, DSum):
        return Sum(dim.n, lambda i: sum_dim(dim.fn(i), lambda j: fn(("s", i, j))))
    if isinstance(dim, DCat):
        return E.add_all(sum_dim(p, lambda j, k=k: fn(("c", k, j))) for k, p in enumerate(dim.parts))

    def rec(k, acc):
        if k == len(dim.parts):
            return fn(("p",) + acc)
        return sum_dim(dim.parts[k], lambda j: rec(k + 1, acc + (j,)))

    return rec(0, ())


def sum_dims(dims, fn):
    def rec(k, acc):
        if k == len(dims):
            return fn(acc)
        return sum_dim(dims[k], lambda j: rec(k + 1, acc + (j,)))

    return rec(0, ())


def flatten_idx(i):
    """Integer expressions in an index tree."""
    if isinstance(i, Ex):
        return (i,)
    if isinstance(i, int):
        return (Ex.const(i),)
    if i[0] == "c":
        return (Ex.const(i[1]),) + flatten_idx(i[2])
    return tuple(x for j in i[1:] for x in flatten_idx(j))


def subst_idx(i, sub):
    if isinstance(i, Ex):
        return subst(i, sub)
    if isinstance(i, tuple):
        return tuple(x if isinstance(x, (str, int)) else subst_idx(x, sub) for x in i)
    return i


def delta_idx(i, j):
    if isinstance(i, Ex) and isinstance(j, Ex):
        return delta(i, j)
    if isinstance(i, tuple) and isinstance(j, tuple) and i[0] == j[0] and len(i) == len(j):
        if i[0] == "c":
            return ZERO if i[1] != j[1] else delta_idx(i[2], j[2])
        r = ONE
        for a, b in zip(i[1:], j[1:]):
            r = r * delta_idx(a, b)
        return r
    raise Unsupported("comparison of indices with different structure")


def same_dim(a, b):
    return a is b or a.key == b.key


def conv(i, a, b):
    """Index of dimension ``a`` as index of the equally large dimension ``b``."""
    if isinstance(a, (D, DPack)) and isinstance(b, (D, DPack)):
        return i
    if same_dim(a, b):
        return i
    if isinstance(b, (D, DPack)):
        return a.flat(i)
    if isinstance(i, Ex) and i.struct is not None and same_dim(i.struct[0], b):
        return i.struct[1]
    if isinstance(a, DProd) and isinstance(b, DProd) and len(a.parts) == len(b.parts):
        return ("p",) + tuple(conv(j, p, q) for j, p, q in zip(i[1:], a.parts, b.parts))
    if isinstance(a, DCat) and isinstance(b, DCat) and len(a.parts) == len(b.parts):
        return ("c", i[1], conv(i[2], a.parts[i[1]], b.parts[i[1]]))
    if isinstance(a, DSum) and isinstance(b, DSum) and a.n.same(b.n):
        return ("s", i[1], conv(i[2], a.fn(i[1]), b.fn(i[1])))
    if isinstance(b, DProd) and isinstance(i, Ex) and i.is_const() and b.size.is_const():
        v, out = int(i.value()), []
        for p in reversed(b.parts):
            s = int(p.size.value())
            if not isinstance(p, (D, DPack)):
                raise Unsupported("conversion of a flat index")
            out.append(Ex.const(v % s))
            v //= s
        return ("p",) + tuple(reversed(out))
    if isinstance(b, DProd) and isinstance(a, D):
        ones = [is_one(p) for p in b.parts]
        if sum(not o for o in ones) == 1:
            return ("p",) + tuple(ZERO if o else conv(i, a, p) for o, p in zip(ones, b.parts))
    raise Unsupported(f"index conversion from {a.key} to {b.key}")


def unflatten(i, d):
    """The position i as index of the axis d."""
    if isinstance(d, DProd) and i.struct is None and all(isinstance(p, (D, DPack)) for p in d.parts):
        out = []
        for p in reversed(d.parts[1:]):
            q = E.idiv(i, p.size)
            out.append(i - q * p.size)
            i = q
        return ("p", i) + tuple(reversed(out))
    return conv(i, D(d.size), d)


def structure(d):
    return {D: 0, DPack: 1}.get(type(d), 2)


# ----------------------------------------------------------------------------------
# shapes
# ----------------------------------------------------------------------------------
class Shape(tuple):
    """Shape of a tensor: entries are Dim objects; reads give sizes."""

    def __new__(cls, dims):
        return tuple.__new__(cls, [as_dim(d) for d in dims])

    @property
    def dims(self):
        return tuple.__iter__(self)

    def raw(self, k):
        return tuple.__getitem__(self, k)

    def __iter__(self):
        for d in tuple.__iter__(self):
            yield size_of(d)

    def star(self):
        return list(tuple.__iter__(self))

    def rank(self):
        r = 0
        for d in tuple.__iter__(self):
            r = r + (d.rank if isinstance(d, DPack) else 1)
        return r

    def __len__(self):
        r = self.rank()
        if isinstance(r, int):
            return r
        raise Unsupported("length of a shape of unknown rank")

    def _no_pack(self, ds):
        if any(isinstance(d, DPack) for d in ds):
            raise Unsupported("access to an axis of unknown position")

    def __getitem__(self, k):
        ds = list(tuple.__iter__(self))
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported("stepped slice of a shape")
            a, b = k.start, k.stop
            if a is not None and a >= 0:
                self._no_pack(ds[:a])
            if a is not None and a < 0:
                self._no_pack(ds[a:])
            if b is not None and b >= 0:
                self._no_pack(ds[:b])
            if b is not None and b < 0:
                self._no_pack(ds[b:])
            return Shape(ds[k])
        k = int(k)
        if not any(isinstance(d, DPack) for d in ds):
            return size_of(ds[k])
        if k >= 0:
            if k >= len(ds):
                raise Unsupported("axis of a shape of unknown rank")
            self._no_pack(ds[: k + 1])
            return size_of(ds[k])
        if -k > len(ds):
            raise Unsupported("axis of a shape of unknown rank")
        self._no_pack(ds[k:])
        return size_of(ds[k])

    def __add__(self, o):
        return Shape(list(tuple.__iter__(self)) + star(o))

    def __radd__(self, o):
        return Shape(star(o) + list(tuple.__iter__(self)))

    def __eq__(self, o):
        if not isinstance(o, (tuple, list)):
            return False
        return shape_eq(self, Shape(star(o)))

    def __ne__(self, o):
        return E.sym_not(self == o)

    def __hash__(self):
        return hash(self.key)

    @property
    def key(self):
        return "(" + ",".join(d.key for d in tuple.__iter__(self)) + ")"

    def __repr__(self):
        return self.key

    def numel(self):
        r = ONE
        for d in tuple.__iter__(self):
            r = r * d.size
        return simp(r)

    def index(self, *a):
        raise Unsupported("index of a shape")


def star(x):
    """Elements of a shape-like object as dimensions."""
    if isinstance(x, Shape):
        return x.star()
    out = []
    for y in x:
        if isinstance(y, Ones):
            out.append(y)
        else:
            out.append(as_dim(y))
    return out


class Ones:
    """``ndim * [1]`` for an unknown rank."""

    def __init__(self, rank):
        self.rank = rank


def simp(e):
    """Python ints for constants."""
    if isinstance(e, Ex) and e.is_const() and e.value().denominator == 1:
        return int(e.value())
    return e


class Size_(Ex):
    """A size that remembers the dimension it was read from."""

    __slots__ = ()


def size_of(d):
    s = simp(d.size)
    if isinstance(s, int):
        return s
    if isinstance(d, D):
        return s
    r = Ex(s.terms)
    r.dim = d
    return r


def as_dim(x):
    if isinstance(x, Dim):
        return x
    if isinstance(x, Ones):
        return x
    if isinstance(x, Ex):
        return x.dim if x.dim is not None else D(x)
    if isinstance(x, int):
        return D(x)
    if hasattr(x, "__ex__"):
        return D(x.__ex__())
    raise TypeError(f"invalid size {x!r}")


def shape_eq(a, b):
    """Equality of shapes as (possibly symbolic) boolean."""
    A, B = a.star(), b.star()
    res = True
    while A and B and not isinstance(A[-1], DPack) and not isinstance(B[-1], DPack):
        res = E.sym_and(res, A.pop().size == B.pop().size)
    while A and B and not isinstance(A[0], DPack) and not isinstance(B[0], DPack):
        res = E.sym_and(res, A.pop(0).size == B.pop(0).size)
    if res is False:
        return False
    if not A and not B:
        return res
    dr = Ex.of(a.rank()) - Ex.of(b.rank())
    if dr.is_const() and not dr.is_zero():
        return False
    if len(A) == 1 and len(B) == 1 and isinstance(A[0], DPack) and isinstance(B[0], DPack):
        if A[0].name == B[0].name and all(x.same(y) for x, y in zip(A[0].args, B[0].args)):
            return res
        return E.sym_and(res, opaque_eq(A[0], B[0]))
    if not any(isinstance(d, DPack) for d in A + B):
        return False  # different lengths
    return E.sym_and(res, opaque_eq(Shape(A), Shape(B)))


def opaque_eq(a, b):
    import z3

    ks = sorted([a.key, b.key])
    hook = OPAQUE.get((a.key, b.key)) or OPAQUE.get((b.key, a.key))
    if hook is not None:
        return hook
    return SymBool(z3.Bool(f"eq<{ks[0]}|{ks[1]}>"))


OPAQUE: dict = {}


# ----------------------------------------------------------------------------------
# cells and tensors
# ----------------------------------------------------------------------------------
class Cell:
    __slots__ = ("content", "name", "serial", "nowrite")

    def __init__(self, content, name=None):
        self.content, self.name = content, name
        self.serial = Ctx.cur.tick() if Ctx.cur is not None else 0
        self.nowrite = None

    def write(self, content):
        if self.nowrite:
            raise Unsupported("in-place write: " + self.nowrite)
        old, self.content = self.content, content
        Ctx.cur.wrote(self, old)


def memoised(fn):
    memo = {}

    def f(*idx):
        k = tuple(_ikey(i) for i in idx)
        r = memo.get(k)
        if r is None:
            r = memo[k] = Ex.of(fn(*idx))
        return r

    return f


def _ikey(i):
    if isinstance(i, Ex):
        return i.key
    if isinstance(i, tuple):
        return tuple(_ikey(x) for x in i)
    return i


FLOATS = ("float16", "bfloat16", "float32", "float64", "complex64", "complex128")
ORDER = ["bool", "uint8", "int8", "int16", "int32", "int64", "float16", "bfloat16", "float32",
         "float64", "complex64", "complex128"]


class DType:
    _all: dict = {}

    def __new__(cls, name):
        if name not in cls._all:
            o = object.__new__(cls)
            o.name = name
            cls._all[name] = o
        return cls._all[name]

    @property
    def is_floating_point(self):
        return self.name in FLOATS[:4]

    def __repr__(self):
        return f"dtype({self.name})"


class SymDType:
    """An unknown data type."""

    def __init__(self, name):
        self.name = name

    is_floating_point = True

    def __repr__(self):
        return f"dtype<{self.name}>"


def promote(a, b):
    if a is b or a is None or b is None:
        return a or b
    if isinstance(a, SymDType) or isinstance(b, SymDType):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, DType) and not x.is_floating_point:
                return y
        return SymDType(f"promote({a.name},{b.name})")
    return a if ORDER.index(a.name) >= ORDER.index(b.name) else b


class T:
    """A symbolic tensor (sub-classes: torch.Tensor and numpy.ndarray)."""

    def __init__(self, cell, dims, fwd=None, inv=None, dtype=None, device="cpu"):
        self.cell = cell
        self.dims = tuple(dims)
        self.fwd, self.inv = fwd, inv
        self.dtype_, self.device_ = dtype, device
        self.hooks = []
        self.requires_grad = False
        self.grad_fn = None

    # -- construction
    @classmethod
    def make(cls, dims, fn, dtype=None, device="cpu", name=None):
        dims = [as_dim(d) for d in dims]
        t = cls(Cell(memoised(fn), name), dims, None, None, dtype, device)
        return t

    def like(self, dims, fn, dtype=None):
        return type(self).make(dims, fn, dtype or self.dtype_, self.device_)

    def view_(self, dims, fwd, inv):
        """View with index map fwd (view idx -> own idx) and inverse (own idx -> guard, idx)."""
        of, oi = self.fwd, self.inv
        if of is None:
            nf, ni = fwd, inv
        else:
            def nf(idx):
                return of(fwd(idx))

            if oi is None or inv is None:
                ni = None
            else:
                def ni(base):
                    g, i = oi(base)
                    g2, j = inv(i)
                    return g * g2, j
        if of is None and inv is None:
            ni = None
        t = type(self)(self.cell, [as_dim(d) for d in dims], nf, ni, self.dtype_, self.device_)
        t.ro = inv is None or (of is not None and oi is None)
        t.requires_grad = self.requires_grad
        return t

    ro = False

    # -- reads
    def at(self, *idx):
        if len(idx) != len(self.dims):
            raise Unsupported("number of indices")
        idx = tuple(Ex.const(i) if isinstance(i, int) else i for i in idx)
        if self.fwd is not None:
            idx = self.fwd(idx)
        return self.cell.content(*idx)

    def snapshot(self):
        """Pure read function of the current content."""
        c, f = self.cell.content, self.fwd
        if f is None:
            return c
        return lambda *idx: c(*f(idx))

    def scalar(self):
        if any(not is_one(d) for d in self.dims):
            raise Unsupported("scalar of a tensor")
        return self.at(*[zero_idx(d) for d in self.dims])

    # -- in-place writes
    def assign(self, fn):
        """Set content at view index to fn(old, *idx)."""
        if self.ro:
            raise Unsupported("in-place write through this view")
        old = self.cell.content
        if self.fwd is None:
            self.cell.write(memoised(lambda *i: fn(old(*i), *i)))
        else:
            inv = self.inv

            def new(*base):
                g, i = inv(base)
                o = old(*base)
                if g.is_zero():
                    return o
                n = fn(o, *i)
                if g.same(ONE):
                    return n
                return o + g * (n - o)

            self.cell.write(memoised(new))
        return self

    # -- shape
    @property
    def shape(self):
        return Shape(self.dims)

    @property
    def ndim(self):
        return simp(self.shape.rank()) if isinstance(self.shape.rank(), Ex) else self.shape.rank()

    def dim(self):
        return self.ndim

    def size(self, k=None):
        return self.shape if k is None else self.shape[k]

    def numel(self):
        return self.shape.numel()

    def __len__(self):
        s = self.shape[0]
        if isinstance(s, int):
            return s
        raise Unsupported("length")

    def __bool__(self):
        if all(is_one(d) for d in self.dims):
            return bool(self.scalar() != 0)
        raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")

    def __ex__(self):
        return self.scalar()

    def axis(self, k):
        """Position of axis k in dims (packs of unknown rank in between are an error)."""
        n = len(self.dims)
        if any(isinstance(d, DPack) for d in self.dims):
            if k >= 0:
                if any(isinstance(d, DPack) for d in self.dims[: k + 1]):
                    raise Unsupported("axis next to an unknown number of axes")
            elif any(isinstance(d, DPack) for d in self.dims[n + k:]):
                raise Unsupported("axis next to an unknown number of axes")
        if not -n <= k < n:
            raise IndexError(f"Dimension out of range: {k} for {n}")
        return k % n


def zero_idx(d):
    if isinstance(d, (D, DPack)):
        return ZERO
    if isinstance(d, DProd):
        return ("p",) + tuple(zero_idx(p) for p in d.parts)
    if isinstance(d, DCat):
        for k, p in enumerate(d.parts):
            if not p.size.is_zero():
                return ("c", k, zero_idx(p))
    if isinstance(d, DSum):
        return ("s", ZERO, zero_idx(d.fn(ZERO)))
    raise Unsupported("first index")


def require(cond, exc, msg):
    """Raise ``exc`` unless cond; forks if undecided."""
    if not cond:
        raise exc(msg)


# ----------------------------------------------------------------------------------
# element-wise operations
# ----------------------------------------------------------------------------------
def broadcast(*ts):
    """Result dims and per-tensor index maps."""
    n = max(len(t.dims) for t in ts)
    out = []
    for k in range(1, n + 1):
        best = None
        for t in ts:
            if k > len(t.dims):
                continue
            d = t.dims[-k]
            if is_one(d):
                best = best or d
                continue
            if best is None or is_one(best):
                best = d
                continue
            if not same_dim(best, d):
                if isinstance(best, DPack) != isinstance(d, DPack):
                    raise Unsupported("broadcasting of an unknown number of axes")
                require(best.size == d.size, RuntimeError,
                        f"size of tensor {best.key} must match {d.key}")
                if structure(d) > structure(best):
                    best = d
        out.append(best)
    out.reverse()
    if any(isinstance(d, DPack) for d in out):
        for t in ts:
            if len(t.dims) not in (0, n) and any(isinstance(d, DPack) for d in out[: n - len(t.dims)]) is False and any(
                    isinstance(d, DPack) for d in out[n - len(t.dims):]) is False:
                pass

    def mapper(t):
        m = len(t.dims)

        def f(idx):
            sub = idx[n - m:] if m else ()
            res = []
            for d, o, i in zip(t.dims, out[n - m:] if m else [], sub):
                if is_one(d) and not is_one(o):
                    res.append(zero_idx(d))
                else:
                    res.append(conv(i, o, d))
            return res

        return f

    return out, [mapper(t) for t in ts]


def elementwise(fn, *ts):
    """ts: tensors or scalars."""
    tens = [t for t in ts if isinstance(t, T)]
    out, maps = broadcast(*tens)
    reads, mi = [], 0
    for t in ts:
        if isinstance(t, T):
            reads.append((t.snapshot(), maps[mi]))
            mi += 1
        else:
            reads.append((Ex.of(t), None))

    def f(*idx):
        return fn(*[r if m is None else r(*m(idx)) for r, m in reads])

    dt = None
    for t in tens:
        if len(t.dims):
            dt = promote(dt, t.dtype_)
    if dt is None:
        for t in tens:
            dt = promote(dt, t.dtype_)
    if any(isinstance(t, float) for t in ts) and isinstance(dt, DType) and dt.name not in FLOATS:
        dt = DType("float64" if tens[0].lib == "numpy" else "float32")
    res = tens[0].like(out, f, dt)
    res.requires_grad = any(t.requires_grad for t in tens)
    return res


def inplace(t, fn, *others):
    """t[idx] = fn(old, others[idx]...)."""
    reads = []
    for o in others:
        if isinstance(o, T):
            out, maps = broadcast(t, o)
            if len(out) != len(t.dims):
                raise RuntimeError("output with shape doesn't match the broadcast shape")
            for d, td in zip(out, t.dims):
                if is_one(td) and not is_one(d):
                    raise RuntimeError("output with shape doesn't match the broadcast shape")
            src = o.snapshot()

            # index of t -> index of o
            m = len(o.dims)

            def rd(idx, o=o, src=src, m=m):
                sub = idx[len(idx) - m:] if m else ()
                res = []
                for d, td, i in zip(o.dims, t.dims[len(t.dims) - m:] if m else (), sub):
                    res.append(zero_idx(d) if is_one(d) and not is_one(td) else conv(i, td, d))
                return src(*res)

            reads.append(rd)
        else:
            v = Ex.of(o)
            reads.append(lambda idx, v=v: v)
    t.assign(lambda old, *idx: fn(old, *[r(idx) for r in reads]))
    return t


def reduce_sum(t, axes, mean=False):
    keep = [k for k in range(len(t.dims)) if k not in axes]
    red = [t.dims[k] for k in sorted(axes)]
    src = t.snapshot()
    order = sorted(axes)

    def f(*idx):
        def body(js):
            full = [None] * len(t.dims)
            for k, i in zip(keep, idx):
                full[k] = i
            for k, j in zip(order, js):
                full[k] = j
            return src(*full)

        s = sum_dims(red, body)
        if mean:
            for d in red:
                s = s / d.size
        return s

    r = t.like([t.dims[k] for k in keep], f)
    r.requires_grad = t.requires_grad
    return r


# ----------------------------------------------------------------------------------
# views
# ----------------------------------------------------------------------------------
def permute(t, perm):
    dims = [t.dims[p] for p in perm]
    inv = [perm.index(k) for k in range(len(perm))]
    return t.view_(dims, lambda i: tuple(i[inv[k]] for k in range(len(inv))),
                   lambda b: (ONE, tuple(b[p] for p in perm)))


def insert_axis(t, k):
    dims = list(t.dims)
    dims.insert(k, D(1))
    return t.view_(dims, lambda i: i[:k] + i[k + 1:],
                   lambda b: (ONE, tuple(b[:k]) + (ZERO,) + tuple(b[k:])))


def drop_axis(t, k):
    d = t.dims[k]
    z = zero_idx(d)
    dims = t.dims[:k] + t.dims[k + 1:]
    return t.view_(dims, lambda i: tuple(i[:k]) + (z,) + tuple(i[k:]),
                   lambda b: (ONE, tuple(b[:k]) + tuple(b[k + 1:])))


def select(t, k, i):
    """t[..., i, ...] on dims position k; i is an index tree of that dimension."""
    dims = t.dims[:k] + t.dims[k + 1:]
    return t.view_(dims, lambda j: tuple(j[:k]) + (i,) + tuple(j[k:]),
                   lambda b: (delta_idx(b[k], i), tuple(b[:k]) + tuple(b[k + 1:])))


def narrow(t, k, start, stop):
    """t[..., start:stop, ...]."""
    d = t.dims[k]
    start, stop = Ex.of(start), Ex.of(stop)
    if start.is_zero() and stop.same(d.size):
        return t
    if isinstance(d, DCat):
        acc = ZERO
        for p, part in enumerate(d.parts):
            if acc.same(start):
                end, q = acc, p
                while q < len(d.parts) and not end.same(stop):
                    end = end + d.parts[q].size
                    q += 1
                if end.same(stop):
                    return component(t, k, p, q)
            acc = acc + part.size
        raise Unsupported("slice of a concatenated axis")
    if isinstance(d, DSum):
        # component i: start = sum_{j<i} size_j
        cand = [Ex.atom(a) for a in E.atoms_of(stop - start) if a.sort == "I" and a.fun is None]
        cand += [ZERO]
        for a in E.atoms_of(start) | E.atoms_of(stop):
            if a.sort == "I" and a.fun is None:
                cand.append(Ex.atom(a))
        for m in start.terms:
            for _, s in m.bvs:
                cand.append(s)
        for i in cand:
            if Sum(i, lambda t_: d.fn(t_).size).same(start) and (start + d.fn(i).size).same(stop):
                sub = d.fn(i)
                dims = list(t.dims)
                dims[k] = sub
                return t.view_(dims, lambda j: tuple(j[:k]) + (("s", i, j[k]),) + tuple(j[k + 1:]),
                               lambda b: (delta(b[k][1], i),
                                          tuple(b[:k]) + (subst_comp(b[k][2]),) + tuple(b[k + 1:])))
        if getattr(Ctx.cur, "pilot", 0):
            # only the effects of the pilot iteration matter, not its values
            f = E.Fun(f"wild{E.fresh('w').key}")
            ln = D(stop - start)
            for i in cand:
                if d.fn(i).size.same(ln.size):
                    ln = d.fn(i)
                    break
            return t.like(list(t.dims[:k]) + [ln] + list(t.dims[k + 1:]),
                          lambda *i: E.mk(f, tuple(x for q in i for x in flatten_idx(q))))
        raise Unsupported("slice of a concatenated axis")
    if not isinstance(d, D):
        raise Unsupported("slice of a structured axis")
    dims = list(t.dims)
    dims[k] = D(stop - start)
    return t.view_(dims, lambda j: tuple(j[:k]) + (j[k] + start,) + tuple(j[k + 1:]),
                   lambda b: (guard_ge0(b[k] - start) * guard_ge0(stop - 1 - b[k]),
                              tuple(b[:k]) + (b[k] - start,) + tuple(b[k + 1:])))


def subst_comp(i):
    return i


def component(t, k, p, q):
    """Parts p..q-1 of a concatenated axis k."""
    d = t.dims[k]
    dims = list(t.dims)
    one = q - p == 1
    dims[k] = d.parts[p] if one else DCat(d.parts[p:q])

    def fwd(j):
        i = j[k]
        i = ("c", p, i) if one else ("c", p + i[1], i[2])
        return tuple(j[:k]) + (i,) + tuple(j[k + 1:])

    def inv(b):
        _, c, i = b[k]
        if not p <= c < q:
            return ZERO, None
        i = i if one else ("c", c - p, i)
        return ONE, tuple(b[:k]) + (i,) + tuple(b[k + 1:])

    return t.view_(dims, fwd, inv)


def sum_component(t, k, i):
    """Component i of a DSum axis."""
    d = t.dims[k]
    dims = list(t.dims)
    dims[k] = d.fn(i)
    return t.view_(dims, lambda j: tuple(j[:k]) + (("s", i, j[k]),) + tuple(j[k + 1:]),
                   lambda b: (delta(b[k][1], i), tuple(b[:k]) + (b[k][2],) + tuple(b[k + 1:])))


def group(t, k, m):
    """Flatten axes k..k+m-1 (dims positions) into one."""
    parts = t.dims[k:k + m]
    sel = []  # which parts survive in the product
    for p in parts:
        sel.append(not is_one(p))
    flat = dprod(parts)

    def expand(i):
        if isinstance(flat, DProd):
            items = list(i[1:])
        else:
            items = [i]
        out = []
        for p, s in zip(parts, sel):
            if not s:
                out.append(zero_idx(p))
            elif isinstance(p, DProd):
                n = len(p.parts)
                out.append(("p",) + tuple(items[:n]))
                items = items[n:]
            else:
                out.append(items.pop(0))
        return tuple(out)

    def collapse(js):
        items = []
        for p, s, j in zip(parts, sel, js):
            if not s:
                continue
            if isinstance(p, DProd):
                items += list(j[1:])
            else:
                items.append(j)
        if isinstance(flat, DProd):
            return ("p",) + tuple(items)
        return items[0] if items else ZERO

    dims = t.dims[:k] + (flat,) + t.dims[k + m:]
    return t.view_(dims, lambda i: tuple(i[:k]) + expand(i[k]) + tuple(i[k + 1:]),
                   lambda b: (ONE, tuple(b[:k]) + (collapse(b[k:k + m]),) + tuple(b[k + m:])))


def split_plain(t, k, whole):
    """View of plain axis k as a product of plain axes."""
    sizes = [p.size for p in whole.parts]

    def expand(b):
        out = []
        for s in sizes[:0:-1]:
            q = E.idiv(b, s)
            out.append(b - q * s)
            b = q
        return ("p", b) + tuple(reversed(out))
    dims = tuple(t.dims[:k]) + (whole,) + tuple(t.dims[k + 1:])
    return t.view_(dims, lambda i: tuple(i[:k]) + (whole.flat(i[k]),) + tuple(i[k + 1:]),
                   lambda b: (ONE, tuple(b[:k]) + (expand(b[k]),) + tuple(b[k + 1:])))


def ungroup(t, k, parts):
    """Split axis k into the given dims; its product structure must match."""
    d = t.dims[k]
    parts = [as_dim(p) for p in parts]
    if isinstance(d, D) and len([p for p in parts if not is_one(p)]) > 1 and all(
            isinstance(p, (D, DProd)) and all(isinstance(q, D) for q in getattr(p, "parts", [])) for p in parts):
        whole = dprod(parts)
        if whole.size.same(d.size):
            t = split_plain(t, k, whole)
            d = whole
    src = list(d.parts) if isinstance(d, DProd) else [d]
    # assign source parts to targets
    plan, pos = [], 0
    out_dims = []
    for p in parts:
        if is_one(p):
            plan.append(0)
            out_dims.append(p)
            continue
        acc, n = ONE, 0
        while pos + n < len(src) and not acc.same(p.size):
            acc = acc * src[pos + n].size
            n += 1
        if n == 0 or not acc.same(p.size):
            raise Unsupported(f"reshape of {d.key} into {[q.key for q in parts]}")
        plan.append(n)
        out_dims.append(dprod(src[pos:pos + n]))
        pos += n
    if pos != len(src) and any(not is_one(s) for s in src[pos:]):
        raise Unsupported(f"reshape of {d.key} into {[q.key for q in parts]}")
    left = src[pos:]

    def collapse(js):
        items = []
        for n, j in zip(plan, js):
            if n == 1:
                items.append(j)
            elif n > 1:
                items += list(j[1:])
        items += [zero_idx(s) for s in left]
        return ("p",) + tuple(items) if isinstance(d, DProd) else items[0]

    def expand(i):
        items = list(i[1:]) if isinstance(d, DProd) else [i]
        out = []
        for n, od in zip(plan, out_dims):
            if n == 0:
                out.append(ZERO)
            elif n == 1:
                out.append(items.pop(0))
            else:
                out.append(("p",) + tuple(items[:n]))
                items = items[n:]
        return tuple(out)

    m = len(parts)
    dims = t.dims[:k] + tuple(out_dims) + t.dims[k + 1:]
    return t.view_(dims, lambda i: tuple(i[:k]) + (collapse(i[k:k + m]),) + tuple(i[k + m:]),
                   lambda b: (ONE, tuple(b[:k]) + expand(b[k]) + tuple(b[k + 1:])))


def reshape(t, target):
    """target: list of sizes/dims, at most one -1."""
    tgt = []
    for x in target:
        if isinstance(x, Ex) and x.is_const():
            x = int(x.value())
        tgt.append(x)
    unk = [k for k, x in enumerate(tgt) if isinstance(x, int) and x == -1]
    if len(unk) > 1:
        raise RuntimeError("only one dimension can be inferred")
    total = t.shape.numel()
    if unk:
        known = ONE
        for k, x in enumerate(tgt):
            if k not in unk:
                known = known * as_dim(x).size
        missing = Ex.of(total) / known if not known.is_zero() else Ex.of(0)
        if not missing.is_int_sorted():
            missing = E.idiv(Ex.of(total), known)
            require(Ex.of(total) == missing * known, RuntimeError, "invalid shape for the input")
        tgt[unk[0]] = simp(missing)
    tgt = [as_dim(x) for x in tgt]
    # greedy matching of source and target groups
    src = list(t.dims)
    i = j = 0
    cur = t
    pos = 0  # position in cur.dims
    res_dims = []
    while i < len(src) or j < len(tgt):
        if i < len(src) and j < len(tgt) and (src[i].size.same(tgt[j].size)):
            if isinstance(src[i], DPack) != isinstance(tgt[j], DPack) and isinstance(src[i], (D, DPack)):
                cur = cur.view_(tuple(cur.dims[:pos]) + (tgt[j],) + tuple(cur.dims[pos + 1:]),
                                lambda x: x, lambda b: (ONE, tuple(b)))
            i += 1
            j += 1
            pos += 1
            continue
        if i < len(src) and is_one(src[i]):
            cur = drop_axis(cur, pos)
            i += 1
            continue
        if j < len(tgt) and is_one(tgt[j]):
            cur = insert_axis(cur, pos)
            pos += 1
            j += 1
            continue
        # try: several sources -> one target
        done = False
        if j < len(tgt):
            acc, n = ONE, 0
            while i + n < len(src) and not acc.same(tgt[j].size):
                acc = acc * src[i + n].size
                n += 1
            if n >= 1 and acc.same(tgt[j].size):
                cur = group(cur, pos, n)
                i += n
                j += 1
                pos += 1
                done = True
        if not done and i < len(src):
            acc, n = ONE, 0
            while j + n < len(tgt) and not acc.same(src[i].size):
                acc = acc * tgt[j + n].size
                n += 1
            if n >= 1 and acc.same(src[i].size):
                cur = ungroup(cur, pos, tgt[j:j + n])
                i += 1
                j += n
                pos += n
                done = True
        if not done:
            require(Ex.of(total) == Shape(tgt).numel(), ValueError if t.lib == "numpy" else RuntimeError,
                    f"shape {Shape(tgt)} is invalid for input of shape {t.shape}")
            if len(src) - i == 1 and len(tgt) - j == 1 and isinstance(src[i], (D, DPack)) and isinstance(tgt[j], D):
                # equal sizes by the path condition
                cur = cur.view_(tuple(cur.dims[:pos]) + (tgt[j],) + tuple(cur.dims[pos + 1:]),
                                lambda x: x, lambda b: (ONE, tuple(b)))
                i, j = i + 1, j + 1
                continue
            if len(src) - i == len(tgt) - j and all(isinstance(a, (D, DPack)) and isinstance(b, (D, DPack)) and (
                    a.size.same(b.size) or Ctx.cur.entails(z3of(a.size - b.size) == 0)) for a, b in zip(src[i:], tgt[j:])):
                # equal sizes by the path condition
                cur = cur.view_(tuple(cur.dims[:pos]) + tuple(tgt[j:]), lambda x: x, lambda b: (ONE, tuple(b)))
                break
            raise Unsupported(f"reshape of {t.shape} into {Shape(tgt)}")
    return cur


def getitem(t, key):
    """Basic indexing; returns a view."""
    if not isinstance(key, tuple):
        key = (key,)
    cur = t
    # expand Ellipsis
    if any(k is Ellipsis for k in key):
        e = [k is Ellipsis for k in key].index(True)
        left, right = key[:e], key[e + 1:]
        nright = sum(1 for k in right if k is not None)
        if nright > len(t.dims):
            raise IndexError("too many indices")
        items = [(i, k) for i, k in enumerate(left)]
        # process right part first (from the end)
        pos = len(t.dims) - nright
        if any(isinstance(d, DPack) for d in t.dims[pos:]):
            raise Unsupported("index into an unknown number of axes")
        for k in right:
            cur, pos = index_axis(cur, pos, k)
        pos = 0
        for k in left:
            if k is not None and isinstance(cur.dims[pos], DPack):
                raise Unsupported("index into an unknown number of axes")
            cur, pos = index_axis(cur, pos, k)
        return cur
    n = sum(1 for k in key if k is not None)
    if n > len(t.dims) and not any(isinstance(d, DPack) for d in t.dims):
        raise IndexError("too many indices for tensor")
    if any(isinstance(d, DPack) for d in t.dims[:n]):
        if not all(isinstance(k, slice) and k == slice(None) for k in key):
            raise Unsupported("index into an unknown number of axes")
    pos = 0
    for k in key:
        cur, pos = index_axis(cur, pos, k)
    return cur


def norm_index(k, d):
    """Python index (possibly negative constant) of a dimension -> index tree; checks bounds."""
    i = Ex.of(k)
    if i.is_const() and i.value() < 0:
        i = i + d.size
    elif not i.is_const():
        neg = i < 0
        if neg:
            i = i + d.size
    ok = E.sym_and(i >= 0, i < d.size)
    require(ok, IndexError, f"index {i.key[:50]} is out of bounds for size {d.size.key[:50]}")
    if isinstance(d, (D, DPack)):
        return i
    return conv(i, D(d.size), d)


def index_axis(t, pos, k):
    if k is None:
        return insert_axis(t, pos), pos + 1
    d = t.dims[pos]
    if isinstance(k, slice):
        if k.step is not None and not (Ex.of(k.step).is_const() and Ex.of(k.step).value() == 1):
            if Ex.of(k.step).value() == -1 and k.start is None and k.stop is None and isinstance(d, D):
                dims = t.dims
                n = d.size
                return t.view_(dims, lambda j: tuple(j[:pos]) + (n - 1 - j[pos],) + tuple(j[pos + 1:]),
                               lambda b: (ONE, tuple(b[:pos]) + (n - 1 - b[pos],) + tuple(b[pos + 1:]))), pos + 1
            raise Unsupported("stepped slice")
        a = ZERO if k.start is None else Ex.of(k.start)
        b = d.size if k.stop is None else Ex.of(k.stop)
        if a.is_const() and a.value() < 0:
            a = a + d.size
        if b.is_const() and b.value() < 0:
            b = b + d.size
        # Python's meaning of negative and too large bounds
        if not a.is_const() and not E.HOOKS.entails(E.z3of(a) >= 0) and a < 0:
            a = a + d.size
        if k.stop is not None and not b.is_const() and not b.same(d.size) and \
                not E.HOOKS.entails(E.z3of(b) >= 0) and b < 0:
            b = b + d.size
        if not (k.stop is None or b.same(d.size)):
            # Python clips; require that this does not matter
            if not E.HOOKS.entails(E.z3of(d.size - b) >= 0):
                if b > d.size:
                    b = d.size
        if not E.HOOKS.entails(E.z3of(b - a) >= 0):
            if a < 0:
                a = ZERO
            if b < a:
                a = b = ZERO
        return narrow(t, pos, a, b), pos + 1
    if isinstance(k, T) and len(k.dims) == 0:
        k = k.scalar()
    if isinstance(k, (int, Ex)) and not isinstance(k, bool):
        return select(t, pos, norm_index(k, d)), pos
    if isinstance(k, IndexList):
        return gather(t, pos, k), pos + 1
    if isinstance(k, list) and all(isinstance(x, int) for x in k):
        return gather(t, pos, IndexList.concrete(k)), pos + 1
    raise Unsupported(f"index of type {type(k)}")


class IndexList:
    """A list of integers of symbolic length used for indexing."""

    def __init__(self, n, get):
        self.n, self.get = Ex.of(n), get

    @staticmethod
    def concrete(xs):
        def get(i):
            i = Ex.of(i)
            if i.is_const():
                return Ex.const(xs[int(i.value())])
            return E.add_all(delta(i, Ex.const(k)).scale(v) for k, v in enumerate(xs))

        return IndexList(len(xs), get)


def gather(t, pos, lst):
    """Copy (not a view) of the listed entries."""
    d = t.dims[pos]
    if not isinstance(d, (D, DPack)):
        raise Unsupported("index list on a structured axis")
    src = t.snapshot()
    dims = list(t.dims)
    dims[pos] = D(lst.n)
    return t.like(dims, lambda *i: src(*i[:pos], lst.get(i[pos]), *i[pos + 1:]))


def matmul(a, b):
    """Matrix product of 1d/2d tensors."""
    if not a.dims or not b.dims:
        raise ValueError("matmul: scalar operand")
    if len(a.dims) > 2 or len(b.dims) > 2:
        raise Unsupported("batched matmul")
    da, db = a.dims[-1], b.dims[0]
    require(da.size == db.size, ValueError, f"matmul: sizes {da.key} and {db.key} differ")
    inner = da if structure(da) >= structure(db) else db
    ra, rb = a.snapshot(), b.snapshot()
    la = len(a.dims) - 1

    def f(*idx):
        ia, ib = idx[:la], idx[la:]
        return sum_dim(inner, lambda j: ra(*ia, conv(j, inner, da)) * rb(conv(j, inner, db), *ib))

    r = a.like(list(a.dims[:-1]) + list(b.dims[1:]), f, promote(a.dtype_, b.dtype_))
    return r


def cat(ts, k):
    """Concatenation along dims position k."""
    ts = list(ts)
    base = ts[0]
    k = base.axis(k) if k >= 0 or not any(isinstance(d, DPack) for d in base.dims) else len(base.dims) + k
    for t in ts[1:]:
        if len(t.dims) != len(base.dims):
            raise RuntimeError("Tensors must have same number of dimensions")
        for q, (x, y) in enumerate(zip(t.dims, base.dims)):
            if q != k:
                require(x.size == y.size, RuntimeError, "Sizes of tensors must match except in dimension")
    ds = []
    for q in range(len(base.dims)):
        if q == k:
            ds.append(dcat([t.dims[k] for t in ts]))
        else:
            ds.append(max((t.dims[q] for t in ts), key=structure))
    # nested DCat parts are flattened: (tensor, local part)
    table = []
    for n, t in enumerate(ts):
        d = t.dims[k]
        m = len(d.parts) if isinstance(d, DCat) else 1
        for p in range(m):
            table.append((n, p if isinstance(d, DCat) else None))
    snaps = [t.snapshot() for t in ts]
    single = len(table) == 1

    def f(*idx):
        i = idx[k]
        if single:
            n, loc = 0, i
        else:
            n, p = table[i[1]]
            loc = i[2] if p is None else ("c", p, i[2])
        full = [conv(x, d, e) if q != k else loc
                for q, (x, d, e) in enumerate(zip(idx, ds, ts[n].dims))]
        return snaps[n](*full)

    dt = None
    for t in ts:
        dt = promote(dt, t.dtype_)
    r = base.like(ds, f, dt)
    r.requires_grad = any(t.requires_grad for t in ts)
    return r


def stack_list(ts, k):
    """Stack finitely many tensors along a new axis at position k."""
    ts = list(ts)
    base = ts[0]
    n = len(ts)
    if k < 0:
        k = len(base.dims) + 1 + k
    snaps = [t.snapshot() for t in ts]

    def f(*idx):
        i, rest = idx[k], idx[:k] + idx[k + 1:]
        if i.is_const():
            return snaps[int(i.value())](*rest)
        return E.add_all(delta(i, Ex.const(q)) * s(*rest) for q, s in enumerate(snaps))

    dims = list(base.dims)
    dims.insert(k, D(n))
    return base.like(dims, f)


def unify(t, dims):
    """The same tensor with (equally large) dims of another structure."""
    dims = [as_dim(d) for d in dims]
    src = t.snapshot()
    own = t.dims
    return t.like(dims, lambda *i: src(*[conv(x, a, b) for x, a, b in zip(i, dims, own)]))


def reset():
    OPAQUE.clear()
