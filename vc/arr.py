"""Operations shared by the stand-ins of numpy arrays and torch tensors."""
from __future__ import annotations

from fractions import Fraction

import z3

from . import expr as E
from . import py as P
from . import tensor as TT
from .ctx import Ctx
from .expr import Ex, ONE, ZERO, SymBool, Unsupported
from .tensor import D, DType, Dim, Shape, T, as_dim, elementwise, inplace, is_one, promote, simp


def scal(x):
    """Scalar operand."""
    if isinstance(x, T):
        return x
    if isinstance(x, (int, float, Ex, Fraction)) and not isinstance(x, bool):
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, SymBool):
        raise Unsupported("arithmetic with booleans")
    if hasattr(x, "__ex__"):
        return x.__ex__()
    return None


def binop(fn, rev=False):
    def op(self, o):
        if isinstance(o, P.Poison):
            o._bad()
        o = scal(o)
        if o is None:
            return NotImplemented
        return elementwise(fn, o, self) if rev else elementwise(fn, self, o)
    return op


def iop(fn):
    def op(self, o):
        o = scal(o)
        if o is None:
            return NotImplemented
        return self.inplace_(fn, o)
    return op


def cmpop(op):
    def f(self, o):
        o = scal(o)
        if o is None:
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        return BoolT.make(op, self, o)
    return f


class Arr(T):
    lib = "?"
    meta: dict = {}

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.meta = {}

    __add__ = binop(lambda a, b: a + b)
    __radd__ = binop(lambda a, b: a + b, True)
    __sub__ = binop(lambda a, b: a - b)
    __rsub__ = binop(lambda a, b: a - b, True)
    __mul__ = binop(lambda a, b: a * b)
    __rmul__ = binop(lambda a, b: a * b, True)
    __truediv__ = binop(lambda a, b: a / b)
    __rtruediv__ = binop(lambda a, b: a / b, True)
    __floordiv__ = binop(lambda a, b: E.idiv(a, b))

    __iadd__ = iop(lambda a, b: a + b)
    __isub__ = iop(lambda a, b: a - b)
    __imul__ = iop(lambda a, b: a * b)
    __itruediv__ = iop(lambda a, b: a / b)

    __eq__ = cmpop("==")
    __ne__ = cmpop("!=")
    __lt__ = cmpop("<")
    __le__ = cmpop("<=")
    __gt__ = cmpop(">")
    __ge__ = cmpop(">=")
    __hash__ = object.__hash__

    def __pow__(self, e):
        if isinstance(e, T):
            return elementwise(lambda a, b: a ** b, self, e)
        return elementwise(lambda a: a ** Ex.of(e), self)

    def __ipow__(self, e):
        return self.inplace_(lambda a: a ** Ex.of(e))

    def __rpow__(self, b):
        return elementwise(lambda a: Ex.of(b) ** a, self)

    def __neg__(self):
        return elementwise(lambda a: -a, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return elementwise(lambda a: abs(a), self)

    def inplace_(self, fn, *o):
        self.before_inplace()
        return inplace(self, fn, *o)

    def before_inplace(self):
        pass

    def is_(self, o):
        """Same tensor object."""
        return self is o

    def __matmul__(self, o):
        if isinstance(o, T):
            return TT.matmul(self, o)
        return NotImplemented

    def fresh_copy(self):
        s = self.snapshot()
        r = self.like(self.dims, lambda *i: s(*i))
        r.meta = dict(self.meta)
        return r

    def __getitem__(self, key):
        key = norm_key(key)
        if isinstance(key, BoolT):
            raise Unsupported("boolean mask")
        return TT.getitem(self, key)

    def __setitem__(self, key, v):
        key = norm_key(key)
        if isinstance(key, BoolT):
            raise Unsupported("boolean mask")
        if isinstance(key, TT.IndexList):
            return scatter(self, key, v)
        if isinstance(key, tuple) and any(isinstance(k, TT.IndexList) for k in key):
            raise Unsupported("assignment to listed entries of several axes")
        view = TT.getitem(self, key)
        self.before_inplace()
        v = scal(v)
        if v is None:
            raise Unsupported("assignment of this value")
        if isinstance(v, T) and len(v.dims) == 0:
            v = v.scalar()
        # leading axes of size one may be dropped
        if isinstance(v, T):
            while len(v.dims) > len(view.dims) and is_one(v.dims[0]):
                v = TT.drop_axis(v, 0)
        inplace(view, lambda old, new: new, v)

    def __iter__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported("iteration over an axis of unknown size")
        return iter([TT.getitem(self, i) for i in range(n)])

    def sum_(self, axes=None, keepdim=False, mean=False):
        n = len(self.dims)
        if axes is None:
            ax = list(range(n))
        else:
            if isinstance(axes, (int, Ex)):
                axes = (int(axes),)
            ax = [self.axis(int(a)) for a in axes]
        r = TT.reduce_sum(self, set(ax), mean)
        if keepdim:
            for a in sorted(ax):
                r = TT.insert_axis(r, a)
        return r

    def transpose_perm(self, perm):
        return TT.permute(self, perm)

    @property
    def T(self):
        return TT.permute(self, list(reversed(range(len(self.dims)))))

    def __repr__(self):
        return f"<{self.lib} tensor {Shape(self.dims)}>"

    def __format__(self, spec):
        return "?"


def norm_key(key):
    def one(k):
        if isinstance(k, P.VList) or isinstance(k, P.Seq) or isinstance(k, P.SymRange):
            s = P.as_seq(k)
            c = s.concrete()
            if c is not None and all(isinstance(x, int) for x in c):
                return TT.IndexList.concrete(c)
            return TT.IndexList(s.length(), lambda i: Ex.of(s.get(i)))
        if isinstance(k, T) and k.dims and not isinstance(k, BoolT):
            if len(k.dims) == 1:
                sn = k.snapshot()
                return TT.IndexList(k.dims[0].size, lambda i: sn(i))
            raise Unsupported("index array of several axes")
        if isinstance(k, slice):
            f = lambda x: x.scalar() if isinstance(x, T) else x
            return slice(f(k.start), f(k.stop), f(k.step))
        return k

    if isinstance(key, tuple):
        return tuple(one(k) for k in key)
    return one(key)


def scatter(t, lst, v):
    """t[list] = v along the first axis; entries must be pairwise different."""
    d = t.dims[0]
    n = lst.n
    ctx = Ctx.cur
    i, j = E.fresh("i", "I"), E.fresh("j", "I")
    I, J = Ex.atom(i), Ex.atom(j)
    rng = [z3.And(E.z3of(x) >= 0, E.z3of(x) < E.z3of(n)) for x in (I, J)]
    same = E.z3of(Ex.of(lst.get(I))) == E.z3of(Ex.of(lst.get(J)))
    if not ctx.entails(z3.Implies(z3.And(*rng, same), E.z3of(I) == E.z3of(J))):
        raise Unsupported("assignment to listed entries that may coincide")
    # in bounds?
    x = Ex.of(lst.get(I))
    if not ctx.entails(z3.Implies(rng[0], z3.And(E.z3of(x) >= 0, E.z3of(x) < E.z3of(d.size)))):
        raise Unsupported("assignment to listed entries that may be out of bounds")
    v = scal(v)
    if isinstance(v, T):
        if len(v.dims) != len(t.dims):
            raise Unsupported("broadcasting in an indexed assignment")
        for q, (a, b) in enumerate(zip(v.dims, t.dims)):
            TT.require(a.size == (n if q == 0 else b.size), ValueError, "shape mismatch")
        src = v.snapshot()
    else:
        c = Ex.of(v)
        src = lambda *i: c

    def new(old, *idx):
        hit = E.Sum(n, lambda q: E.delta(Ex.of(lst.get(q)), idx[0]))
        val = E.Sum(n, lambda q: E.delta(Ex.of(lst.get(q)), idx[0]) * src(q, *idx[1:]))
        return val if old.is_zero() else (ONE - hit) * old + val

    t.before_inplace()
    t.assign(new)


class BoolT(Arr):
    """Tensor of truth values (a condition per entry)."""

    @staticmethod
    def make(op, a, b):
        r = elementwise(lambda x, y: x - y, a, b)
        if not r.dims or all(is_one(d) for d in r.dims):
            d = r.at(*[TT.zero_idx(x) for x in r.dims])
            return E.cmp_zero("==", d) if op == "==" else E.sym_not(E.cmp_zero("==", d)) if op == "!=" else \
                {"<": lambda: d < 0, "<=": lambda: d <= 0, ">": lambda: d > 0, ">=": lambda: d >= 0}[op]()
        cls = BoolTorch if a.lib == "torch" else BoolT
        t = cls(r.cell, r.dims, None, None, DType("bool"), r.device_)
        t.op = op
        return t

    def cond(self, *idx):
        d = self.at(*idx)
        return {"==": lambda: d == 0, "!=": lambda: d != 0, "<": lambda: d < 0, "<=": lambda: d <= 0,
                ">": lambda: d > 0, ">=": lambda: d >= 0}[self.op]()

    def quant(self, universal):
        """Opaque condition over all entries."""
        def rec(k, idx):
            raise Unsupported

        vs, idx = [], []
        gens = [[]]
        allg = [((), [])]
        for d in self.dims:
            allg = [(i + (j,), v + w) for i, v in allg for j, w in d.generic("q")]
        keys = []
        trivially = True
        for i, v in allg:
            for a, s in v:
                E.HOOKS.ranges[a.name] = s
            c = self.cond(*i)
            if c is universal:
                continue
            trivially = False
            sub = {a.name: E.Ex.atom(E.sym_atom(f"%q{n}", "I")) for n, (a, _) in enumerate(v)}
            from .ctx import zsubst

            keys.append(zsubst(E.boolz(c), sub).sexpr() + "|" + ",".join(s.key for _, s in v))
        if trivially:
            return universal
        z = z3.Bool(("all" if universal else "exi") + "<" + "&".join(sorted(keys)) + ">")
        return SymBool(z)

    def all(self, *a, **k):
        if a or k:
            raise Unsupported("all along an axis")
        return self.quant(True)

    def any(self, *a, **k):
        if a or k:
            raise Unsupported("any along an axis")
        return self.quant(False)

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous")


class BoolTorch(BoolT):
    lib = "torch"


def parse_einsum(eq, ops):
    lhs, _, rhs = eq.replace(" ", "").partition("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum: number of operands")
    return ins, rhs


def einsum_core(eq, ops):
    """Letters-only einsum."""
    ins, rhs = parse_einsum(eq, ops)
    if "->" not in eq:
        cnt = {}
        for s in ins:
            for c in s:
                cnt[c] = cnt.get(c, 0) + 1
        rhs = "".join(sorted(c for c in cnt if cnt[c] == 1))
    return einsum_names([list(s) for s in ins], list(rhs), ops)


def einsum_names(ins, out, ops):
    dim = {}
    for s, t in zip(ins, ops):
        if len(s) != len(t.dims):
            raise ValueError("einsum: operand has another number of axes")
        for c, d in zip(s, t.dims):
            if c in dim:
                e = dim[c]
                if is_one(e) and not is_one(d):
                    dim[c] = d
                    continue
                if is_one(d):
                    continue
                TT.require(e.size == d.size, ValueError, f"einsum: sizes of axis {c} differ")
                if TT.structure(d) > TT.structure(e):
                    dim[c] = d
            else:
                dim[c] = d
    snaps = [t.snapshot() for t in ops]
    red = [c for c in dim if c not in out]

    def f(*idx):
        env = dict(zip(out, idx))

        def body(js):
            e2 = dict(env)
            e2.update(zip(red, js))
            r = ONE
            for s, t, sn in zip(ins, ops, snaps):
                ii = [TT.zero_idx(d) if is_one(d) and not is_one(dim[c]) else TT.conv(e2[c], dim[c], d)
                      for c, d in zip(s, t.dims)]
                r = r * sn(*ii)
            return r

        return TT.sum_dims([dim[c] for c in red], body)

    dt = None
    for t in ops:
        dt = promote(dt, t.dtype_)
    r = ops[0].like([dim[c] for c in out], f, dt)
    r.requires_grad = any(t.requires_grad for t in ops)
    return r


def outer_dims(dims):
    return [as_dim(d) for d in dims]
