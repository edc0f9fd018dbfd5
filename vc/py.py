"""Python-level run-time of the symbolic execution: sequences of symbolic length, lists,
dictionaries, sets, loops, comprehensions, and the built-in functions."""
from __future__ import annotations

import builtins
import hashlib
import sys
import types

import z3

from . import expr as E
from . import tensor as TT
from .ctx import Ctx, Log, deep_consts, explore_local, zsubst
from .expr import Ex, HOOKS, ONE, ZERO, PathAbort, SymBool, Unsupported
from .tensor import T, Shape, simp


class Undef:
    def __repr__(self):
        return "UNDEF"

    def __bool__(self):
        raise UnboundLocalError("variable referenced before assignment")


UNDEF = Undef()


class Poison:
    """Value of a variable at the start of a generic iteration that cannot be described."""

    def __init__(self, what):
        object.__setattr__(self, "what", what)

    def __getattr__(self, k):
        raise Unsupported(f"use of {self.what} carried over from an earlier iteration")

    def __bool__(self):
        raise Unsupported(f"use of {self.what} carried over from an earlier iteration")

    def _bad(self, *a):
        raise Unsupported(f"use of {self.what} carried over from an earlier iteration")

    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __iter__ = __len__ = _bad
    __getitem__ = __call__ = __matmul__ = __truediv__ = __eq__ = __lt__ = __gt__ = _bad
    __hash__ = object.__hash__


# ----------------------------------------------------------------------------------
# substitution of the generic iteration in values
# ----------------------------------------------------------------------------------
def sub_dims(dims, sub):
    return tuple(d.subst(sub) for d in dims)


class Generaliser:
    """Values of the generic iteration ``k`` as functions of the iteration."""

    def __init__(self, k, mark, fix=None):
        self.k, self.mark = k, mark
        self.fix = fix or (lambda x: x)
        self.fams = {}
        self.serial = Ctx.cur.tick()

    def at(self, v, j):
        sub = {self.k.name: Ex.of(j)}
        return self._sub(v, sub, Ex.of(j))

    def fam_cell(self, cell):
        f = self.fams.get(id(cell))
        if f is None:
            c, k, fix = cell.content, self.k.name, self.fix
            memo = {}

            def content(j, *base):
                # contents are evaluated at the generic iteration, then specialised
                key = (j.key,) + tuple(TT._ikey(b) for b in base)
                r = memo.get(key)
                if r is None:
                    r = memo[key] = E.subst(fix(c(*base)), {k: j})
                return r

            f = TT.Cell(content, cell.name)
            f.serial = self.serial
            self.fams[id(cell)] = f
            self.fams[("keep", id(cell))] = cell
        return f

    def _sub(self, v, sub, j):
        if v is None or isinstance(v, (str, bytes, bool, int, float, type, types.FunctionType,
                                       types.BuiltinFunctionType, types.MethodType, TT.DType, TT.SymDType)):
            return v
        if isinstance(v, Ex):
            r = E.subst(self.fix(v), sub)
            if v.dim is not None:
                r = Ex(r.terms)
                r.dim = v.dim.subst(sub)
            return r
        if isinstance(v, SymBool):
            return E.mkbool(zsubst(v.z, sub))
        if isinstance(v, Shape):
            return Shape([d.subst(sub) for d in v.star()])
        if isinstance(v, TT.Dim):
            return v.subst(sub)
        if isinstance(v, T):
            return self.tensor(v, sub, j)
        if isinstance(v, VList):
            if v.sym is not None:
                s = v.sym
                r = VList()
                r.sym = self.seq(s, sub, j)
            else:
                r = VList([self._sub(x, sub, j) for x in list.__iter__(v)])
            r.frozen = True
            return r
        if isinstance(v, tuple) and type(v) is tuple:
            return tuple(self._sub(x, sub, j) for x in v)
        if isinstance(v, Seq):
            return self.seq(v, sub, j)
        if isinstance(v, VDict):
            r = VDict({a: self._sub(b, sub, j) for a, b in v.items()})
            r.frozen = True
            return r
        if hasattr(v, "vc_subst"):
            return v.vc_subst(lambda x: self._sub(x, sub, j))
        if isinstance(v, (types.ModuleType, Stub)) or getattr(v, "vc_const", False):
            return v
        raise Unsupported(f"value of type {type(v).__name__} produced by a generic iteration")

    def seq(self, s, sub, j):
        return Seq([("c", [self._sub(x, sub, j) for x in g[1]]) if g[0] == "c" else
                    ("s", E.subst(g[1], sub), lambda i, g=g: self._sub(g[2](i), sub, j))
                    for g in s.segs])

    def tensor(self, v, sub, j):
        dims = sub_dims(v.dims, sub)
        of, oi = v.fwd, v.inv
        if v.cell.serial >= self.mark:
            cell = self.fam_cell(v.cell)

            def fwd(idx):
                b = of(idx) if of is not None else idx
                return (j,) + tuple(TT.subst_idx(x, sub) for x in b)

            if v.ro:
                inv = None
            else:
                def inv(base):
                    g, i = (ONE, base[1:]) if oi is None else oi(base[1:])
                    g = E.delta(base[0], j) * E.subst(g, sub)
                    return g, None if i is None else tuple(TT.subst_idx(x, sub) for x in i)
        else:
            cell = v.cell
            if of is None:
                fwd, inv = None, None
            else:
                def fwd(idx):
                    return tuple(TT.subst_idx(x, sub) for x in of(idx))

                inv = None if oi is None else (
                    lambda base: _sub_inv(oi(base), sub))
        t = type(v)(cell, dims, fwd, inv, v.dtype_, v.device_)
        t.ro = v.ro
        t.requires_grad = v.requires_grad
        t.meta = {a: self._sub(b, sub, j) for a, b in v.meta.items()}
        return t


def _sub_inv(gi, sub):
    g, i = gi
    return E.subst(g, sub), None if i is None else tuple(TT.subst_idx(x, sub) for x in i)


# ----------------------------------------------------------------------------------
# sequences
# ----------------------------------------------------------------------------------
class Seq:
    """Finite sequence: segments ("c", items) and ("s", n, get)."""

    def __init__(self, segs):
        out = []
        for g in segs:
            if g[0] == "s":
                n = simp(Ex.of(g[1]))
                if isinstance(n, int):
                    g = ("c", [g[2](Ex.const(i)) for i in range(n)])
                else:
                    out.append(("s", Ex.of(n), g[2]))
                    continue
            if not g[1]:
                continue
            if out and out[-1][0] == "c":
                out[-1] = ("c", out[-1][1] + list(g[1]))
            else:
                out.append(("c", list(g[1])))
        self.segs = out

    @staticmethod
    def sym(n, get):
        return Seq([("s", n, get)])

    def concrete(self):
        """Python list, or None."""
        if not self.segs:
            return []
        if len(self.segs) == 1 and self.segs[0][0] == "c":
            return self.segs[0][1]
        return None

    def length(self):
        r = ZERO
        for g in self.segs:
            r = r + (len(g[1]) if g[0] == "c" else g[1])
        return simp(r)

    def get(self, i):
        """Element i (0 <= i < length is the caller's obligation)."""
        i = Ex.of(i)
        off = ZERO
        for n, g in enumerate(self.segs):
            size = Ex.const(len(g[1])) if g[0] == "c" else g[1]
            last = n == len(self.segs) - 1
            loc = i - off if n else i
            if last or HOOKS.entails(E.z3of(loc) < E.z3of(size)):
                if g[0] == "s":
                    return g[2](loc)
                if loc.is_const():
                    return g[1][int(loc.value())]
                return pick(g[1], loc)
            if not HOOKS.entails(E.z3of(loc) >= E.z3of(size)):
                if bool(loc < size):
                    if g[0] == "s":
                        return g[2](loc)
                    return g[1][int(loc)] if loc.is_const() else pick(g[1], loc)
            off = off + size
        raise IndexError("list index out of range")

    def map(self, fn):
        return Seq([("c", [fn(x) for x in g[1]]) if g[0] == "c" else
                    ("s", g[1], lambda i, g=g: fn(g[2](i))) for g in self.segs])

    def slice(self, a, b):
        if len(self.segs) == 1 and self.segs[0][0] == "s":
            _, n, get = self.segs[0]
            a, b = Ex.of(0 if a is None else a), Ex.of(n if b is None else b)
            if a.is_const() and a.value() < 0:
                a = a + n
            if b.is_const() and b.value() < 0:
                b = b + n
            if not HOOKS.entails(E.z3of(n - b) >= 0):
                if b > n:
                    b = n
            return Seq.sym(b - a, lambda i: get(i + a))
        raise Unsupported("slice of a list of unknown length")


def pick(items, i):
    """Element of a concrete list at a symbolic position."""
    if all(isinstance(x, (int, float, Ex)) and not isinstance(x, bool) for x in items):
        return E.add_all(E.delta(i, Ex.const(q)) * Ex.of(x) for q, x in enumerate(items))
    for q in range(len(items) - 1):
        if bool(i == q):
            return items[q]
    return items[-1]


class VList(list):
    """Python list that may have a symbolic length."""

    def __init__(self, items=()):
        s = as_seq(items) if isinstance(items, (Seq, VList)) or is_symbolic(items) else None
        if s is not None and s.concrete() is None:
            super().__init__()
            self.sym = s
        else:
            super().__init__(s.concrete() if s is not None else items)
            self.sym = None
        self.frozen = False
        self.capture = None
        self.serial = Ctx.cur.tick() if Ctx.cur is not None else 0

    # -- mutation
    def _mut(self):
        if self.frozen:
            raise Unsupported("mutation of a list that belongs to another iteration")
        for lg in Ctx.cur.logs:
            if self.serial < lg.mark and id(self) not in lg.lists:
                lg.lists[id(self)] = (self, list(list.__iter__(self)), self.sym)

    def _read(self):
        if self.capture is not None:
            raise Unsupported("read of a list that is appended to in the loop")

    def append(self, x):
        self._mut()
        if self.capture is not None:
            self.capture.append(x)
        elif self.sym is not None:
            self.sym = Seq(self.sym.segs + [("c", [x])])
        else:
            super().append(x)

    def extend(self, xs):
        s = as_seq(xs)
        if self.capture is None and self.sym is None and s.concrete() is not None:
            self._mut()
            super().extend(s.concrete())
            return
        self._mut()
        if self.capture is not None:
            if s.concrete() is None:
                raise Unsupported("extend by a list of unknown length in a loop")
            self.capture.extend(s.concrete())
            return
        new = Seq(as_seq(self).segs + s.segs)
        super().clear()
        self.sym = new

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def _conc(self, what):
        self._read()
        if self.sym is not None:
            raise Unsupported(f"{what} of a list of unknown length")

    def pop(self, i=-1):
        self._conc("pop")
        self._mut()
        return super().pop(int(i))

    def insert(self, i, x):
        self._conc("insert")
        self._mut()
        super().insert(int(i), x)

    def remove(self, x):
        self._conc("remove")
        self._mut()
        super().remove(x)

    def clear(self):
        self._mut()
        self.sym = None
        super().clear()

    def reverse(self):
        self._conc("reverse")
        self._mut()
        super().reverse()

    def sort(self, **k):
        self._conc("sort")
        self._mut()
        super().sort(**k)

    def __setitem__(self, i, v):
        self._conc("assignment to an element")
        self._mut()
        if isinstance(i, Ex):
            i = int(i)
        super().__setitem__(i, v)

    def __delitem__(self, i):
        self._conc("deletion of an element")
        self._mut()
        super().__delitem__(i)

    # -- reads
    def __iter__(self):
        self._conc("iteration over elements")
        return super().__iter__()

    def __len__(self):
        self._conc("length")
        return super().__len__()

    def __bool__(self):
        self._read()
        if self.sym is not None:
            return bool(Ex.of(self.sym.length()) > 0)
        return super().__len__() > 0

    def __getitem__(self, i):
        self._read()
        if isinstance(i, slice):
            a, b = i.start, i.stop
            if i.step not in (None, 1):
                if self.sym is None:
                    return VList(super().__getitem__(i))
                raise Unsupported("stepped slice")
            if self.sym is None and all(x is None or isinstance(x, int) or x.is_const() for x in (a, b)):
                return VList(super().__getitem__(slice(None if a is None else int(a), None if b is None else int(b))))
            return VList(as_seq(self).slice(a, b))
        if self.sym is None and (isinstance(i, int) or (isinstance(i, Ex) and i.is_const())):
            return super().__getitem__(int(i))
        return seq_item(as_seq(self), i)

    def __add__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        return VList(Seq(as_seq(self).segs + as_seq(o).segs))

    def __radd__(self, o):
        return VList(Seq(as_seq(o).segs + as_seq(self).segs))

    def __mul__(self, n):
        if isinstance(n, Ex) and n.is_const():
            n = int(n)
        if isinstance(n, int) and self.sym is None:
            return VList(super().__mul__(n))
        if self.sym is None and super().__len__() == 1:
            x = super().__getitem__(0)
            if isinstance(n, SymRank):
                if x == 1:
                    return VList([TT.Ones(n)])
            return VList(Seq.sym(n, lambda i: x))
        raise Unsupported("list repetition")

    __rmul__ = __mul__

    def copy(self):
        return VList(as_seq(self))

    def index(self, *a):
        self._conc("index")
        return super().index(*a)

    def __eq__(self, o):
        if not isinstance(o, list):
            return False
        a, b = as_seq(self), as_seq(o)
        if a.concrete() is not None and b.concrete() is not None:
            a, b = a.concrete(), b.concrete()
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = E.sym_and(r, x == y)
            return r
        raise Unsupported("comparison of lists of unknown length")

    def __ne__(self, o):
        return E.sym_not(self == o)

    __hash__ = None


SymRank = type("SymRank", (), {})


def seq_item(s, i):
    i = Ex.of(i)
    n = Ex.of(s.length())
    if i.is_const() and i.value() < 0:
        i = i + n
    ok = E.sym_and(i >= 0, i < n)
    if not ok:
        raise IndexError("list index out of range")
    return s.get(i)


class VDict(dict):
    """Dictionary with concrete keys whose mutations are logged."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.frozen = False
        self.serial = Ctx.cur.tick() if Ctx.cur is not None else 0

    def _mut(self, k):
        if self.frozen:
            raise Unsupported("mutation of a dictionary of another iteration")
        if isinstance(k, (Ex, SymBool)):
            raise Unsupported("symbolic dictionary key")
        for lg in Ctx.cur.logs:
            if self.serial < lg.mark and ("d", id(self), k) not in lg.slots:
                lg.slots[("d", id(self), k)] = (DictSlot(self, k), dict.get(self, k, UNDEF))

    def __setitem__(self, k, v):
        self._mut(k)
        super().__setitem__(k, v)

    def __delitem__(self, k):
        self._known(k)
        if not dict.__contains__(self, k):
            raise KeyError(k)
        self._mut(k)
        super().__delitem__(k)

    def pop(self, k, *d):
        if k in self:
            self._mut(k)
        elif not d:
            raise KeyError(k)
        return super().pop(k, *d)

    # an entry which only the first iteration of a loop lacks: such a loop is peeled
    def _known(self, *k):
        for x in (k or dict.keys(self)):
            if isinstance(dict.get(self, x), NeedPeel):
                raise PeelFirst()

    def __contains__(self, k):
        self._known(k)
        return super().__contains__(k)

    def get(self, k, d=None):
        self._known(k)
        return super().get(k, d)

    def __getitem__(self, k):
        self._known(k)
        if not dict.__contains__(self, k) and not hasattr(self, "__missing__"):
            raise KeyError(k)
        return super().__getitem__(k)

    def __len__(self):
        self._known()
        return super().__len__()

    def __iter__(self):
        self._known()
        return super().__iter__()

    def keys(self):
        self._known()
        return super().keys()

    def values(self):
        self._known()
        return super().values()

    def items(self):
        self._known()
        return super().items()

    def __eq__(self, o):
        self._known()
        return super().__eq__(o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def update(self, *a, **k):
        for x, y in dict(*a, **k).items():
            self[x] = y

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def clear(self):
        for k in list(self):
            del self[k]

    def popitem(self):
        raise Unsupported("popitem")

    def copy(self):
        return VDict(self)


class DictSlot:
    def __init__(self, d, k):
        self.d, self.k = d, k

    def read(self):
        return dict.get(self.d, self.k, UNDEF)

    def write(self, v):
        if v is UNDEF:
            dict.pop(self.d, self.k, None)
        else:
            dict.__setitem__(self.d, self.k, v)

    name = property(lambda self: f"[{self.k!r}]")


class AttrSlot:
    def __init__(self, o, k):
        self.o, self.k = o, k

    def read(self):
        return self.o.__dict__.get(self.k, UNDEF)

    def write(self, v):
        if v is UNDEF:
            self.o.__dict__.pop(self.k, None)
        else:
            self.o.__dict__[self.k] = v

    name = property(lambda self: f".{self.k}")


class GhostSlot:
    def __init__(self, k):
        self.k = k

    def read(self):
        return Ctx.cur.ghosts.get(self.k, 0)

    def write(self, v):
        Ctx.cur.ghosts[self.k] = v

    name = property(lambda self: f"ghost {self.k}")


def vc_setattr(o, k, v):
    ctx = Ctx.cur
    d = getattr(o, "__dict__", None)
    if d is not None:
        for lg in ctx.logs:
            key = ("a", id(o), k)
            if key not in lg.slots and getattr(o, "vc_serial", 0) < lg.mark:
                lg.slots[key] = (AttrSlot(o, k), d.get(k, UNDEF))
    setattr(o, k, v)


class VSet:
    """Set of values; symbolic elements."""

    def __init__(self, items=()):
        self.seq = as_seq(items)
        self.serial = Ctx.cur.tick()

    def distinct(self):
        """Concrete list of pairwise different elements; decides equalities."""
        out = []
        for g in self.seq.segs:
            if g[0] == "c":
                cand = g[1]
            else:
                # all elements equal?
                v = E.fresh("u", "I")
                HOOKS.ranges[v.name] = g[1]
                x = g[2](Ex.atom(v))
                y = g[2](ZERO)
                if not same_value(x, y):
                    raise Unsupported("set of symbolic elements")
                if not bool(Ex.of(g[1]) > 0):
                    continue
                cand = [y]
            for x in cand:
                if not any(values_equal(x, y) for y in out):
                    out.append(x)
        return out

    def length(self):
        s = self.seq
        if len(s.segs) == 1 and s.segs[0][0] == "s":
            _, n, get = s.segs[0]
            v = E.fresh("u", "I")
            HOOKS.ranges[v.name] = n
            x, y = get(Ex.atom(v)), get(ZERO)
            if same_value(x, y):
                return 1 if bool(Ex.of(n) > 0) else 0
            if isinstance(x, (Ex, int)):
                return card(n, get)
        return len(self.distinct())

    def __len__(self):
        r = self.length()
        if isinstance(r, int):
            return r
        raise Unsupported("size of a symbolic set")

    def __iter__(self):
        return iter(self.distinct())

    def __contains__(self, x):
        return any(values_equal(x, y) for y in self.distinct())

    def add(self, x):
        self.seq = Seq(self.seq.segs + [("c", [x])])

    def pop(self):
        d = self.distinct()
        if not d:
            raise KeyError("pop from an empty set")
        self.seq = Seq([("c", d[1:])])
        return d[0]

    def update(self, xs):
        self.seq = Seq(self.seq.segs + as_seq(xs).segs)

    def issubset(self, o):
        o = VSet(o) if not isinstance(o, VSet) else o
        return all(x in o for x in self.distinct())

    def __le__(self, o):
        return self.issubset(o)

    def _bin(self, o, f):
        o = o if isinstance(o, VSet) else VSet(o)
        return VSet([x for x in self.distinct() if f(x in o)])

    def __sub__(self, o):
        return self._bin(o, lambda b: not b)

    def __and__(self, o):
        return self._bin(o, lambda b: b)

    intersection, difference = __and__, __sub__

    def __or__(self, o):
        return VSet(Seq(self.seq.segs + as_seq(o).segs))

    union = __or__

    def __xor__(self, o):
        o = o if isinstance(o, VSet) else VSet(o)
        return (self - o) | (o - self)

    symmetric_difference = __xor__

    def __ge__(self, o):
        return VSet(o).issubset(self) if not isinstance(o, VSet) else o.issubset(self)

    issuperset = __ge__

    def __lt__(self, o):
        return self <= o and not self >= o

    def __gt__(self, o):
        return self >= o and not self <= o

    def isdisjoint(self, o):
        return not any(x in self for x in (o if isinstance(o, VSet) else VSet(o)).distinct())

    def discard(self, x):
        self.seq = Seq([("c", [y for y in self.distinct() if not values_equal(x, y)])])

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def copy(self):
        return VSet(self.seq)

    def __eq__(self, o):
        if not isinstance(o, (VSet, set, frozenset)):
            return False
        o = o if isinstance(o, VSet) else VSet(list(o))
        return self.issubset(o) and o.issubset(self)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __bool__(self):
        return bool(self.length() != 0)

    def __repr__(self):
        return "VSet"


def card(n, get):
    """Number of different elements of a list of integers."""
    ctx = Ctx.cur
    i, j = z3.Int("?ci"), z3.Int("?cj")
    ii, jj = Ex.atom(E.sym_atom("?ci", "I")), Ex.atom(E.sym_atom("?cj", "I"))
    gi, gj = E.z3of(Ex.of(get(ii))), E.z3of(Ex.of(get(jj)))
    c = E.integer(f"card<{Ex.of(get(ii)).key}|{n.key}>")
    zn = E.z3of(n)
    dist = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < zn, 0 <= j, j < zn, gi == gj), i == j))
    fact = z3.And((E.z3of(c) == zn) == dist, E.z3of(c) <= zn)
    if not any(f.eq(fact) for f in ctx.pc):
        ctx.assume(SymBool(fact))
    return c


def same_value(x, y):
    if isinstance(x, (Ex, int, float)) and isinstance(y, (Ex, int, float)):
        return Ex.of(x).same(Ex.of(y))
    if isinstance(x, Shape) and isinstance(y, Shape):
        return x.key == y.key
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_value(a, b) for a, b in zip(x, y))
    return x is y or (type(x) is type(y) and isinstance(x, (str, TT.DType)) and x == y)


def values_equal(x, y):
    if same_value(x, y):
        return True
    r = x == y
    return bool(r)


# ----------------------------------------------------------------------------------
# conversion to sequences
# ----------------------------------------------------------------------------------
class SymRange:
    def __init__(self, *a):
        a = [Ex.of(x) for x in a]
        if len(a) == 1:
            self.lo, self.hi = ZERO, a[0]
        elif len(a) == 2:
            self.lo, self.hi = a
        else:
            raise Unsupported("range with step")

    def seq(self):
        n = self.hi - self.lo
        if not HOOKS.entails(E.z3of(n) >= 0):
            if n < 0:
                n = ZERO
        return Seq.sym(n, lambda i: simp(i + self.lo))


class GenLazy:
    """Generator expression over a symbolic sequence."""

    def __init__(self, seq, fn):
        self.src, self.fn = seq, fn


def is_symbolic(x):
    if isinstance(x, VList):
        return x.sym is not None
    return isinstance(x, (Seq, SymRange, GenLazy)) or (isinstance(x, VSet) and x.seq.concrete() is None)


def as_seq(x):
    if isinstance(x, Seq):
        return x
    if isinstance(x, VList):
        x._read()
        if x.sym is not None:
            return x.sym
        return Seq([("c", list(list.__iter__(x)))])
    if isinstance(x, SymRange):
        return x.seq()
    if isinstance(x, GenLazy):
        return as_seq(comp("list", x.src, x.fn))
    if isinstance(x, VSet):
        return Seq([("c", x.distinct())])
    if isinstance(x, T):
        n = x.shape[0]
        d0 = x.dims[0]
        if isinstance(n, int):
            return Seq([("c", [TT.getitem(x, i) for i in range(n)])])
        if isinstance(d0, TT.D):
            return Seq.sym(n, lambda i: TT.select(x, 0, Ex.of(i)))
        raise Unsupported("iteration over a structured axis")
    if isinstance(x, Shape):
        return Seq([("c", list(x))])
    if isinstance(x, Poison):
        x._bad()
    if hasattr(x, "vc_seq"):
        return x.vc_seq()
    return Seq([("c", list(x))])


def needs_seq(x):
    return is_symbolic(x) or (isinstance(x, T) and not isinstance(x.shape.raw(0).size, int) and bool(x.dims)) \
        or hasattr(x, "vc_seq")


# ----------------------------------------------------------------------------------
# generic iterations
# ----------------------------------------------------------------------------------
class PeelFirst(E.Internal):
    pass


class PeelLast(E.Internal):
    pass


class Loop:
    """An active generic iteration."""

    def __init__(self, var, n, label, can_peel):
        self.var, self.n, self.label, self.can_peel = var, Ex.of(n), label, can_peel
        # "uniform": all iterations decide alike; "single": only this iteration is known, which
        # may leave the loop by an exception
        self.mode, self.prefix, self.taken = None, None, []

    def decide(self, ctx, z):
        k, n = E.z3of(Ex.atom(self.var)), E.z3of(self.n)
        if self.can_peel:
            for cond, peel in ((k >= 1, PeelFirst), (k <= n - 2, PeelLast)):
                for f in (z, z3.Not(z)):
                    if ctx.check([cond, z3.Not(f)]) == z3.unsat and ctx.check([cond]) != z3.unsat:
                        raise peel()
            for f in (z, z3.Not(z)):
                if ctx.check([k >= 1, k <= n - 2, z3.Not(f)]) == z3.unsat and ctx.check([k >= 1]) != z3.unsat:
                    raise PeelFirst()
        ex = ctx.explorer
        if self.prefix is None:
            self.prefix = f"{self.label}|{[d for d, _ in ctx.decisions]}"
        label = f"{self.label}: {str(z)[:60]}"
        if self.mode is None:
            c = ex.choose_n(ctx, 4, label)
            self.mode = "uniform" if c < 2 else "single"
        else:
            c = ex.choose_n(ctx, 2, label)
        r = c % 2 == 0
        self.taken.append((r, str(z)[:200]))
        zz = z if r else z3.Not(z)
        if self.mode == "uniform":
            q = forall(self.var, self.n, zz)
            if q is not None:
                ctx.assume(SymBool(q))
        ctx.assume(SymBool(zz))
        if ctx.check([]) == z3.unsat:
            raise PathAbort()
        return r


def forall(var, n, z):
    """ForAll 0 <= var < n: z, or None if var is hidden in opaque constants of z."""
    for c in E_consts(z):
        a = E.Z3INFO.get(c)
        if a is not None and c != var.name and var.name in a.fv:
            return None
    v, q = z3.Int(var.name), z3.Int("?q" + var.name)
    return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < E.z3of(n)), z3.substitute(z, (v, q))))


def E_consts(z):
    from .ctx import consts

    return consts(z)


class RetSignal:
    def __init__(self, value):
        self.value = value


BRK = object()


def loop(it, body, get, setv, label):
    """Execute ``for x in it: body(x)``."""
    if not needs_seq(it):
        if isinstance(it, VList):
            it._read()
        for x in it:
            r = body(x)
            if r is BRK or isinstance(r, RetSignal):
                return r
        return None
    for g in as_seq(it).segs:
        if g[0] == "c":
            for x in g[1]:
                r = body(x)
                if r is BRK or isinstance(r, RetSignal):
                    return r
        else:
            r = sym_loop(g[1], g[2], body, get, setv, label)
            if r is not None:
                return r
    return None


def sym_loop(n, elem, body, get, setv, label, first=False, last=False):
    """Loop with a symbolic number of iterations."""
    ctx = Ctx.cur
    lo, m = ZERO, n
    if first:
        if not bool(n >= 1):
            return None
        r = body(elem(ZERO))
        if r is not None:
            raise Unsupported("early exit of a loop of unknown length")
        lo, m = ONE, n - 1
    if last:
        if not bool(m >= 1):
            return None
        m = m - 1
    if (first or last) and not Ex.of(m).is_const():
        for c in (1, 2):
            if ctx.check([E.z3of(Ex.of(m)) != c]) == z3.unsat:
                m = Ex.const(c)
                break
    if Ex.of(m).is_const():
        for i in range(int(m.value())):
            r = body(elem(simp(lo + i)))
            if r is not None:
                raise Unsupported("early exit of a loop of unknown length")
    elif (first or last) and ctx.check([E.z3of(Ex.of(m)) >= 1]) == z3.unsat:
        pass
    else:
        state = ctx.explorer, len(ctx.explorer.script), ctx.explorer.pos
        try:
            el = (lambda i: elem(i + lo)) if first else elem
            try:
                generic(m, el, body, get, setv, label)
            except WrongGuess:
                generic(m, el, body, get, setv, label, guess=False)
        except PeelFirst:
            if first:
                raise Unsupported("branch on the iteration")
            return sym_loop(n, elem, body, get, setv, label, True, last)
        except PeelLast:
            if last:
                raise Unsupported("branch on the iteration")
            return sym_loop(n, elem, body, get, setv, label, first, True)
    if last:
        r = body(elem(n - 1))
        if r is not None:
            raise Unsupported("early exit of a loop of unknown length")
    return None


def restore(ctx, log, get, setv, vars0):
    for cell, old in log.cells.values():
        cell.content = old
    for lst, items, sym in log.lists.values():
        list.clear(lst)
        list.extend(lst, items)
        lst.sym, lst.capture = sym, None
    for slot, old in log.slots.values():
        slot.write(old)
    for k, v in log.ghosts.items():
        ctx.ghosts[k] = v
    setv(vars0)


class VarSlot:
    def __init__(self, get, setv, name):
        self.get, self.setv, self.k = get, setv, name
        self.name = name

    def read(self):
        return self.get()[self.k]

    def write(self, v):
        self.setv({self.k: v})


INTERNAL = E.Internal


def live():
    """Whether a finally block is executed by the code (rather than the path being left by the verifier)."""
    return not isinstance(sys.exc_info()[1], E.Internal)


def raised_by_code(e):
    return isinstance(e, Exception) and not isinstance(e, Unsupported) or getattr(e, "vc_contract", False)


def run_body(ctx, lp, body, elem, log, logs, pilot=False):
    """One generic iteration with a write log."""
    ctx.logs = logs + [log]
    ctx.loops.append(lp)
    try:
        r = body(elem(Ex.atom(lp.var)))
    except BaseException as e:
        if raised_by_code(e):
            if lp.mode == "uniform":
                raise PathAbort()  # covered by the same decisions of a single iteration
            if pilot:
                ctx.assume(SymBool(E.z3of(Ex.atom(lp.var)) == 0))
                if ctx.check([]) == z3.unsat:
                    raise PathAbort()
        raise
    finally:
        ctx.logs = logs
        ctx.loops.remove(lp)
    if r is not None:
        raise Unsupported("early exit of a loop of unknown length")


class WrongGuess(E.Internal):
    """A counter is not the sum of the increments seen in the pilot iteration."""


def generic(n, elem, body, get, setv, label, guess=True):
    ctx = Ctx.cur
    # a new generic variable; its name is reproducible within the path
    k = E.fresh("k", "I")
    HOOKS.ranges[k.name] = Ex.of(n)
    K = Ex.atom(k)
    can_peel = True
    vars0 = dict(get())
    logs = ctx.logs
    pc0 = list(ctx.pc)
    ctx.assume(Ex.of(n) >= 1)  # within the iteration
    # ---------------------------------------------------------------- pilot
    ex = ctx.explorer
    lp = Loop(k, n, label, can_peel)
    log = Log(ctx)
    pos0, dec0 = ex.pos, len(ctx.decisions)
    ctx.pilot = getattr(ctx, "pilot", 0) + 1
    try:
        try:
            run_body(ctx, lp, body, elem, log, logs, pilot=True)
        finally:
            ctx.pilot -= 1
    except (PeelFirst, PeelLast):
        restore(ctx, log, get, setv, vars0)
        ctx.pc = pc0
        ctx._entail_cache.clear()
        HOOKS.ranges.pop(k.name, None)
        # decisions of the pilot are not replayed consistently after peeling
        if ex.pos != pos0:
            pass
        raise
    vars1 = dict(get())
    slots = {}
    for name, v1 in vars1.items():
        if v1 is not vars0[name]:
            slots[("v", name)] = (VarSlot(get, setv, name), vars0[name], v1)
    for key, (slot, old) in log.slots.items():
        new = slot.read()
        if new is not old:
            slots[key] = (slot, old, new)
    for name, old in log.ghosts.items():
        new = ctx.ghosts.get(name, 0)
        if not Ex.of(new).same(Ex.of(old)):
            slots[("g", name)] = (GhostSlot(name), old, new)
    cells = [c for c, _ in log.cells.values()]
    lists = [l for l, _, _ in log.lists.values()]
    restore(ctx, log, get, setv, vars0)
    # ---------------------------------------------------------------- havoc
    # decisions of the pilot that do not concern the iteration stay
    ctx.pc = list(pc0) + [f for f in ctx.pc[len(pc0):] if k.name not in deep_consts(f)]
    ctx._entail_cache.clear()
    ctx.assume(Ex.of(n) >= 1)
    mark = ctx.tick()
    hv = {}  # id -> Havoc
    havocs = []
    for key, (slot, old, new) in slots.items():
        h = Havoc.make(ctx, k, n, slot, old, new)
        if guess and isinstance(h, ScalarHavoc):
            h.make_guess(old, new)
        havocs.append(h)
    cellh = []
    for c in cells:
        h = CellHavoc(ctx, k, c)
        cellh.append(h)
    for l in lists:
        l.capture = []
    log2 = Log(ctx)
    lp2 = Loop(k, n, label, can_peel)
    lp2.mode = lp.mode
    ctx.inloop = getattr(ctx, "inloop", 0)
    try:
        for h in havocs:
            h.enter()
        for h in cellh:
            h.enter()
        try:
            run_body(ctx, lp2, body, elem, log2, logs)
        except BaseException as e:
            if raised_by_code(e) and any(isinstance(h.slot.read(), NeedPeel) for h in havocs):
                raise PeelFirst()  # the first iteration leaves a different state
            raise
        # anything written that the pilot did not see?
        seen_c = {id(c) for c in cells} | {id(h.cell) for h in havocs if h.cell is not None}
        for cid, (c, _) in log2.cells.items():
            if cid not in seen_c:
                raise Unsupported("a generic iteration writes more than the first one")
        hcells = {id(h.cell): h for h in havocs if h.cell is not None}
        for l, _, _ in log2.lists.values():
            if not any(l is x for x in lists):
                raise Unsupported("a generic iteration appends to more lists than the first one")
        for key, (slot, old) in log2.slots.items():
            if key not in slots:
                raise Unsupported("a generic iteration assigns more than the first one")
        news = {}
        for h in havocs:
            news[h] = h.slot.read()
        vars2 = dict(get())
        for name, v in vars2.items():
            if ("v", name) not in slots and v is not vars0[name]:
                raise Unsupported("a generic iteration assigns more than the first one")
        # aliasing between carried tensors
        owners = {}
        for h in havocs:
            v = news[h]
            if isinstance(v, T):
                owners.setdefault(id(v.cell), []).append(h)
        for hs in owners.values():
            if len(hs) > 1:
                for h in hs:
                    if h.cell is not None and id(h.cell) in log2.cells:
                        raise Unsupported("in-place write to a tensor with several names in a loop")
        for cid in log2.cells:
            if cid in hcells:
                h = hcells[cid]
                # in-place change of a tensor that a variable was bound to by the previous
                # iteration: only fine if the variable still refers to it
                if not (isinstance(news[h], T) and news[h].cell is h.cell):
                    raise Unsupported("in-place write to a tensor of the previous iteration")
        captured = [(l, l.capture) for l in lists]
        results = [(h, h.cell.content) for h in cellh]
        for h in havocs:
            if isinstance(h, ScalarHavoc) and not h.confirmed(news[h]):
                raise WrongGuess()
    except (PeelFirst, PeelLast, WrongGuess):
        for l in lists:
            l.capture = None
        for h in cellh:
            h.leave()
        restore(ctx, log2, get, setv, vars0)
        for h in havocs:
            h.slot.write(h.old)
        restore(ctx, log, get, setv, vars0)
        ctx.pc = pc0
        ctx._entail_cache.clear()
        HOOKS.ranges.pop(k.name, None)
        raise
    if "single" in (lp.mode, lp2.mode):
        for q, l in (("first", lp), ("any", lp2)):
            if l.taken:
                ctx.explorer.mixed.setdefault(f"{q}|{l.prefix}", set()).add(str(l.taken))
        raise PathAbort()
    # facts assumed in the generic iteration do not hold outside (except globally decided ones,
    # which do not mention k)
    ctx.pc = [f for f in ctx.pc if k.name not in deep_consts(f)]
    ctx.pc = [f for f in ctx.pc if not f.eq(E.boolz(Ex.of(n) >= 1))] if not any(
        f.eq(E.boolz(Ex.of(n) >= 1)) for f in pc0) else ctx.pc
    ctx._entail_cache.clear()
    # ---------------------------------------------------------------- solve
    unknowns = []
    for h in havocs:
        unknowns += h.unknown(news[h])
    for h, content in results:
        unknowns.append(h.unknown(content))
    sol = Solver(ctx, k, n, unknowns)
    sol.solve()
    fix = sol.apply
    gen = Generaliser(k, mark, fix)
    # ---------------------------------------------------------------- final state
    for h in cellh:
        h.leave()
    for h, content in results:
        u = h.u
        h.cell.write(sol.final_content(u))
    for h in havocs:
        h.finish(sol, gen, news[h])
    for l, items in captured:
        l.capture = None
        list.clear(l)
        old = log.lists[id(l)]
        list.extend(l, old[1])
        l.sym = old[2]
        base = as_seq(l).segs
        l._mut()
        if len(items) == 1:
            seg = [("s", Ex.of(n), lambda j, x=items[0]: gen.at(x, j))]
        elif not items:
            seg = []
        else:
            seg = [("s", Ex.of(n) * len(items), lambda j, xs=items: Interleaved.get(xs, gen, j))]
        if seg or l.sym is not None:
            list.clear(l)
            l.sym = Seq(base + seg)
            if l.sym.concrete() is not None:
                list.extend(l, l.sym.concrete())
                l.sym = None
    for lst in (log2.lists, log.lists):
        pass


class Interleaved:
    """Several appends per iteration."""

    @staticmethod
    def get(xs, gen, j):
        j = Ex.of(j)
        m = len(xs)
        if j.is_const():
            return gen.at(xs[int(j.value()) % m], Ex.const(int(j.value()) // m))
        raise Unsupported("several appends per iteration")


HFUNS: dict = {}  # function symbol -> (unknown, index structure)


def template(i, flat):
    if isinstance(i, int):
        i = Ex.const(i)
    if isinstance(i, Ex):
        flat.append(i)
        return "."
    return tuple(x if isinstance(x, (str, int)) and q < (2 if i[0] == "c" else 1) else template(x, flat)
                 for q, x in enumerate(i))


def untemplate(t, flat):
    if t == ".":
        return flat.pop(0)
    return tuple(x if q < (2 if t[0] == "c" else 1) else untemplate(x, flat) for q, x in enumerate(t))


class Unknown:
    """A havocked scalar or tensor content: atoms H(k, idx...)."""

    count = 0

    def __init__(self, name, sort, init, arity):
        Unknown.count += 1
        self.name, self.sort, self.num = name, sort, Unknown.count
        self.funs = {}  # index structure -> function symbol
        self.init, self.arity = init, arity
        self.new = None

    def atom(self, k, idx=()):
        flat = []
        tmpl = tuple(template(i, flat) for i in idx)
        f = self.funs.get(tmpl)
        if f is None:
            f = self.funs[tmpl] = E.Fun(f"H{self.num}.{len(self.funs)}:{self.name}", self.sort)
            HFUNS[id(f)] = (self, tmpl, f)
        return E.mk(f, (Ex.of(k),) + tuple(flat))


class Havoc:
    """A variable assigned in a loop body."""

    cell = None

    def __init__(self, slot, old):
        self.slot, self.old = slot, old

    @staticmethod
    def make(ctx, k, n, slot, old, new):
        if isinstance(old, (int, float, Ex)) and not isinstance(old, bool) \
                and isinstance(new, (int, float, Ex)) and not isinstance(new, bool):
            return ScalarHavoc(k, slot, old, new)
        if isinstance(old, T) and isinstance(new, T) and Shape(old.dims).key == Shape(new.dims).key:
            return TensorHavoc(k, slot, old)
        return OtherHavoc(slot, old, new)


class ScalarHavoc(Havoc):
    def __init__(self, k, slot, old, new):
        super().__init__(slot, old)
        integer = Ex.of(old).is_int_sorted() and Ex.of(new).is_int_sorted() and \
            not isinstance(old, float) and not isinstance(new, float)
        self.u = Unknown(slot.name, "I" if integer else "R", lambda: Ex.of(old), 0)
        self.k = k
        self.inc = None

    def make_guess(self, old, new):
        """A counter: value at the start of iteration k = initial value + sum of the increments
        (confirmed after the generic iteration)."""
        inc = Ex.of(new) - Ex.of(old)
        if self.u.sort == "I" and not any(a.fun is not None and (a.fun.name.startswith("wild") or id(a.fun) in HFUNS)
                                          for a in E.atoms_of(inc)):
            self.inc = inc

    def value(self, k):
        return Ex.of(self.old) + E.Sum(k, lambda j: E.subst(self.inc, {self.k.name: j}))

    def confirmed(self, new):
        return self.inc is None or isinstance(new, (int, Ex)) and (
            Ex.of(new) - self.value(Ex.atom(self.k)) - self.inc).is_zero()

    def enter(self):
        self.slot.write(simp(self.value(Ex.atom(self.k))) if self.inc is not None else self.u.atom(Ex.atom(self.k)))

    def unknown(self, new):
        if self.inc is not None:
            return []
        if not isinstance(new, (int, float, Ex)):
            raise Unsupported("change of type in a loop")
        self.u.new = lambda: Ex.of(new)
        self.u.structure = ()
        return [self.u]

    def finish(self, sol, gen, new):
        self.slot.write(simp(sol.final(self.u) if self.inc is None else self.value(sol.n)))


class TensorHavoc(Havoc):
    def __init__(self, k, slot, old):
        super().__init__(slot, old)
        self.k = k
        snap = old.snapshot()
        self.u = Unknown(slot.name, "R", lambda *i: snap(*i), len(old.dims))

    def enter(self):
        K = Ex.atom(self.k)
        t = type(self.old).make(self.old.dims, lambda *i: self.u.atom(K, i), self.old.dtype_,
                                self.old.device_)
        self.content0 = t.cell.content
        self.cell = t.cell
        self.cell.serial = 0
        self.slot.write(t)

    def unknown(self, new):
        if not isinstance(new, T) or Shape(new.dims).key != Shape(self.old.dims).key:
            raise Unsupported("change of shape in a loop")
        self.u.new = new.snapshot()
        self.u.dims = self.old.dims
        return [self.u]

    def finish(self, sol, gen, new):
        fin = sol.final_content(self.u)
        if isinstance(new, T) and new.cell is self.cell and new.fwd is None:
            # the variable stayed bound to the same tensor
            pass
        t = type(self.old).make(self.old.dims, fin, new.dtype_, new.device_)
        self.slot.write(t)


class OtherHavoc(Havoc):
    """No description of the value at the start of an iteration; at the end it is the last
    iteration's one."""

    def __init__(self, slot, old, new):
        super().__init__(slot, old)
        self.new = new

    def enter(self):
        if self.old is UNDEF and isinstance(self.slot, VarSlot):
            self.slot.write(UNDEF)
        elif isinstance(self.slot, DictSlot) or self.old is None or self.old is UNDEF:
            # a first iteration behaves differently
            self.slot.write(NeedPeel())
        else:
            self.slot.write(Poison(self.slot.name))

    def unknown(self, new):
        self.carried = isinstance(new, (NeedPeel, Poison))
        return []

    def finish(self, sol, gen, new):
        if self.carried:
            self.slot.write(self.old)
            return
        n = sol.n
        self.slot.write(LastValue.make(sol, gen, new, self.old))


class LastValue:
    @staticmethod
    def make(sol, gen, new, old):
        try:
            return gen.at(new, sol.n - 1)
        except Unsupported as e:
            return Poison(str(e))


class NeedPeel(Poison):
    """Use requires that the first iteration is treated separately."""

    def __init__(self):
        object.__setattr__(self, "what", "a value")

    def _bad(self, *a):
        raise PeelFirst()

    def __getattr__(self, k):
        raise PeelFirst()

    def __bool__(self):
        raise PeelFirst()

    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __iter__ = __len__ = _bad
    __getitem__ = __call__ = __matmul__ = __truediv__ = __eq__ = __lt__ = __gt__ = _bad
    __hash__ = object.__hash__


class CellHavoc:
    """A tensor that existed before the loop and is written in place in its body."""

    def __init__(self, ctx, k, cell):
        self.cell, self.k = cell, k
        self.old = cell.content
        old = cell.content
        self.u = Unknown(cell.name or "cell", "R", lambda *i: old(*i), None)

    def enter(self):
        K = Ex.atom(self.k)
        self.cell.content = TT.memoised(lambda *i: self.u.atom(K, self.note(i)))

    def note(self, i):
        return i

    def leave(self):
        self.cell.content = self.old

    def unknown(self, content):
        self.u.new = content
        return self.u


class Solver:
    """Closed forms of the havocked quantities (induction over the iterations).

    Every unknown satisfies u(0) = init and u(k+1) = new(k) where ``new`` is the value computed
    by the generic iteration.  Additive recurrences u(k+1) = u(k) + d(k) have the solution
    init + sum_{j<k} d(j); if new(k) does not depend on u, then u(k+1) = new(k).
    Other recurrences are described by function symbols that are identified by the
    recurrence's normal form.
    """

    def __init__(self, ctx, k, n, unknowns):
        self.ctx, self.k, self.n = ctx, k, Ex.of(n)
        self.K = Ex.atom(k)
        self.us = unknowns
        self.mine = {id(u) for u in unknowns}
        self.memo = {}

    # The solution of an unknown is described per index; its kind is decided on generic indices
    # when first needed.
    def solve(self):
        for u in self.us:
            u.solution = None
            u.busy = False
            u.solmemo = {}

    def known(self, a):
        """The unknown of this loop that atom a belongs to."""
        if a.fun is None:
            return None
        h = HFUNS.get(id(a.fun))
        return h if h is not None and id(h[0]) in self.mine else None

    def hatoms(self, x):
        return {a for a in E.atoms_of(x) if self.known(a) is not None}

    def at(self, u, t, idx):
        """Value of u before iteration t (t = n: after the loop)."""
        t = Ex.of(t)
        key = (t.key,) + tuple(TT._ikey(i) for i in idx)
        r = u.solmemo.get(key)
        if r is not None:
            return r
        if t.is_zero():
            r = Ex.of(u.init(*idx))
            u.solmemo[key] = r
            return r
        nk = self.resolve(u, idx)
        kind, val = nk
        if kind == "add":
            r = Ex.of(u.init(*idx)) + E.Sum(t, lambda j: E.subst(val, {self.k.name: j}))
        elif kind == "set":
            # value of the previous iteration
            prev = E.subst(val, {self.k.name: t - 1})
            if self.positive(t):
                r = prev
            else:
                init = Ex.of(u.init(*idx))
                if init.same(prev):
                    r = init
                elif t.same(self.n) and not self.ctx.loops and not self.ctx.nofork:
                    r = prev if bool(t >= 1) else init
                else:
                    r = E.guard_ge0(t - 1) * prev + E.guard_ge0(-t) * init
        else:
            raise Unsupported("recurrence")
        u.solmemo[key] = r
        return r

    def positive(self, t):
        return HOOKS.entails(E.z3of(t) >= 1)

    def resolve(self, u, idx):
        """("add", d) or ("set", v) at these indices with all unknowns eliminated."""
        key = ("res",) + tuple(TT._ikey(i) for i in idx)
        r = u.solmemo.get(key)
        if r is not None:
            return r
        mark = ("busy",) + key
        if mark in u.solmemo:
            raise Stuck(u)
        u.solmemo[mark] = True
        try:
            new = Ex.of(u.new(*idx))
            own = u.atom(self.K, idx)
            d = new - own
            oa = own.single_atom()
            if oa not in self.hatoms(d):
                r = ("add", self.eliminate(d))
            elif oa not in self.hatoms(new):
                r = ("set", self.eliminate(new))
            else:
                raise Stuck(u)
        finally:
            del u.solmemo[mark]
        # "add" with d = -own + ... cannot happen; "set" is preferred if both apply
        u.solmemo[key] = r
        return r

    def eliminate(self, x):
        if not self.hatoms(x):
            return x

        def f(a):
            h = self.known(a)
            if h is None:
                return None
            args = [E.map_atoms(y, f) for y in a.args]
            if a.ders:
                raise Unsupported("derivative of a loop-carried quantity")
            flat = list(args[1:])
            return self.at(h[0], args[0], tuple(untemplate(t, flat) for t in h[1]))

        return E.map_atoms(x, f)

    def apply(self, x):
        """Replace all havoc atoms by their solutions (at the generic iteration)."""
        return self.eliminate(x)

    def final(self, u, idx=()):
        try:
            return self.at(u, self.n, idx)
        except Stuck:
            return self.recurrence(u, idx)

    def final_content(self, u):
        return TT.memoised(lambda *idx: self.final(u, idx))

    def recurrence(self, u, idx):
        raise Unsupported(f"no closed form for {u.name}")


class Stuck(E.Internal):
    def __init__(self, u):
        self.u = u


# ----------------------------------------------------------------------------------
# comprehensions
# ----------------------------------------------------------------------------------
def comp(kind, it, fn):
    """fn(x) -> list with zero or more results for one element."""
    if kind == "gen":
        if needs_seq(it):
            return GenLazy(as_seq(it), fn)
        return gen_concrete(it, fn)
    if not needs_seq(it):
        out = []
        if isinstance(it, VList):
            it._read()
        for x in it:
            out += list(fn(x))
        if kind == "list":
            return VList(out)
        if kind == "set":
            return VSet(out)
        return VDict(out)
    segs = []
    for g in as_seq(it).segs:
        if g[0] == "c":
            out = []
            for x in g[1]:
                out += list(fn(x))
            segs.append(("c", out))
        else:
            segs.append(comp_generic(g[1], g[2], fn))
    s = Seq(segs)
    if kind == "list":
        return VList(s)
    if kind == "set":
        return VSet(s)
    raise Unsupported("dictionary with an unknown number of entries")


def gen_concrete(it, fn):
    for x in it:
        yield from fn(x)


def comp_generic(n, get, fn):
    """Segment of fn applied to a generic element; side effects are handled as in loops."""
    out = VList()

    def body(x):
        r = fn(x)
        if not isinstance(r, (list, VList)):
            r = list(r)
        if len(r) != 1:
            raise Unsupported("filtered comprehension over a list of unknown length")
        out.append(r[0])

    sym_loop(Ex.of(n), get, body, lambda: {}, lambda d: None, "comp")
    s = as_seq(out)
    if len(s.segs) == 1:
        return s.segs[0]
    if not s.segs:
        return ("c", [])
    return ("m", s)


# patched Seq constructor handles "m" (several segments)
_seq_init = Seq.__init__


def _init(self, segs):
    flat = []
    for g in segs:
        flat += g[1].segs if g[0] == "m" else [g]
    _seq_init(self, flat)


Seq.__init__ = _init


# ----------------------------------------------------------------------------------
# built-ins
# ----------------------------------------------------------------------------------
class Stub:
    """Base of objects that stand for parts of libraries."""


def b_len(x):
    if isinstance(x, VList):
        if x.capture is not None:
            x._read()
        return x.sym.length() if x.sym is not None else list.__len__(x)
    if isinstance(x, Seq):
        return x.length()
    if isinstance(x, VSet):
        return x.length()
    if isinstance(x, SymRange):
        return x.seq().length()
    if isinstance(x, Shape):
        return x.vc_len()
    if isinstance(x, T):
        return x.shape[0]
    if hasattr(x, "vc_len"):
        return x.vc_len()
    return builtins.len(x)


def _shape_len(self):
    r = self.rank()
    return r if isinstance(r, int) else (simp(r) if isinstance(r, Ex) else r)


Shape.vc_len = _shape_len


def b_sum(xs, start=0):
    if not needs_seq(xs):
        r = start
        for x in xs:
            r = r + x
        return r
    r = start
    if isinstance(xs, GenLazy):
        # evaluate lazily as a loop
        acc = {"r": start}

        def body(x):
            for y in xs.fn(x):
                acc["r"] = acc["r"] + y

        loop(xs.src, body, lambda: dict(acc), acc.update, "sum")
        return acc["r"]
    for g in as_seq(xs).segs:
        if g[0] == "c":
            for x in g[1]:
                r = r + x
        else:
            acc = {"r": r}

            def body(x):
                acc["r"] = acc["r"] + x

            sym_loop(g[1], g[2], body, lambda: dict(acc), acc.update, "sum")
            r = acc["r"]
    return r


def quantify(xs, universal):
    """all/any over a symbolic sequence as a boolean."""
    ctx = Ctx.cur
    src = xs.src if isinstance(xs, GenLazy) else as_seq(xs)
    fn = xs.fn if isinstance(xs, GenLazy) else (lambda x: [x])
    acc = universal
    for g in src.segs:
        if g[0] == "c":
            for x in g[1]:
                for y in fn(x):
                    if bool(y) != universal:
                        return not universal
            continue
        k = E.fresh("q", "I")
        HOOKS.ranges[k.name] = Ex.of(g[1])
        K = Ex.atom(k)
        rng = z3.And(E.z3of(K) >= 0, E.z3of(K) < E.z3of(g[1]))

        def one():
            bs = [truth(y) for y in fn(g[2](K))]
            return z3.And(*bs) if universal else z3.Or(*bs)

        paths = explore_local(ctx, {k.name}, one)
        z = z3.simplify(z3.Or(*[z3.And(c, v) for c, v in paths]))
        if z3.is_true(z) if universal else z3.is_false(z):
            continue
        if ctx.entails(z if universal else z3.Not(z), [rng]):
            continue
        f = forall(k, g[1], z if universal else z3.Not(z))
        if f is None:
            f = z3.Bool(f"opq<{z.sexpr()}|{Ex.of(g[1]).key}>".replace(k.name, "%k"))
        if k.name not in deep_consts(z):
            f = z3.Or(E.z3of(g[1]) <= 0, z if universal else z3.Not(z))
        b = SymBool(f if universal else z3.Not(f))
        if bool(b) != universal:
            return not universal
    return acc


def truth(y):
    if isinstance(y, SymBool):
        return y.z
    if isinstance(y, T) and all(TT.is_one(d) for d in y.dims):
        y = y.scalar()
    if isinstance(y, Ex):
        return E.boolz(y != 0)
    return z3.BoolVal(bool(y))


def b_all(xs):
    if needs_seq(xs):
        return quantify(xs, True)
    for x in xs:
        if not x:
            return False
    return True


def b_any(xs):
    if needs_seq(xs):
        return quantify(xs, False)
    for x in xs:
        if x:
            return True
    return False


def b_zip(*its, strict=False):
    if not any(needs_seq(i) for i in its):
        return builtins.zip(*[list.__iter__(i) if isinstance(i, VList) else i for i in its], strict=strict)
    ss = [as_seq(i) for i in its]
    n = Ex.of(ss[0].length())
    for s in ss[1:]:
        m = Ex.of(s.length())
        if m.same(n):
            continue
        if not bool(m == n):
            if strict:
                raise ValueError("zip() arguments have different lengths")
            if bool(m < n):
                n = m
    return Seq.sym(n, lambda i: tuple(s.get(i) for s in ss))


def b_enumerate(it, start=0):
    if not needs_seq(it):
        return builtins.enumerate(it, start)
    s = as_seq(it)
    return Seq.sym(s.length(), lambda i: (simp(i + start), s.get(i)))


def b_range(*a):
    a = [x.scalar() if isinstance(x, T) else x for x in a]
    if all(isinstance(x, int) or (isinstance(x, Ex) and x.is_const()) for x in a):
        return builtins.range(*[int(x) for x in a])
    return SymRange(*a)


def _minmax(f, less):
    def g(*a, key=None, default=None):
        if len(a) == 1:
            s = as_seq(a[0])
            c = s.concrete()
            if c is None:
                raise Unsupported("min/max over a list of unknown length")
            a = c
        if key is not None:
            raise Unsupported("min/max with key")
        r = a[0]
        for x in a[1:]:
            if isinstance(r, (Ex, T)) or isinstance(x, (Ex, T)):
                r = x if bool((x < r) if less else (x > r)) else r
            else:
                r = f(r, x)
        return r
    return g


b_min, b_max = _minmax(builtins.min, True), _minmax(builtins.max, False)


def b_abs(x):
    return abs(x)


_INT = (int, Ex)


def b_isinstance(x, t):
    if isinstance(t, VList):
        t = tuple(t)
    if isinstance(t, tuple):
        return any(b_isinstance(x, u) for u in t)
    if hasattr(t, "vc_instancecheck"):
        return t.vc_instancecheck(x)
    if isinstance(x, Ex):
        if t is int or (t is float and not x.is_int_sorted()):
            return t is float or x.is_int_sorted()
        return t is object
    if isinstance(x, Seq):
        return t in (list, object)
    if isinstance(x, VSet):
        return t in (set, object)
    if isinstance(x, Shape) and t is tuple:
        return True
    if hasattr(t, "vc_instancecheck"):
        return t.vc_instancecheck(x)
    if isinstance(t, StubAttr):
        return False
    if isinstance(t, types.GenericAlias):
        raise TypeError("isinstance() argument 2 cannot be a parameterized generic")
    return builtins.isinstance(x, t)


class StubAttr(Stub):
    """An unknown name of a library: any use is out of reach."""

    def __init__(self, name):
        object.__setattr__(self, "_name", name)

    def __call__(self, *a, **k):
        raise Unsupported(f"call of {self._name}")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return StubAttr(f"{self._name}.{k}")

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __mro_entries__(self, bases):
        raise Unsupported(f"subclass of {self._name}")

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"<{self._name}>"


def b_list(x=()):
    if isinstance(x, VDict) or isinstance(x, dict):
        return VList(list(x))
    return VList(as_seq(x)) if not isinstance(x, (str,)) else VList(list(x))


def b_tuple(x=()):
    if isinstance(x, Shape):
        return x
    if isinstance(x, dict):
        return tuple(dict.keys(x))
    s = as_seq(x)
    c = s.concrete()
    if c is None:
        r = VList(s)
        r.frozen = True
        return r
    if any(isinstance(v, TT.Ones) for v in c):
        return Shape(c)
    return tuple(c)


def b_set(x=()):
    if isinstance(x, dict):
        x = list(x)
    if hasattr(x, "vc_set"):
        return x.vc_set()
    return VSet(x)


def b_sorted(x, key=None, reverse=False):
    c = as_seq(x).concrete()
    if c is None or any(isinstance(v, (Ex, T)) for v in c):
        raise Unsupported("sorting symbolic values")
    return VList(sorted(c, key=key, reverse=reverse))


def b_reversed(x):
    s = as_seq(x)
    c = s.concrete()
    if c is not None:
        return iter(list(reversed(c)))
    n = Ex.of(s.length())
    return Seq.sym(n, lambda i: s.get(n - 1 - i))


def b_map(f, *its):
    if any(needs_seq(i) for i in its):
        return GenLazy(as_seq(b_zip(*its)), lambda t: [f(*t)])
    return builtins.map(f, *its)


def b_filter(f, it):
    if needs_seq(it):
        raise Unsupported("filter of a list of unknown length")
    return builtins.filter(f, it)


class Iter:
    def __init__(self, seq):
        self.seq, self.pos = seq, 0


def b_iter(x):
    if needs_seq(x):
        return Iter(as_seq(x))
    return builtins.iter(x)


def b_next(it, *default):
    if isinstance(it, Iter):
        i, n = it.pos, Ex.of(it.seq.length())
        if not bool(n > i):
            if default:
                return default[0]
            raise StopIteration
        it.pos += 1
        return it.seq.get(Ex.const(i))
    if isinstance(it, GenLazy):
        s = as_seq(it)
        return s.get(ZERO)
    return builtins.next(it, *default)


def b_float(x=0.0):
    if isinstance(x, (Ex,)):
        return x
    if isinstance(x, T):
        return x.scalar()
    return builtins.float(x)


def b_int(x=0, *a):
    if isinstance(x, T):
        x = x.scalar()
    if isinstance(x, Ex):
        if x.is_int_sorted():
            return x
        raise Unsupported("truncation of a real number")
    return builtins.int(x, *a)


def b_bool(x=False):
    return builtins.bool(x)


def b_type(x, *a):
    if a:
        return builtins.type(x, *a)
    if isinstance(x, VList) and type(x) is VList:
        return list
    if isinstance(x, VDict):
        return dict
    return builtins.type(x)


def b_print(*a, **k):
    return None


def b_round(x, *a):
    if isinstance(x, (Ex, T)):
        raise Unsupported("rounding")
    return builtins.round(x, *a)


def b_dict(*a, **k):
    return VDict(*[list(x.items()) if isinstance(x, dict) else list(as_seq(x).concrete()) for x in a], **k)


def b_getattr(o, k, *d):
    return builtins.getattr(o, k, *d)


def b_id(x):
    return builtins.id(x)


def contains(x, c):
    if isinstance(c, VSet):
        return c.__contains__(x)
    if isinstance(c, dict):
        if isinstance(x, (Ex, SymBool)):
            raise Unsupported("symbolic dictionary key")
        return c.__contains__(x)
    if isinstance(c, (set, frozenset)):
        c = list(c)
    if isinstance(c, str):
        return x in c
    if isinstance(c, (list, tuple)) or is_symbolic(c):
        s = as_seq(c)
        cc = s.concrete()
        if cc is not None:
            for y in cc:
                if x is y:
                    return True
                if type(x) is type(y) and isinstance(x, (str, int, float, type, TT.DType)) or isinstance(x, (Ex, int)) and isinstance(y, (Ex, int)):
                    if bool(x == y):
                        return True
                elif isinstance(x, T) and isinstance(y, T):
                    if x.is_(y):
                        return True
                    raise Unsupported("membership of tensors")
                elif not isinstance(x, (T, Ex)) and not isinstance(y, (T, Ex)) and x == y:
                    return True
            return False
        return quantify(GenLazy(s, lambda y: [x == y]), False)
    return x in c


def star(x):
    if isinstance(x, Shape):
        return x.star()
    if isinstance(x, VList):
        if x.sym is not None:
            return star_segs(as_seq(x))
        return list(list.__iter__(x))
    c = as_seq(x).concrete() if needs_seq(x) or isinstance(x, Seq) else list(x)
    if c is None:
        return StarSeq.fail()
    return c


def star_segs(s):
    """Arguments; ``n * [1]`` for an unknown n becomes one marker (for shapes)."""
    out = []
    for g in s.segs:
        if g[0] == "c":
            out += list(g[1])
            continue
        v = g[2](E.fresh("u", "I"))
        if isinstance(v, (int, Ex)) and Ex.of(v).same(ONE):
            out.append(TT.Ones(Ex.of(g[1])))
        else:
            return StarSeq.fail()
    return out


class StarSeq:
    @staticmethod
    def fail():
        raise Unsupported("unpacking of a list of unknown length")


def unpack_iter(x, n=None):
    """Right-hand side of a tuple assignment."""
    if isinstance(x, T) and n is not None and x.dims and not TT.is_one(x.dims[0]):
        size = x.dims[0].size
        if not size.is_const():
            TT.require(size == n, ValueError, f"{n} values to unpack")
            return tuple(x[k] for k in range(n))
    if isinstance(x, Shape):
        return tuple(x)
    if needs_seq(x) or isinstance(x, (Seq, VSet)):
        c = as_seq(x).concrete()
        if c is None:
            raise Unsupported("unpacking of a list of unknown length")
        return tuple(c)
    return x


def mktuple(items):
    items = tuple(items)
    if any(isinstance(i, (TT.Dim, TT.Ones)) for i in items):
        return Shape(items)
    return items


def while_(cond, body, get, setv, label):
    """Concrete while loop; counting loops over a growing list are treated generically."""
    for _ in range(10000):
        c = cond()
        if isinstance(c, SymBool):
            r = while_symbolic(cond, body, get, setv, label)
            return r
        if not c:
            return None
        r = body(None)
        if r is BRK or isinstance(r, RetSignal):
            return r
    raise Unsupported("long while loop")


def while_symbolic(cond, body, get, setv, label):
    raise Unsupported("while loop with a symbolic condition")


def contract_error(e):
    """Raise an exception which the library raises by its contract."""
    e.vc_contract = True
    raise e
