"""Symbolic scalar expressions in normal form.

An ``Ex`` is a finite sum of monomials with rational coefficients.  A monomial is a
(possibly empty) list of *bound* summation variables with their ranges, and a product
of atoms with rational exponents::

    sum_{i < n} sum_{j < m(i)}  coef * a1^e1 * a2^e2 * ...

Every operation returns a normal form (associativity, commutativity, distributivity,
renaming of bound variables, Kronecker deltas eliminated against sums).  Two
expressions with identical normal forms are equal for all interpretations of their
atoms; the converse does not hold.
"""
from __future__ import annotations

import itertools
from fractions import Fraction
from functools import lru_cache

import z3


class Internal(BaseException):
    """Not an exception of the code under verification."""


class Unsupported(Internal):
    """The construct is outside of the verifier's reach (never a verdict)."""


class PathAbort(Internal):
    """The current path is infeasible or has been cut."""


# ----------------------------------------------------------------------------------
# Atoms
# ----------------------------------------------------------------------------------
class Fun:
    """An uninterpreted (or specially simplified) function symbol.

    sort: 'R' or 'I' ; positive: value known to be > 0 ; nonneg
    deps: frozenset of variable-family names on which values of the function depend
          implicitly (used for differentiation).
    sym: tuple of groups of argument positions that may be permuted jointly;
         e.g. symmetric matrices: ((0,),(1,))
    """

    _table: dict = {}

    def __init__(self, name, sort="R", positive=False, deps=(), symgroups=None,
                 frozen=False, simp=None, nonneg=False):
        self.name, self.sort, self.positive = name, sort, positive
        self.deps = frozenset(deps)
        self.symgroups = symgroups
        self.frozen = frozen
        self.simp = simp
        self.nonneg = nonneg or positive
        self._frz = None
        self.base = self
        self.diff = None  # optional rule(atom, family, idx) -> Ex
        self.ev = None  # numeric evaluation for interpreted functions
        self.evlam = None  # the same for functions of tensors
        self.facts = None
        self.orth = ()  # (p, q): the sum of f(.., p: i, q: j) f(.., p: i, q: k) over i is delta(j, k)

    def freeze(self):
        if self.frozen or not self.deps:
            return self
        if self._frz is None:
            f = Fun(self.name, self.sort, self.positive, (), self.symgroups, True,
                    self.simp, self.nonneg)
            f.base = self
            f.ev = self.ev
            f.orth = self.orth
            self._frz = f
        return self._frz

    def __repr__(self):
        return self.name + ("~" if self.frozen else "")


class Atom:
    """kind 'sym' (fun=None) or application."""

    __slots__ = ("fun", "args", "ders", "key", "fv", "height", "sort", "positive",
                 "name", "deps", "__weakref__")
    _intern: dict = {}

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o or (isinstance(o, Atom) and self.key == o.key)

    def __repr__(self):
        return self.key

    def __lt__(self, o):
        return self.key < o.key


def _argkey(a):
    if isinstance(a, (Ex, Lam)):
        return a.key
    return repr(a)


def sym_atom(name, sort="R", positive=False):
    k = name
    a = Atom._intern.get(k)
    if a is not None:
        if a.sort != sort:
            raise AssertionError(f"sort clash for {name}")
        if positive and not a.positive:
            a.positive = True
        return a
    a = Atom()
    a.fun, a.args, a.ders, a.name = None, (), (), name
    a.key, a.fv, a.height, a.sort, a.positive = k, frozenset([name]), 0, sort, positive
    a.deps = frozenset()
    Atom._intern[k] = a
    return a


def app_atom(fun, args, ders=()):
    """Application of ``fun``; ``ders`` is a sorted multiset of derivative slots
    (family, idx-tuple-of-Ex)."""
    if fun.symgroups and not ders:
        groups = fun.symgroups
        ks = sorted(
            [tuple(args[p] for p in g) for g in groups],
            key=lambda t: tuple(_argkey(x) for x in t),
        )
        args = list(args)
        for g, vals in zip(groups, ks):
            for p, v in zip(g, vals):
                args[p] = v
    elif fun.symgroups and ders:
        groups = fun.symgroups
        ks = sorted([tuple(args[p] for p in g) for g in groups],
                    key=lambda t: tuple(_argkey(x) for x in t))
        args = list(args)
        for g, vals in zip(groups, ks):
            for p, v in zip(g, vals):
                args[p] = v
    args = tuple(args)
    ders = tuple(sorted(ders, key=lambda d: (d[0],) + tuple(_argkey(x) for x in d[1])))
    k = repr(fun) + "(" + ",".join(_argkey(a) for a in args) + ")"
    if ders:
        k += "".join("'%s[%s]" % (d[0], ",".join(_argkey(x) for x in d[1])) for d in ders)
    a = Atom._intern.get(k)
    if a is not None and a.fun is fun:
        return a
    if a is not None and a.fun is not None and a.fun is not fun:
        # same name, different Fun object (re-created in a later run): replace
        pass
    a = Atom()
    a.fun, a.args, a.ders, a.name = fun, args, ders, None
    a.key = k
    fv, h = set(), 0
    deps = set(fun.deps)
    for x in list(args) + [y for d in ders for y in d[1]]:
        if isinstance(x, (Ex, Lam)):
            fv |= x.fv
            h = max(h, x.height)
            if not fun.frozen:
                deps |= x.deps
    a.fv, a.height, a.sort = frozenset(fv), h, fun.sort
    a.deps = frozenset(deps)
    a.positive = fun.positive and not ders
    Atom._intern[k] = a
    return a


class Lam:
    """Tensor-valued argument: function of index variables."""

    __slots__ = ("vars", "sizes", "body", "key", "fv", "height", "deps")

    def __init__(self, sizes, fn):
        """fn(list of Ex index vars) -> Ex"""
        tmps = [fresh("lam", "I") for _ in sizes]
        for t, s in zip(tmps, sizes):
            HOOKS.ranges[t.name] = Ex.of(s)
        try:
            body = Ex.of(fn([Ex.atom(t) for t in tmps]))
        finally:
            for t in tmps:
                HOOKS.ranges.pop(t.name, None)
        h = 1 + max([body.height] + [s.height for s in sizes if isinstance(s, Ex)])
        names = [sym_atom(f"%{h}_{j}", "I") for j in range(len(tmps))]
        self.body = subst(body, {t.name: Ex.atom(n) for t, n in zip(tmps, names)})
        self.vars = tuple(n.name for n in names)
        self.sizes = tuple(sizes)
        # body height may have changed by canonicalisation, keep h consistent
        self.height = max(h, self.body.height + 0)
        self.key = "\\" + ",".join(f"{v}<{s.key}" for v, s in zip(self.vars, self.sizes)) + "." + self.body.key
        fv = set(self.body.fv) - set(self.vars)
        for s in self.sizes:
            fv |= s.fv
        self.fv = frozenset(fv)
        self.deps = self.body.deps

    def apply(self, idx):
        return subst(self.body, dict(zip(self.vars, idx)))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Lam) and o.key == self.key

    def __repr__(self):
        return self.key


# ----------------------------------------------------------------------------------
# fresh names
# ----------------------------------------------------------------------------------
_counter = itertools.count()
_COUNTS: dict = {}


def reset_fresh():
    _COUNTS.clear()


def fresh(prefix, sort="R", positive=False):
    """Temporary, globally unique symbol (never visible in canonical keys)."""
    return sym_atom(f"?{prefix}{next(_counter)}", sort, positive)


def fresh_named(prefix, sort="R", positive=False):
    """Symbol whose name is reproducible over re-executions."""
    c = _COUNTS.get(prefix, 0)
    _COUNTS[prefix] = c + 1
    return sym_atom(f"{prefix}#{c}", sort, positive)


# ----------------------------------------------------------------------------------
# hooks set by the context: proving integer facts
# ----------------------------------------------------------------------------------
class _Hooks:
    ranges: dict = {}  # name -> size Ex (0 <= name < size)

    @staticmethod
    def entails(zf, extra=()):
        return False


HOOKS = _Hooks()


# ----------------------------------------------------------------------------------
# Monomials and expressions
# ----------------------------------------------------------------------------------
class Mono:
    __slots__ = ("bvs", "facs", "key", "fv", "height", "deps")

    def __init__(self, bvs, facs):
        self.bvs = bvs  # tuple of (name, size Ex)
        self.facs = facs  # tuple of (Atom, Fraction), sorted
        k = "*".join(a.key if e == 1 else f"{a.key}^{e}" for a, e in facs)
        if bvs:
            k = "S{" + ",".join(f"{n}<{s.key}" for n, s in bvs) + "}" + k
        self.key = k
        fv, h, deps = set(), 0, set()
        for a, _ in facs:
            fv |= a.fv
            h = max(h, a.height)
            deps |= a.deps
        for n, s in bvs:
            fv |= s.fv
            h = max(h, s.height)
        if bvs:
            h += 1
        self.fv = frozenset(fv - {n for n, _ in bvs})
        self.height = h
        self.deps = frozenset(deps)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self.key == o.key

    def __repr__(self):
        return self.key


ONE_MONO = Mono((), ())


class Ex:
    __slots__ = ("terms", "_key", "_fv", "_height", "_deps", "dim", "_hash", "struct")

    def __init__(self, terms):
        self.terms = terms
        self._key = self._fv = self._height = self._deps = None
        self.dim = self.struct = None

    # -- construction
    @staticmethod
    def const(c):
        c = to_fraction(c)
        return Ex({ONE_MONO: c} if c else {})

    @staticmethod
    def atom(a, e=1):
        return Ex({Mono((), ((a, Fraction(e)),)): Fraction(1)})

    @staticmethod
    def of(x):
        if isinstance(x, Ex):
            return x
        if isinstance(x, Atom):
            return Ex.atom(x)
        if isinstance(x, bool):
            return Ex.const(int(x))
        if isinstance(x, (int, float, Fraction)):
            return Ex.const(x)
        if hasattr(x, "__ex__"):
            return x.__ex__()
        raise Unsupported(f"cannot convert {type(x)} to expression")

    # -- cached attributes
    @property
    def key(self):
        if self._key is None:
            items = sorted((m.key, c) for m, c in self.terms.items())
            self._key = "+".join((k if c == 1 and k else f"{c}*{k}" if k else str(c)) for k, c in items) or "0"
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.terms:
                s |= m.fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def deps(self):
        if self._deps is None:
            s = set()
            for m in self.terms:
                s |= m.deps
            self._deps = frozenset(s)
        return self._deps

    @property
    def height(self):
        if self._height is None:
            self._height = max((m.height for m in self.terms), default=0)
        return self._height

    def is_const(self):
        return all(m is ONE_MONO or m == ONE_MONO for m in self.terms)

    def value(self):
        return self.terms.get(ONE_MONO, Fraction(0)) if self.terms else Fraction(0)

    def is_zero(self):
        return not self.terms

    def is_int_sorted(self):
        for m, c in self.terms.items():
            if c.denominator != 1:
                return False
            for a, e in m.facs:
                if a.sort != "I" or e.denominator != 1 or e < 0:
                    return False
        return True

    def single_atom(self):
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if c == 1 and not m.bvs and len(m.facs) == 1 and m.facs[0][1] == 1:
                return m.facs[0][0]
        return None

    def same(self, o):
        return self.key == Ex.of(o).key

    def __hash__(self):
        return hash(self.key)

    # -- arithmetic
    def __add__(self, o):
        if not isinstance(o, (Ex, int, float, Fraction)):
            return NotImplemented
        o = Ex.of(o)
        if not o.terms:
            return self
        if not self.terms:
            return o
        t = dict(self.terms)
        for m, c in o.terms.items():
            c2 = t.get(m, 0) + c
            if c2:
                t[m] = c2
            else:
                t.pop(m, None)
        return Ex(t)

    __radd__ = __add__

    def __neg__(self):
        return Ex({m: -c for m, c in self.terms.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not isinstance(o, (Ex, int, float, Fraction)):
            return NotImplemented
        return self + (-Ex.of(o))

    def __rsub__(self, o):
        return Ex.of(o) + (-self)

    def scale(self, c):
        c = to_fraction(c)
        if not c:
            return ZERO
        return Ex({m: k * c for m, k in self.terms.items()})

    def __mul__(self, o):
        if not isinstance(o, (Ex, int, float, Fraction)):
            return NotImplemented
        o = Ex.of(o)
        if o.is_const():
            return self.scale(o.value())
        if self.is_const():
            return o.scale(self.value())
        if len(self.terms) * len(o.terms) > 4000:
            raise Unsupported("expression too large")
        acc = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                for m, c in mono_mul(m1, m2).terms.items():
                    v = acc.get(m, 0) + c * c1 * c2
                    if v:
                        acc[m] = v
                    else:
                        acc.pop(m, None)
        return Ex(acc)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, (Ex, int, float, Fraction)):
            return NotImplemented
        return self * power(Ex.of(o), Fraction(-1))

    def __rtruediv__(self, o):
        return Ex.of(o) * power(self, Fraction(-1))

    def __pow__(self, e):
        if isinstance(e, Ex):
            if e.is_const():
                e = e.value()
            else:
                return Ex.atom(app_atom(POWF, (self, e)))
        return power(self, to_fraction(e))

    def __rpow__(self, b):
        return Ex.atom(app_atom(POWF, (Ex.of(b), self)))

    def __floordiv__(self, o):
        return idiv(self, Ex.of(o))

    def __rfloordiv__(self, o):
        return idiv(Ex.of(o), self)

    def __mod__(self, o):
        o = Ex.of(o)
        return self - idiv(self, o) * o

    def __rmod__(self, o):
        return Ex.of(o) % self

    def __abs__(self):
        if self.is_const():
            return Ex.const(abs(self.value()))
        return Ex.atom(app_atom(ABSF, (self,)))

    # -- comparisons give SymBool
    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        try:
            o = Ex.of(o)
        except Unsupported:
            return NotImplemented
        return cmp_zero("==", self - o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sym_not(r)

    def __lt__(self, o):
        return cmp_zero("<", self - _ofc(o))

    def __le__(self, o):
        return cmp_zero("<=", self - _ofc(o))

    def __gt__(self, o):
        return cmp_zero("<", _ofc(o) - self)

    def __ge__(self, o):
        return cmp_zero("<=", _ofc(o) - self)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        if self.is_const() and self.value().denominator == 1:
            return int(self.value())
        raise Unsupported(f"concrete integer required, got {self.key[:80]}")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        if self.is_const():
            return float(self.value())
        raise Unsupported("concrete float required")

    def __repr__(self):
        return self.key

    def __format__(self, spec):
        return self.key[:60]

    # numpy/torch scalar conveniences
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def item(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def copy(self):
        return self

    def is_integer(self):
        return self.is_int_sorted()


def _ofc(o):
    return Ex.of(o)


def to_fraction(c):
    if isinstance(c, Fraction):
        return c
    if isinstance(c, bool):
        return Fraction(int(c))
    if isinstance(c, int):
        return Fraction(c)
    if isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return Fraction(str(c))
    raise Unsupported(f"constant of type {type(c)}")


ZERO = Ex({})
ONE = Ex({ONE_MONO: Fraction(1)})


def add_all(xs):
    acc = {}
    for x in xs:
        for m, c in Ex.of(x).terms.items():
            v = acc.get(m, 0) + c
            if v:
                acc[m] = v
            else:
                acc.pop(m, None)
    return Ex(acc)


# -- interpreted function symbols ---------------------------------------------------
POWF = Fun("pow")
ABSF = Fun("abs", nonneg=True)
IDIV = Fun("idiv", "I")
BASE = Fun("base")  # base(e) with exponent
DELTA = Fun("delta", "I", nonneg=True)  # [e == 0], e integer
GE0 = Fun("ge0", "I", nonneg=True)  # [e >= 0], e integer
EXPF = Fun("exp", positive=True)
LOGF = Fun("log")
CONDF = Fun("cond", "I", nonneg=True)  # [opaque boolean]; arg is a string key
for _f in (POWF, ABSF, IDIV, BASE, DELTA, GE0, EXPF, LOGF, CONDF):
    _f.builtin = True


def _factor_int(n):
    res, d = {}, 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            res[d] = res.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        res[n] = res.get(n, 0) + 1
    return res


def is_positive(e: Ex):
    """Syntactically positive?"""
    if not e.terms:
        return False
    for m, c in e.terms.items():
        if c <= 0 or not all(a.positive for a, _ in m.facs):
            return False
        if any(not is_positive(s) for _, s in m.bvs):
            return False
    return True


def power(b: Ex, q: Fraction) -> Ex:
    if q == 1:
        return b
    if q == 0:
        return ONE
    if q.denominator == 1 and q > 0:
        if q > 12:
            raise Unsupported("large power")
        r = b
        for _ in range(int(q) - 1):
            r = r * b
        return r
    if b.is_zero():
        if q > 0:
            return ZERO
        # division by zero: opaque value, never equal to anything useful
        return Ex.atom(app_atom(BASE, (ZERO,)), q)
    if len(b.terms) == 1:
        (m, c), = b.terms.items()
        if not m.bvs:
            if q.denominator == 1:
                return build(
                    (), [(a, e * q) for a, e in m.facs], c ** int(q)
                )
            if c > 0:
                pos = [(a, e * q) for a, e in m.facs if a.positive]
                rest = [(a, e) for a, e in m.facs if not a.positive]
                if rest:
                    # an even power outside a root must stay opaque
                    inner = build((), rest, Fraction(1))
                    at = inner.single_atom()
                    if at is not None:
                        rest_f = [(at, q)] if at.fun is not BASE else [(at, q)]
                    elif len(rest) == 1 and rest[0][0].fun is BASE and rest[0][1].denominator != 1:
                        rest_f = [(rest[0][0], rest[0][1] * q)]
                    else:
                        rest_f = [(app_atom(BASE, (inner,)), q)]
                else:
                    rest_f = []
                return build((), pos + rest_f + const_root(c, q), Fraction(1))
    # several terms or bound variables: extract rational content
    ks = sorted(b.terms.items(), key=lambda t: t[0].key)
    lead = ks[0][1]
    if q.denominator == 1 or lead > 0:
        nb = b.scale(1 / lead)
        if q.denominator == 1:
            cf, extra = lead ** int(q), []
        else:
            cf, extra = Fraction(1), const_root(lead, q)
    else:
        if all(c < 0 for c in b.terms.values()):
            nb = b
        else:
            nb = b
            pos = [c for c in b.terms.values() if c > 0]
            lead = pos[0]
            nb = b.scale(1 / lead)
            return build((), [(app_atom(BASE, (nb,)), q)] + const_root(lead, q), Fraction(1))
        cf, extra = Fraction(1), []
    # common atoms (bound-variable free terms only)
    if q.denominator == 1 and not any(m.bvs for m in nb.terms):
        every = {a for m in nb.terms for a, _ in m.facs}
        exps = {a: min(dict(m.facs).get(a, 0) for m in nb.terms) for a in every}
        common = {a: e for a, e in exps.items() if e > 0 or e < 0 and a.fun is EXPF}
        if common:
            inv = build((), [(a, -e) for a, e in common.items()], Fraction(1))
            nb = nb * inv
            extra = extra + [(a, e * q) for a, e in common.items()]
            if len(nb.terms) == 1:
                return power(nb, q) * build((), extra, cf)
    return build((), [(app_atom(BASE, (nb,)), q)] + extra, cf)


def const_root(c: Fraction, q: Fraction):
    """Factors of c**q, c > 0."""
    fs = []
    for p, k in _factor_int(c.numerator).items():
        fs.append((app_atom(BASE, (Ex.const(p),)), k * q))
    for p, k in _factor_int(c.denominator).items():
        fs.append((app_atom(BASE, (Ex.const(p),)), -k * q))
    return fs


def ex_product(facs):
    r = ONE
    for a, e in facs:
        r = r * power(Ex.atom(a), e)
    return r


def idiv(a: Ex, b: Ex) -> Ex:
    if b.is_const() and a.is_const() and b.value() != 0:
        return Ex.const(a.value() // b.value())
    if b.is_const() and b.value() == 1:
        return a
    if a.same(b):
        return ONE
    if len(a.terms) == 1 and len(b.terms) == 1 and next(iter(b.terms)).bvs:
        # the factors of a sum which do not depend on its variables
        (m, c), = a.terms.items()
        (m2, c2), = b.terms.items()

        def outer(m):
            bound = {n for n, _ in m.bvs}
            return ex_product([(f, e) for f, e in m.facs if not f.fv & bound])
        t = (outer(m) * power(outer(m2), Fraction(-1))).scale(c / c2)
        if t.is_int_sorted() and (t * b).same(a):
            return t
    # exact division by a monomial
    if len(b.terms) == 1 and not next(iter(b.terms)).bvs:
        r = a * power(b, Fraction(-1))
        if r.is_int_sorted():
            return r
        # a == t * b + rest with 0 <= rest < b ?
        t = ZERO
        for m, c in a.terms.items():
            if not m.bvs and (q := Ex({m: c}) * power(b, Fraction(-1))).is_int_sorted():
                t = t + q
        rest = a - t * b
        if HOOKS.entails(z3.And(z3of(rest) >= 0, z3of(rest) < z3of(b))):
            return t
    else:
        # a == t * b for a monomial t ?
        for m, c in b.terms.items():
            for m2, c2 in a.terms.items():
                try:
                    t = Ex({m2: c2}) * power(Ex({m: c}), Fraction(-1))
                except Unsupported:
                    continue
                if t.is_int_sorted() and (t * b).same(a):
                    return t
    return Ex.atom(app_atom(IDIV, (a, b)))


def mono_mul(m1: Mono, m2: Mono) -> Ex:
    if not m1.bvs and not m2.bvs:
        return build((), list(m1.facs) + list(m2.facs), Fraction(1))
    b1, f1 = open_mono(m1)
    b2, f2 = open_mono(m2)
    return build(b1 + b2, f1 + f2, Fraction(1))


def open_mono(m: Mono):
    """Rename bound variables apart. Returns (list of (Atom, size)), factors."""
    if not m.bvs:
        return [], list(m.facs)
    sub, bvs = {}, []
    for n, s in m.bvs:
        t = fresh("b", "I")
        bvs.append((t, subst(s, sub) if sub else s))
        sub[n] = Ex.atom(t)
    facs = []
    for a, e in m.facs:
        if a.fv & sub.keys():
            x = subst_atom(a, sub)
            sa = x.single_atom()
            if sa is None:
                raise AssertionError("renaming produced a non-atom")
            facs.append((sa, e))
        else:
            facs.append((a, e))
    return bvs, facs


# ----------------------------------------------------------------------------------
# build: canonical monomials from opened ones
# ----------------------------------------------------------------------------------
def build(bvs, facs, coef) -> Ex:
    """bvs: sequence of (Atom tmp, size Ex); facs: list of (Atom, exp)."""
    if coef == 0:
        return ZERO
    merged = {}
    expand = []
    for a, e in facs:
        if a.fun is DELTA or a.fun is GE0 or a.fun is CONDF:
            merged[a] = Fraction(1)
            continue
        v = merged.get(a, 0) + e
        if v:
            merged[a] = v
        else:
            merged.pop(a, None)
    # constants under BASE and integer powers of BASE
    again = False
    for a, e in list(merged.items()):
        if a.fun is BASE:
            inner = a.args[0]
            if inner.is_const() and inner.value() > 0 and abs(e) >= 1:
                k = int(e)  # trunc
                coef = coef * inner.value() ** k
                r = e - k
                if r:
                    merged[a] = r
                else:
                    del merged[a]
            elif not inner.is_const() and e >= 1:
                k = int(e)
                r = e - k
                if r:
                    merged[a] = r
                else:
                    del merged[a]
                expand.append(power(inner, Fraction(k)))
    if expand:
        base = build(bvs, list(merged.items()), coef) if not bvs else None
        if base is not None:
            r = base
            for x in expand:
                r = r * x
            return r
        # with bound variables: multiply inside, then sum
        inner = build((), list(merged.items()), coef)
        for x in expand:
            inner = inner * x
        return sum_over([(b, s) for b, s in bvs], inner)
    bvs = list(bvs)
    # ---- delta elimination
    changed = True
    while changed and bvs:
        changed = False
        names = {b.name: k for k, (b, _) in enumerate(bvs)}
        for a in list(merged):
            if a.fun is not DELTA:
                continue
            e = a.args[0]
            cand = None
            for m, c in e.terms.items():
                if len(m.facs) == 1 and not m.bvs and m.facs[0][1] == 1 and m.facs[0][0].name in names and abs(c) == 1:
                    v = m.facs[0][0]
                    sol = (Ex.atom(v) - e) if c == 1 else (Ex.atom(v) + e)
                    if v.name in sol.fv:
                        continue
                    k = names[v.name]
                    # sizes of other bound variables may depend on v: fine (substituted)
                    cand = (k, v, sol)
                    # prefer eliminating a variable whose solution is simple
                    if sol.single_atom() is not None or sol.is_const():
                        break
            if cand is None:
                continue
            k, v, sol = cand
            size = bvs[k][1]
            del merged[a]
            rest = bvs[:k] + bvs[k + 1:]
            # sol may refer to bound variables; ordering (dependent sizes) is kept as
            # long as v's size does not matter any more
            guard = range_guard(sol, size, rest)
            sub = {v.name: sol}
            rest = [(b, subst(s, sub)) for b, s in rest]
            body = build((), list(merged.items()), Fraction(1))
            body = subst(body, sub)
            body = body * guard
            return sum_over(rest, body.scale(coef))
        break
    # ---- orthonormality
    for k, (b, s) in enumerate(bvs):
        occ = [(a, e) for a, e in merged.items() if b.name in a.fv]
        if not (len(occ) == 2 and occ[0][1] == occ[1][1] == 1 or len(occ) == 1 and occ[0][1] == 2):
            continue
        a1, a2 = occ[0][0], occ[-1][0]
        if a1.fun is None or a1.fun is not a2.fun or not a1.fun.orth or any(b.name in s2.fv for _, s2 in bvs):
            continue
        for p, q in a1.fun.orth:
            rest1 = [x for r, x in enumerate(a1.args) if r not in (p, q)]
            rest2 = [x for r, x in enumerate(a2.args) if r not in (p, q)]
            sa1, sa2 = a1.args[p].single_atom(), a2.args[p].single_atom()
            if sa1 is None or sa2 is None or sa1.name != b.name or sa2.name != b.name or rest1 != rest2:
                continue
            if b.name in a1.args[q].fv or b.name in a2.args[q].fv or not s.same(rest1[0].sizes[0]):
                continue
            body = build((), [(a, e) for a, e in merged.items() if b.name not in a.fv], coef)
            return sum_over(bvs[:k] + bvs[k + 1:], body * delta(a1.args[q], a2.args[q]))
    # ---- delta / guard on free things
    if not bvs:
        for a in list(merged):
            if a.fun is DELTA and a.args[0].is_const():
                if a.args[0].value() != 0:
                    return ZERO
                del merged[a]
            elif a.fun is GE0 and a.args[0].is_const():
                if a.args[0].value() < 0:
                    return ZERO
                del merged[a]
    # ---- unused bound variables
    if bvs:
        used = set()
        for a in merged:
            used |= a.fv
        for k in range(len(bvs) - 1, -1, -1):
            b, s = bvs[k]
            if b.name in used or any(b.name in s2.fv for _, s2 in bvs[k + 1:]):
                used |= s.fv
                continue
            rest = bvs[:k] + bvs[k + 1:]
            body = build((), list(merged.items()), coef) * s
            return sum_over(rest, body)
        # ---- range of size one / zero
        for k, (b, s) in enumerate(bvs):
            if s.is_const():
                if s.value() <= 0:
                    return ZERO
                if s.value() == 1:
                    rest = bvs[:k] + bvs[k + 1:]
                    body = build((), list(merged.items()), coef)
                    sub = {b.name: ZERO}
                    return sum_over([(x, subst(y, sub)) for x, y in rest], subst(body, sub))
    # ---- factor out: factors independent of bound variables simply stay
    facs = sorted(merged.items(), key=lambda t: t[0].key)
    if not bvs:
        return Ex({Mono((), tuple(facs)): coef})
    return Ex({canon(bvs, facs): coef})


def range_guard(sol, size, rest):
    """[0 <= sol < size] as expression; proved away if possible."""
    sa = sol.single_atom()
    if sa is not None and sa.fun is None:
        for b, s in rest:
            if b.name == sa.name and s.same(size):
                return ONE
        r = HOOKS.ranges.get(sa.name)
        if r is not None and r.same(size):
            return ONE
    if sol.is_const() and size.is_const():
        return ONE if 0 <= sol.value() < size.value() else ZERO
    extra = []
    for b, s in rest:
        z = z3of(Ex.atom(b))
        extra += [z >= 0, z < z3of(s)]
    g = ONE
    for e in (sol, size - sol - 1):
        g = g * guard_ge0(e, extra)
    return g


def guard_ge0(e: Ex, extra=()):
    if e.is_const():
        return ONE if e.value() >= 0 else ZERO
    z = z3of(e)
    if HOOKS.entails(z >= 0, extra):
        return ONE
    if HOOKS.entails(z < 0, extra):
        return ZERO
    return Ex.atom(app_atom(GE0, (e,)))


def delta(a, b):
    """[a == b] for integer expressions."""
    d = Ex.of(a) - Ex.of(b)
    if d.is_zero():
        return ONE
    if d.is_const():
        return ZERO
    # canonical sign
    lead = sorted(d.terms.items(), key=lambda t: t[0].key)[0][1]
    if lead < 0:
        d = -d
    return Ex.atom(app_atom(DELTA, (d,)))


def merge_deltas(x: Ex):
    """Use [i == j] in every term which has it as a factor: the free i is replaced by j."""
    todo, out = list(x.terms.items()), ZERO
    steps = 0
    while todo:
        m, c = todo.pop()
        hit = None
        bvs, facs = open_mono(m)
        bound = {b.name for b, _ in bvs}
        for a, e in facs:
            if a.fun is not DELTA:
                continue
            t = a.args[0]
            for n, k in sorted(t.terms.items(), key=lambda q: q[0].key, reverse=True):
                if len(n.facs) == 1 and not n.bvs and n.facs[0][1] == 1 and abs(k) == 1 and n.facs[0][0].fun is None:
                    v = n.facs[0][0]
                    sol = (Ex.atom(v) - t) if k == 1 else (Ex.atom(v) + t)
                    if v.name in bound or v.name in sol.fv or sol.fv & bound:
                        continue
                    others = [f for f in facs if f[0] is not a]
                    if any(v.name in f[0].fv for f in others) or any(v.name in s.fv for _, s in bvs):
                        hit = (a, v, sol, others)
                    break
            if hit:
                break
        steps += 1
        if hit is None or steps > 2000:
            out = out + Ex({m: c})
            continue
        a, v, sol, others = hit
        r = subst(build(bvs, others, c), {v.name: sol}) * Ex.atom(a)
        todo.extend(r.terms.items())
    return out


def expand_constant(x: Ex):
    """Write out sums over at most six elements."""
    out = []
    for m, c in x.terms.items():
        k = next((k for k, (_, s) in enumerate(m.bvs) if s.is_const() and s.value() <= 6 and s.value().denominator == 1),
                 None)
        if k is None:
            out.append(Ex({m: c}))
            continue
        bvs, facs = open_mono(m)
        v, s = bvs[k]
        for t in range(int(s.value())):
            sub = {v.name: Ex.const(t)}
            body = Ex.const(c)
            for a, e in facs:
                body = body * (power(subst_atom(a, sub), e) if v.name in a.fv else power(Ex.atom(a), e))
            out.append(sum_over(bvs[:k] + [(b, subst(q, sub)) for b, q in bvs[k + 1:]], body))
    r = add_all(out)
    return r if all(not (s.is_const() and s.value() <= 6) for m in r.terms for _, s in m.bvs) else expand_constant(r)


def align_ranges(x: Ex):
    """Variants of x whose sums over n and n - 1, ... elements have the same ranges: the first p and
    the last q elements of the longer ones are separate terms."""
    sizes = {}

    def split(s):
        c = s.terms.get(ONE_MONO, Fraction(0))
        base = Ex({m: k for m, k in s.terms.items() if m is not ONE_MONO and m != ONE_MONO})
        return base, c

    def scan(v):
        for m in v.terms:
            for _, s in m.bvs:
                base, c = split(s)
                if base.terms and c.denominator == 1:
                    sizes.setdefault(base.key, (base, set()))[1].add(int(c))
    scan(x)
    jobs = [(b, min(cs), max(cs)) for b, cs in sizes.values() if len(cs) > 1 and max(cs) - min(cs) <= 2]
    for base, lo, hi in jobs:
        if base.fv & {n for m in x.terms for n, _ in m.bvs} or not HOOKS.entails(z3of(base + lo) >= 0):
            continue
        for p in range(hi - lo + 1):
            out = []
            for m, c in x.terms.items():
                hit = next((k for k, (_, s) in enumerate(m.bvs) if split(s)[0].key == base.key and
                            split(s)[1] > lo), None)
                if hit is None:
                    out.append(Ex({m: c}))
                    continue
                todo = [open_mono(m)]
                while todo:
                    bvs, facs = todo.pop()
                    k = next((k for k, (_, s) in enumerate(bvs) if split(s)[0].key == base.key and
                              split(s)[1] > lo), None)
                    if k is None:
                        out.append(build(bvs, facs, c))
                        continue
                    v, s = bvs[k]
                    o = int(split(s)[1]) - lo
                    f = min(p, o)

                    def at(val, extra=()):
                        sub = {v.name: val}
                        rest = bvs[:k] + list(extra) + [(b, subst(q, sub)) for b, q in bvs[k + 1:]]
                        body = ONE
                        for a, e in facs:
                            body = body * (power(subst_atom(a, sub), e) if v.name in a.fv else power(Ex.atom(a), e))
                        return rest, body
                    pieces = [at(Ex.const(t)) for t in range(f)] + [at(s - 1 - t) for t in range(o - f)]
                    w = fresh("b", "I")
                    pieces.append(at(Ex.atom(w) + f, [(w, base + lo)]))
                    for rest, body in pieces:
                        for m2, c2 in body.terms.items():
                            b2, f2 = open_mono(m2)
                            todo.append((rest + b2, f2)) if c2 == 1 else out.append(sum_over(rest, Ex({m2: c * c2})))
            yield add_all(out)


def render(x, env):
    """String of a key with the bound temporaries in env replaced."""
    if isinstance(x, Ex):
        if not (x.fv & env.keys()):
            return x.key
        items = sorted((render(m, env), c) for m, c in x.terms.items())
        return "+".join((k if c == 1 and k else f"{c}*{k}" if k else str(c)) for k, c in items) or "0"
    if isinstance(x, Mono):
        fs = sorted((render(a, env), e) for a, e in x.facs)
        k = "*".join(a if e == 1 else f"{a}^{e}" for a, e in fs)
        if x.bvs:
            k = "S{" + ",".join(f"{n}<{render(s, env)}" for n, s in x.bvs) + "}" + k
        return k
    if isinstance(x, Lam):
        if not (x.fv & env.keys()):
            return x.key
        return "\\" + ",".join(f"{v}<{render(s, env)}" for v, s in zip(x.vars, x.sizes)) + "." + render(x.body, env)
    if isinstance(x, Atom):
        if x.fun is None:
            return env.get(x.name, x.key)
        if not (x.fv & env.keys()):
            return x.key
        args = [render(a, env) if isinstance(a, (Ex, Lam)) else repr(a) for a in x.args]
        if x.fun.symgroups:
            ks = sorted(tuple(args[p] for p in g) for g in x.fun.symgroups)
            for g, vals in zip(x.fun.symgroups, ks):
                for p, v in zip(g, vals):
                    args[p] = v
        k = repr(x.fun) + "(" + ",".join(args) + ")"
        if x.ders:
            ds = sorted("'%s[%s]" % (d[0], ",".join(render(y, env) for y in d[1])) for d in x.ders)
            k += "".join(ds)
        if x.fun is DELTA:
            # sign is not canonical under renaming
            e = x.args[0]
            k = min("delta(" + render(e, env) + ")", "delta(" + render(-e, env) + ")")
        return k
    raise AssertionError(type(x))


def canon(bvs, facs) -> Mono:
    h = 1
    for a, _ in facs:
        h = max(h, a.height + 1)
    for _, s in bvs:
        h = max(h, s.height + 1)
    n = len(bvs)
    tmp = [b.name for b, _ in bvs]
    if n == 1:
        order = [0]
    else:
        # colour refinement
        color = {t: "?" for t in tmp}
        for _ in range(3):
            new = {}
            for t, (b, s) in zip(tmp, bvs):
                env = dict(color)
                env[t] = "!"
                sig = sorted(render(a, env) + f"^{e}" for a, e in facs if t in a.fv)
                sz = sorted(render(s2, env) for _, s2 in bvs if t in s2.fv)
                new[t] = "#".join([render(s, color)] + sz + sig)
            # compress
            vals = {v: f"?{k}" for k, v in enumerate(sorted(set(new.values())))}
            newc = {t: vals[new[t]] for t in tmp}
            if newc == color:
                break
            color = newc
            if len(set(color.values())) == n:
                break
        groups = {}
        for k, t in enumerate(tmp):
            groups.setdefault(color[t], []).append(k)
        glist = [groups[c] for c in sorted(groups, key=lambda c: int(c[1:] or 0))]
        cnt = 1
        for g in glist:
            for j in range(2, len(g) + 1):
                cnt *= j
        if cnt == 1:
            order = [g[0] for g in glist]
        elif cnt > 800:
            raise Unsupported("too many interchangeable bound variables")
        else:
            best = None
            for perm in itertools.product(*[itertools.permutations(g) for g in glist]):
                o = [k for g in perm for k in g]
                env = {tmp[k]: f"${h}_{j}" for j, k in enumerate(o)}
                s = "*".join(sorted(render(a, env) + f"^{e}" for a, e in facs)) + "|" + ",".join(
                    render(bvs[k][1], env) for k in o)
                if best is None or s < best[0]:
                    best = (s, o)
            order = best[1]
        # respect dependent ranges: a size must not refer to later variables
        order = topo(order, bvs)
    sub = {tmp[k]: Ex.atom(sym_atom(f"${h}_{j}", "I")) for j, k in enumerate(order)}
    nb = tuple((f"${h}_{j}", subst(bvs[k][1], sub)) for j, k in enumerate(order))
    nf = []
    for a, e in facs:
        x = subst_atom(a, sub) if a.fv & sub.keys() else None
        if x is None:
            nf.append((a, e))
            continue
        sa = x.single_atom()
        if sa is None:
            raise AssertionError(f"canonical renaming produced a non-atom {a} {x}")
        nf.append((sa, e))
    nf.sort(key=lambda t: t[0].key)
    m = Mono(nb, tuple(nf))
    return m


def topo(order, bvs):
    names = {bvs[k][0].name: k for k in order}
    res, done = [], set()

    def visit(k):
        if k in done:
            return
        for nme in bvs[k][1].fv:
            if nme in names and names[nme] != k:
                visit(names[nme])
        done.add(k)
        res.append(k)

    for k in order:
        visit(k)
    return res


def sum_over(bvs, body: Ex) -> Ex:
    """bvs: list of (Atom tmp, size) (outermost first)."""
    if not bvs:
        return body
    out = []
    for m, c in body.terms.items():
        b2, f2 = open_mono(m)
        out.append(build(list(bvs) + b2, f2, c))
    return add_all(out)


def Sum(size, fn, prefix="s") -> Ex:
    """sum_{i<size} fn(i)."""
    size = Ex.of(size)
    if size.is_const() and size.value() <= 6 and size.value().denominator == 1:
        return add_all(Ex.of(fn(Ex.const(i))) for i in range(int(size.value())))
    t = fresh(prefix, "I")
    old = HOOKS.ranges.get(t.name)
    HOOKS.ranges[t.name] = size
    try:
        body = Ex.of(fn(Ex.atom(t)))
    finally:
        HOOKS.ranges.pop(t.name, None)
    return sum_over([(t, size)], body)


# ----------------------------------------------------------------------------------
# substitution
# ----------------------------------------------------------------------------------
def subst(x: Ex, sub: dict) -> Ex:
    """Replace free symbols (by name)."""
    if not sub or not (x.fv & sub.keys()):
        return x
    out = []
    for m, c in x.terms.items():
        if not (m.fv & sub.keys()):
            out.append(Ex({m: c}))
            continue
        bvs, facs = open_mono(m)
        keep, repl = [], []
        for a, e in facs:
            if a.fv & sub.keys():
                v = subst_atom(a, sub)
                sa = v.single_atom()
                if sa is not None:
                    keep.append((sa, e))
                else:
                    repl.append(power(v, e))
            else:
                keep.append((a, e))
        nb = [(b, subst(s, sub)) for b, s in bvs]
        if not repl:
            out.append(build(nb, keep, c))
        else:
            body = build((), keep, c)
            for r in repl:
                body = body * r
            out.append(sum_over(nb, body))
    return add_all(out)


def subst_arg(a, sub):
    if isinstance(a, Ex):
        return subst(a, sub)
    if isinstance(a, Lam):
        if not (a.fv & sub.keys()):
            return a
        sub2 = {k: v for k, v in sub.items() if k not in a.vars}
        return Lam([subst(s, sub2) for s in a.sizes],
                   lambda idx: subst(subst(a.body, {v: i for v, i in zip(a.vars, idx)}), sub2))
    return a


def subst_atom(a: Atom, sub: dict) -> Ex:
    if a.fun is None:
        return sub.get(a.name, Ex.atom(a))
    if not (a.fv & sub.keys()):
        return Ex.atom(a)
    args = tuple(subst_arg(x, sub) for x in a.args)
    ders = tuple((d[0], tuple(subst_arg(y, sub) for y in d[1])) for d in a.ders)
    return mk(a.fun, args, ders)


def mk(fun, args, ders=()) -> Ex:
    """Application with simplification of interpreted symbols."""
    if fun is DELTA:
        return delta(args[0], ZERO)
    if fun is GE0:
        e = args[0]
        if e.is_const():
            return ONE if e.value() >= 0 else ZERO
        return Ex.atom(app_atom(GE0, args))
    if fun is BASE:
        e = args[0]
        if e.is_const() and e.value() > 0:
            return e
        sa = e.single_atom()
        if sa is not None or len(e.terms) <= 1 and not any(m.bvs for m in e.terms):
            return e
        return Ex.atom(app_atom(BASE, args))
    if fun is IDIV:
        return idiv(*args)
    if fun is ABSF:
        return abs(args[0])
    if fun is EXPF:
        if args[0].is_zero():
            return ONE
        if len(args[0].terms) == 1 and next(iter(args[0].terms.values())) < 0:
            return Ex.atom(app_atom(EXPF, (-args[0],)), Fraction(-1))
    if fun is LOGF:
        if args[0].is_const() and args[0].value() == 1:
            return ZERO
    if fun.simp is not None:
        r = fun.simp(args, ders)
        if r is not None:
            return r
    return Ex.atom(app_atom(fun, args, ders))


def map_atoms(x: Ex, fn) -> Ex:
    """Rebuild x with fn(atom) -> Ex or None (None: recurse into args)."""
    if isinstance(x, Lam):
        return Lam(list(x.sizes), lambda idx: map_atoms(subst(x.body, dict(zip(x.vars, idx))), fn))
    if not isinstance(x, Ex):
        return x
    out = []
    for m, c in x.terms.items():
        bvs, facs = open_mono(m)
        body = None
        simple = []
        others = []
        for a, e in facs:
            v = fn(a)
            if v is None:
                if a.fun is None:
                    v = Ex.atom(a)
                else:
                    nargs = tuple(map_atoms(y, fn) for y in a.args)
                    nders = tuple((d[0], tuple(map_atoms(y, fn) for y in d[1])) for d in a.ders)
                    v = mk(a.fun, nargs, nders)
            sa = v.single_atom()
            if sa is not None:
                simple.append((sa, e))
            else:
                others.append(power(v, e))
        nb = [(b, map_atoms(s, fn)) for b, s in bvs]
        body = build((), simple, c)
        for o in others:
            body = body * o
        out.append(sum_over(nb, body))
    return add_all(out)


def simplify_guards(x):
    """Decide indicators [e >= 0], [e == 0] with the path condition and the ranges of the indices."""
    if isinstance(x, Lam):
        if not has_guard(x):
            return x
        return Lam(list(x.sizes), lambda idx: simplify_guards(subst(x.body, dict(zip(x.vars, idx)))))
    if not isinstance(x, Ex) or not has_guard(x):
        return x
    out = []
    for m, c in x.terms.items():
        if not any(has_guard(a) for a, _ in m.facs):
            out.append(Ex({m: c}))
            continue
        bvs, facs = open_mono(m)
        for b, s in bvs:
            HOOKS.ranges[b.name] = s
        zero, plain, other = False, [], []
        try:
            for a, e in sorted(facs, key=lambda t: t[0].fun is not GE0 and t[0].fun is not DELTA):
                if a.fun is GE0 or a.fun is DELTA:
                    z = z3of(a.args[0])
                    if HOOKS.entails(z >= 0 if a.fun is GE0 else z == 0):
                        continue
                    if HOOKS.entails(z < 0 if a.fun is GE0 else z != 0):
                        zero = True
                        break
                    plain.append((a, e))
                elif has_guard(a):
                    v = mk(a.fun, tuple(simplify_guards(y) for y in a.args),
                           tuple((d[0], tuple(simplify_guards(y) for y in d[1])) for d in a.ders))
                    sa = v.single_atom()
                    if sa is not None:
                        plain.append((sa, e))
                    else:
                        other.append(power(v, e))
                else:
                    plain.append((a, e))
        finally:
            for b, s in bvs:
                HOOKS.ranges.pop(b.name, None)
        if zero:
            continue
        body = build((), plain, c)
        for o in other:
            body = body * o
        out.append(sum_over(bvs, body))
    return add_all(out)


_guard_memo = {}


def has_guard(x):
    if isinstance(x, Ex):
        return any(has_guard(a) for m in x.terms for a, _ in m.facs)
    if isinstance(x, Lam):
        return has_guard(x.body)
    if isinstance(x, Atom):
        if x.fun is None:
            return False
        r = _guard_memo.get(x.key)
        if r is None:
            r = x.fun in (GE0, DELTA, IDIV) or any(has_guard(y) for y in x.args) or any(
                has_guard(y) for d in x.ders for y in d[1])
            if len(_guard_memo) > 200000:
                _guard_memo.clear()
            _guard_memo[x.key] = r
        return r
    return False


def atoms_of(x, acc=None, deep=True):
    """All atoms (recursively)."""
    acc = set() if acc is None else acc
    if isinstance(x, Ex):
        for m in x.terms:
            for a, _ in m.facs:
                atoms_of(a, acc, deep)
            for _, s in m.bvs:
                atoms_of(s, acc, deep)
    elif isinstance(x, Lam):
        atoms_of(x.body, acc, deep)
        for s in x.sizes:
            atoms_of(s, acc, deep)
    elif isinstance(x, Atom):
        if x not in acc:
            acc.add(x)
            if deep:
                for y in x.args:
                    atoms_of(y, acc, deep)
                for d in x.ders:
                    for y in d[1]:
                        atoms_of(y, acc, deep)
    return acc


def freeze(x: Ex) -> Ex:
    if not x.deps:
        return x

    def f(a):
        if a.fun is None or not a.deps:
            return Ex.atom(a)
        g = a.fun.freeze()
        nargs = tuple(freeze(y) if isinstance(y, Ex) else (_freeze_lam(y) if isinstance(y, Lam) else y) for y in a.args)
        return mk(g, nargs, a.ders)

    return map_atoms(x, f)


def _freeze_lam(x):
    if not x.deps:
        return x
    return Lam(list(x.sizes), lambda idx: freeze(subst(x.body, dict(zip(x.vars, idx)))))


def unfreeze(x):
    def f(a):
        if a.fun is None:
            return Ex.atom(a)
        if a.fun.frozen:
            return mk(a.fun.base, tuple(unfreeze(y) for y in a.args), a.ders)
        return None

    if isinstance(x, Lam):
        return Lam(list(x.sizes), lambda idx: unfreeze(subst(x.body, dict(zip(x.vars, idx)))))
    if not isinstance(x, Ex):
        return x
    return map_atoms(x, f)


# ----------------------------------------------------------------------------------
# differentiation
# ----------------------------------------------------------------------------------
def diff(x: Ex, fam: str, idx, leaf=None) -> Ex:
    """Derivative of x w.r.t. the entry ``idx`` (tuple of Ex) of variable family fam.

    ``leaf(atom)`` -> Ex or None gives the derivative of leaf atoms (e.g. the variable
    itself); implicit dependencies are given by Fun.deps.
    """
    if isinstance(x, Ex) and fam not in x.deps and leaf is None:
        return ZERO
    out = []
    for m, c in x.terms.items():
        bvs, facs = open_mono(m)
        for k, (a, e) in enumerate(facs):
            d = diff_atom(a, fam, idx, leaf)
            if d.is_zero():
                continue
            rest = facs[:k] + facs[k + 1:]
            if e != 1:
                rest = rest + [(a, e - 1)]
                d = d.scale(e)
            body = build((), rest, c) * d
            out.append(sum_over(bvs, body))
    return add_all(out)


def diff_atom(a: Atom, fam, idx, leaf=None) -> Ex:
    if leaf is not None:
        v = leaf(a)
        if v is not None:
            return v
    if a.fun is None or a.fun.frozen:
        return ZERO
    if leaf is None and fam not in a.deps:
        return ZERO
    f = a.fun
    res = ZERO
    if fam in f.deps:
        res = res + Ex.atom(app_atom(f, a.args, a.ders + ((fam, tuple(idx)),)))
    if f in (DELTA, GE0, CONDF, IDIV):
        return ZERO
    # dependence through arguments
    if f is BASE:
        return res + diff(a.args[0], fam, idx, leaf)
    if f is EXPF:
        return res + Ex.atom(a) * diff(a.args[0], fam, idx, leaf)
    if f is LOGF:
        return res + power(a.args[0], Fraction(-1)) * diff(a.args[0], fam, idx, leaf)
    if f.diff is not None:
        return res + f.diff(a, lambda y: diff(y, fam, idx, leaf))
    for p, y in enumerate(a.args):
        if isinstance(y, Lam):
            if fam not in y.deps and leaf is None:
                continue
            # functional derivative: sum_i D_p f[i] * d y(i)
            vs = [fresh("d", "I") for _ in y.vars]
            dy = diff(y.apply([Ex.atom(v) for v in vs]), fam, idx, leaf)
            if dy.is_zero():
                continue
            da = Ex.atom(app_atom(f, a.args, a.ders + ((f"@{p}", tuple(Ex.atom(v) for v in vs)),)))
            bv = []
            for v, s, vn in zip(vs, y.sizes, y.vars):
                sub = {w: Ex.atom(u) for w, u in zip(y.vars, vs)}
                bv.append((v, subst(s, sub)))
            res = res + sum_over(bv, da * dy)
        elif isinstance(y, Ex):
            if fam not in y.deps and leaf is None:
                continue
            dy = diff(y, fam, idx, leaf)
            if dy.is_zero():
                continue
            res = res + Ex.atom(app_atom(f, a.args, a.ders + ((f"@{p}", ()),))) * dy
    return res


# ----------------------------------------------------------------------------------
# booleans
# ----------------------------------------------------------------------------------
class SymBool:
    """A boolean formula. ``bool()`` of it forks the exploration."""

    __slots__ = ("z",)
    decide = None  # set by the explorer

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return SymBool.decide(self)

    def __and__(self, o):
        return sym_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sym_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return sym_not(self)

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else sym_not(self)
        if isinstance(o, SymBool):
            return mkbool(self.z == o.z)
        return NotImplemented

    def __hash__(self):
        return hash(self.z)

    def all(self):
        return self

    def any(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return f"SymBool({self.z})"


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def boolz(b):
    if isinstance(b, SymBool):
        return b.z
    return z3.BoolVal(bool(b))


def sym_not(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.z))
    return not b


def sym_and(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return mkbool(z3.And(boolz(a), boolz(b)))
    return a and b


def sym_or(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return mkbool(z3.Or(boolz(a), boolz(b)))
    return a or b


def cmp_zero(op, d: Ex):
    if d.is_const():
        v = d.value()
        return {"==": v == 0, "<": v < 0, "<=": v <= 0}[op]
    if op in ("<", "<="):
        if is_positive(d):
            return False
        if is_positive(-d):
            return True
    if op == "==" and (is_positive(d) or is_positive(-d)):
        return False
    z = z3of(unfreeze(d))
    f = {"==": z == 0, "<": z < 0, "<=": z <= 0}[op]
    return mkbool(f)


_Z3CACHE: dict = {}
Z3INFO: dict = {}  # z3 const name -> atom (for models)


def z3of(x: Ex):
    """z3 term of an expression (sums and applications become constants)."""
    k = x.key
    r = _Z3CACHE.get(k)
    if r is not None:
        return r
    isint = x.is_int_sorted()
    terms = []
    for m, c in sorted(x.terms.items(), key=lambda t: t[0].key):
        if m.bvs:
            allint = all(a.sort == "I" and e.denominator == 1 and e > 0 for a, e in m.facs)
            t = (z3.Int if allint else z3.Real)("«" + m.key + "»")
            Z3INFO["«" + m.key + "»"] = m
        else:
            t = None
            for a, e in m.facs:
                za = z3atom(a)
                if e.denominator == 1 and 0 < e <= 6:
                    f = za
                    for _ in range(int(e) - 1):
                        f = f * za
                elif e == -1:
                    f = 1 / (z3.ToReal(za) if z3.is_int(za) else za)
                else:
                    f = z3.Real(f"«{a.key}^{e}»")
                t = f if t is None else t * f
        if t is None:
            t = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
        elif c != 1:
            if isint:
                t = z3.IntVal(int(c)) * t
            else:
                t = z3.RealVal(str(c)) * (z3.ToReal(t) if z3.is_int(t) else t)
        elif not isint and z3.is_int(t):
            t = z3.ToReal(t)
        terms.append(t)
    r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.IntVal(0))
    _Z3CACHE[k] = r
    return r


FUNREG: dict = {}  # uninterpreted functions of integers by name


def z3atom(a: Atom):
    if a.fun is DELTA:
        return z3.If(z3of(a.args[0]) == 0, z3.IntVal(1), z3.IntVal(0))
    if a.fun is GE0:
        return z3.If(z3of(a.args[0]) >= 0, z3.IntVal(1), z3.IntVal(0))
    if a.fun is CONDF:
        return z3.If(z3.Bool(a.args[0]), z3.IntVal(1), z3.IntVal(0))
    if a.fun is ABSF:
        z = z3of(a.args[0])
        return z3.If(z >= 0, z, -z)
    if a.fun is IDIV:
        return z3of(a.args[0]) / z3of(a.args[1])
    if a.fun is not None and a.args and all(isinstance(y, Ex) and y.is_int_sorted() for y in a.args) and not a.ders:
        # uninterpreted function of integers: z3 gets congruence
        f = z3.Function(a.fun.name, *([z3.IntSort()] * len(a.args)),
                        z3.IntSort() if a.sort == "I" else z3.RealSort())
        FUNREG[a.fun.name] = a.fun
        return f(*[z3of(y) for y in a.args])
    Z3INFO[a.key] = a
    return z3.Int(a.key) if a.sort == "I" else z3.Real(a.key)


# ----------------------------------------------------------------------------------
# helpers for symbols
# ----------------------------------------------------------------------------------
def integer(name, positive=False):
    return Ex.atom(sym_atom(name, "I", positive))


def real(name, positive=False):
    return Ex.atom(sym_atom(name, "R", positive))


def ex_exp(x):
    x = Ex.of(x)
    return mk(EXPF, (x,))


def ex_log(x):
    x = Ex.of(x)
    return mk(LOGF, (x,))


def ex_sqrt(x):
    return power(Ex.of(x), Fraction(1, 2))


def clear_denominators(d: Ex) -> Ex:
    """Multiply by bases with negative integer exponents (bound-variable free)."""
    for _ in range(8):
        worst = {}
        for m in d.terms:
            bn = {n for n, _ in m.bvs}
            for a, e in m.facs:
                if a.fun is BASE and e < 0 and not (a.fv & bn):
                    k = -e if e.denominator == 1 else Fraction(-(e.numerator // e.denominator))
                    if k > worst.get(a, 0):
                        worst[a] = k
        if not worst:
            return d
        a, k = next(iter(sorted(worst.items(), key=lambda t: t[0].key)))
        out = []
        inner = a.args[0]
        for m, c in d.terms.items():
            # multiply term by base^k exactly, keeping the power merged
            bvs, facs = open_mono(m)
            d2 = {}
            for x, e in facs:
                d2[x] = d2.get(x, 0) + e
            e = d2.pop(a, Fraction(0)) + k
            body = build((), list(d2.items()), c)
            if e:
                n = int(e) if e >= 1 else 0
                if n:
                    body = body * power(inner, Fraction(n))
                if e - n:
                    body = body * Ex.atom(a, e - n)
            out.append(sum_over(bvs, body))
        d = add_all(out)
    return d
