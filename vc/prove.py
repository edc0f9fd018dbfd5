"""Obligations: generation per path, discharge, refutation by random interpretation."""
from __future__ import annotations

import hashlib
import math
import os
import random
import signal
import sys
import time
import traceback

import z3

from . import expr as E
from . import loader
from . import py as P
from . import tensor as TT
from .ctx import Ctx, Explorer, consts, has_quantifier, instantiate
from .expr import Ex, Lam, PathAbort, SymBool, Unsupported, boolz, z3of


# ----------------------------------------------------------------------------------
# numeric interpretation
# ----------------------------------------------------------------------------------
class NoValue(Exception):
    pass


class Interp:
    """Random interpretation of the symbols which satisfies the path condition.

    Integers come from a model of the path condition, uninterpreted functions are
    pseudo-random functions of the values of their arguments."""

    CAP = 60000

    def __init__(self, model, seed):
        self.m, self.seed = model, seed
        self.decls = {d.name(): d for d in model.decls()} if model is not None else {}
        self.memo = {}
        self.work = 0

    def rnd(self, key, positive=False, sort="R", lo=None):
        h = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=8).digest()
        u = int.from_bytes(h, "big") / 2.0 ** 64
        if sort == "I":
            return 1 + int(u * 3)
        return 0.3 + 1.4 * u if positive else 2.8 * u - 1.4

    def zval(self, z):
        v = self.m.eval(z, model_completion=False)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(12).as_fraction())
        return None

    def ex(self, x: Ex, env):
        tot = 0
        for m, c in x.terms.items():
            tot = tot + self.mono(m, env) * (int(c) if c.denominator == 1 else float(c))
        return tot

    def mono(self, m, env):
        if m.bvs:
            env = dict(env)
            return self.summ(m, list(m.bvs), env)
        return self.prod(m.facs, env)

    def summ(self, m, bvs, env):
        if not bvs:
            return self.prod(m.facs, env)
        name, size = bvs[0]
        n = self.ex(size, env)
        tot = 0
        for v in range(int(n)):
            self.work += 1
            if self.work > self.CAP:
                raise NoValue("too much work")
            env[name] = v
            tot = tot + self.summ(m, bvs[1:], env)
        env.pop(name, None)
        return tot

    def prod(self, facs, env):
        r = 1
        # integer indicators first: short-circuit
        for a, e in sorted(facs, key=lambda t: t[0].sort != "I"):
            v = self.atom(a, env)
            if e != 1:
                if v == 0 and e < 0:
                    raise NoValue("division by zero")
                if v < 0 and e.denominator != 1:
                    raise NoValue("root of a negative number")
                v = v ** (int(e) if e.denominator == 1 else float(e))
            r = r * v
            if r == 0:
                return 0
        return r

    def atom(self, a, env):
        if a.fun is None or a.fun.base in (E.DELTA, E.GE0):
            return self.atom_(a, env)
        k = (a.key,) + tuple(sorted((n, env[n]) for n in a.fv if n in env))
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.atom_(a, env)
        return r

    def atom_(self, a, env):
        if a.fun is None:
            if a.name in env:
                return env[a.name]
            d = self.decls.get(a.name)
            if d is not None and d.arity() == 0:
                v = self.zval(d())
                if v is not None:
                    return v
            if a.name.startswith("pi") and a.name == "pi":
                return math.pi
            return self.rnd(a.name, a.positive, a.sort)
        key = None
        f = a.fun.base
        if f is E.DELTA:
            return 1 if self.ex(a.args[0], env) == 0 else 0
        if f is E.GE0:
            return 1 if self.ex(a.args[0], env) >= 0 else 0
        if f is E.BASE:
            return self.ex(a.args[0], env)
        if f is E.EXPF and not a.ders:
            v = self.ex(a.args[0], env)
            if v > 200:
                raise NoValue("overflow")
            return math.exp(v)
        if f is E.LOGF and not a.ders:
            v = self.ex(a.args[0], env)
            if v <= 0:
                raise NoValue("log")
            return math.log(v)
        if f is E.ABSF:
            return abs(self.ex(a.args[0], env))
        if f is E.IDIV:
            b = self.ex(a.args[1], env)
            if b == 0:
                raise NoValue("division by zero")
            return self.ex(a.args[0], env) // b
        if f is E.POWF and not a.ders:
            b, e = self.ex(a.args[0], env), self.ex(a.args[1], env)
            if b < 0 and e != int(e) or b == 0 and e < 0:
                raise NoValue("power")
            return b ** e
        if f is E.CONDF:
            d = self.decls.get(a.args[0])
            if d is not None:
                v = self.m.eval(d(), model_completion=False)
                if z3.is_true(v):
                    return 1
                if z3.is_false(v):
                    return 0
            return 1 if self.rnd(("cond", a.args[0])) > 0 else 0
        if f.ev is not None and not a.ders:
            return f.ev([self.ex(y, env) if isinstance(y, Ex) else y for y in a.args])
        args = [self.arg(y, env) for y in a.args]
        if f.evlam is not None and not a.ders:
            try:
                v = f.evlam(args, self.memo)
            except Exception as e:
                raise NoValue(f"{f.name}: {e}")
            if v is None:
                raise NoValue(f.name)
            return v
        if f.symgroups:
            ks = sorted(tuple(repr(args[p]) for p in g) for g in f.symgroups)
            args = [repr(x) for x in args]
            for g, vals in zip(f.symgroups, ks):
                for p, v in zip(g, vals):
                    args[p] = v
        ders = sorted((d[0],) + tuple(self.arg(x, env) for x in d[1]) for d in a.ders)
        d = self.decls.get(f.name)
        if d is not None and d.arity() == len(args) and not ders and all(isinstance(y, int) for y in args):
            v = self.zval(d(*[z3.IntVal(y) for y in args]))
            if v is not None:
                return v
        if not a.fv:
            d = self.decls.get(a.key)
            if d is not None and d.arity() == 0:
                v = self.zval(d())
                if v is not None:
                    return v
        return self.rnd((f.name, tuple(args), tuple(ders)), a.positive or f.nonneg, a.sort)

    def arg(self, y, env):
        if isinstance(y, Ex):
            v = self.ex(y, env)
            return v if isinstance(v, int) else (round(v, 8) + 0.0 if v != int(v) else int(v))
        if isinstance(y, Lam):
            return self.lam(y, env)
        return y

    def lam(self, y, env):
        k = (y.key,) + tuple(sorted((n, env[n]) for n in y.fv if n in env))
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.lam_(y, env)
        return r

    def lam_(self, y, env):
        out = []
        env = dict(env)

        def rec(k):
            if k == len(y.vars):
                v = self.ex(y.body, env)
                out.append(round(float(v), 7) + 0.0)
                return
            n = int(self.ex(y.sizes[k], env))
            out.append(("n", n))
            for v in range(n):
                self.work += 1
                if self.work > self.CAP:
                    raise NoValue("too much work")
                env[y.vars[k]] = v
                rec(k + 1)
            env.pop(y.vars[k], None)

        rec(0)
        return tuple(out)

    # -- the interpretation satisfies the path condition
    def satisfies(self, fs):
        for f in fs:
            sub = []
            f = instantiate(f)
            todo, seen = [f], set()
            while todo:
                z = todo.pop()
                for n in consts(z):
                    if n in seen:
                        continue
                    seen.add(n)
                    i = E.Z3INFO.get(n)
                    if i is None:
                        continue
                    try:
                        v = self.mono(i, {}) if isinstance(i, E.Mono) else self.atom(i, {})
                    except NoValue:
                        return False
                    isint = i.sort == "I" if isinstance(i, E.Atom) else all(a.sort == "I" for a, _ in i.facs)
                    if isint:
                        sub.append((z3.Int(n), z3.IntVal(int(v))))
                    else:
                        sub.append((z3.Real(n), z3.RealVal(repr(float(v)) if "e" not in repr(float(v)) else "%.12f" % v)))
            g = z3.simplify(self.m.eval(z3.substitute(f, *sub) if sub else f, model_completion=True))
            if not z3.is_true(g):
                return False
        return True


def models(ctx, count, seed, extra=(), budget=10.0):
    """Models of the path condition with small positive sizes."""
    fs = [instantiate(f) for f in list(ctx.pc) + list(extra)]
    end = time.time() + budget
    names = set()
    for f in fs:
        names |= consts(f)
    facts = ctx._range_facts(fs)
    ints, reals = [], []
    seen = set()

    def coll(z):
        if z.get_id() in seen:
            return
        seen.add(z.get_id())
        if z3.is_const(z) and z.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(z):
            ints.append(z)
        if z3.is_const(z) and z.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(z):
            i = E.Z3INFO.get(str(z))
            if i is None or (isinstance(i, E.Atom) and i.fun is None):
                reals.append(z)
        for c in z.children():
            coll(c)
        if z3.is_quantifier(z):
            coll(z.body())

    for f in fs + facts:
        coll(f)
    rng = random.Random(seed)
    out = []
    for t in range(count):
        if time.time() > end:
            break
        s = z3.Solver()
        s.set("timeout", 1500)
        s.set("random_seed", rng.randrange(10**6))
        s.add(*fs)
        s.add(*facts)
        for v in sorted(ints, key=str):
            # preferences
            if time.time() > end:
                break
            s.push()
            s.add(v == rng.choice([1, 2, 2, 3, 3, 4]))
            if s.check() != z3.sat:
                s.pop()
                s.push()
                s.add(v >= 0, v <= 5)
                if s.check() != z3.sat:
                    s.pop()
        for v in sorted(reals, key=str):
            if time.time() > end:
                break
            s.push()
            s.add(v == z3.Q(rng.randrange(-40, 90) or 7, 32) if t % 2 else v == z3.Q(rng.randrange(1, 90), 32))
            if s.check() != z3.sat:
                s.pop()
        if s.check() == z3.sat:
            out.append(s.model())
    return out


def numeric_difference(ctx, a: Ex, b: Ex, env_vars, seed=0, tries=12):
    """A description of an interpretation in which a != b, or None."""
    why = ""
    a, b = E.unfreeze(a), E.unfreeze(b)
    zs = []
    for v, size in env_vars:
        z = z3.Int(v)
        zs += [z >= 0, z < z3of(Ex.of(size))]
    # mention all integer symbols
    for x in (a, b):
        for at in E.atoms_of(x):
            if at.fun is None and at.sort == "I" and not at.name.startswith("%"):
                zs.append(z3.Int(at.name) == z3.Int(at.name))
    end = time.time() + 20
    for t, m in enumerate(models(ctx, tries, seed, zs)):
        for rep in range(2):
            if time.time() > end:
                return None
            it = Interp(m, (seed, t, rep))
            try:
                if not it.satisfies(ctx.pc):
                    continue
                va, vb = it.ex(a, {}), it.ex(b, {})
            except (NoValue, OverflowError, ZeroDivisionError) as e:
                why = str(e)
                continue
            if isinstance(va, complex) or isinstance(vb, complex):
                continue
            if not (math.isfinite(va) and math.isfinite(vb)):
                continue
            if abs(va - vb) > 1e-6 * (1 + abs(va) + abs(vb)):
                ints = {str(d): str(m[d]) for d in m.decls() if d.arity() == 0}
                if os.environ.get("VC_DIFF"):
                    print(f"CODE {str(a)}\nCONTRACT {str(b)}"[:int(os.environ["VC_DIFF"])])
                return f"code gives {va:.6g}, contract {vb:.6g} for {dict(sorted(ints.items()))}"
    return None


# ----------------------------------------------------------------------------------
class Result:
    def __init__(self, name):
        self.name = name
        self.status = None
        self.reason = ""
        self.paths = 0
        self.backend = set()

    ORDER = ["proved", "unknown", "unsupported", "refuted"]

    def add(self, status, reason, backend):
        self.paths += 1
        self.backend.add(backend)
        if self.status is None or self.ORDER.index(status) > self.ORDER.index(self.status):
            self.status, self.reason = status, reason


class Case:
    """One path of one proof case."""

    def __init__(self, ctx, results, seed, world=None):
        self.ctx, self.results, self.seed = ctx, results, seed
        self.world = world

    def rec(self, name, status, reason="", backend="normal form"):
        self.results.setdefault(name, Result(name)).add(status, reason, backend)

    def path(self):
        return "; ".join(str(z)[:80] if r is True else f"not {str(z)[:80]}" if r is False else f"{z}={r}"
                         for r, z in self.ctx.decisions)[:400]

    # -- obligations
    def eq(self, name, actual, expected, vars=()):
        """Scalar equality on this path; vars: generic indices (name, size) in use."""
        try:
            if isinstance(actual, P.Poison):
                actual._bad()
            if isinstance(actual, TT.T) and not actual.dims:
                actual = actual.scalar()
            if not isinstance(actual, (Ex, int, float, TT.T)):
                actual = NotEx(actual)
            if isinstance(actual, TT.T):
                return self.rec(name, "refuted", f"array of shape {Shape_(actual)} instead of a number")
            a, b = E.unfreeze(Ex.of(actual)), E.unfreeze(Ex.of(expected))
            d = a - b
            if d.is_zero():
                return self.rec(name, "proved")
            sub = self.int_equalities(d, vars)
            if sub:
                d = E.subst(d, sub)
                if d.is_zero():
                    return self.rec(name, "proved", backend="normal form + z3")
            if E.has_guard(d):
                d = E.simplify_guards(d)
                if d.is_zero():
                    return self.rec(name, "proved", backend="normal form + z3")
            d2 = E.clear_denominators(d)
            if d2.is_zero():
                return self.rec(name, "proved")
            d3 = E.merge_deltas(d)
            if d3.is_zero() or E.clear_denominators(d3).is_zero() or E.merge_deltas(d2).is_zero():
                return self.rec(name, "proved")
            z = boolz(E.cmp_zero("==", d2))
            if z3.is_true(z):
                return self.rec(name, "proved")
            d2 = E.expand_constant(d2)
            for v in [d2] + [y for x in E.align_ranges(d2) for y in [x, *E.align_ranges(x)]]:
                if v.is_zero() or E.clear_denominators(v).is_zero() or E.merge_deltas(v).is_zero():
                    return self.rec(name, "proved")
            if not any(m.bvs for m in d2.terms) or len(d2.terms) < 12:
                if self.ctx.entails(z):
                    return self.rec(name, "proved", backend="z3")
            cex = numeric_difference(self.ctx, a, b, vars, self.seed)
            if cex:
                return self.rec(name, "refuted", f"{cex} [path: {self.path()}]", "random interpretation")
            self.rec(name, "unknown", f"difference {str(d2)[:int(os.environ.get('VC_DIFF', 400))]} [path: {self.path()}]")
        except Unsupported as e:
            self.rec(name, "unsupported", str(e)[:500])

    def int_equalities(self, d, vars):
        """Integer symbols whose value is determined by the path condition."""
        names = sorted({n for n in d.fv if not n.startswith(("$", "%"))} & {
            n for n in d.fv if (a := E.Atom._intern.get(n)) is not None and a.sort == "I"})
        if not names or not self.ctx.pc:
            return {}
        fs = list(self.ctx.pc) + [z3.Int(n) == z3.Int(n) for n in names]
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*[f for f in self.ctx.pc if not has_quantifier(f)])
        s.add(*self.ctx._range_facts([z3.Int(n) == 0 for n in names] + list(self.ctx.pc)))
        if s.check() != z3.sat:
            return {}
        m = s.model()
        val = {n: m.eval(z3.Int(n), model_completion=True).as_long() for n in names}
        sub, reps = {}, {}
        for n in names:
            v = val[n]
            if self.ctx.entails(z3.Int(n) == v):
                sub[n] = Ex.const(v)
                continue
            for r in reps.get(v, []):
                if self.ctx.entails(z3.Int(n) == z3.Int(r)):
                    sub[n] = E.integer(r)
                    break
            else:
                reps.setdefault(v, []).append(n)
        return sub

    def tensor(self, name, t, dims, fn, dtype=None):
        """t has the given dimensions and entries fn(*idx)."""
        try:
            if isinstance(t, P.Poison):
                t._bad()
            if not isinstance(t, TT.T):
                return self.rec(name, "unknown", f"{type(t).__name__} instead of an array")
            dims = [TT.as_dim(d) for d in dims]
            if len(t.dims) != len(dims):
                return self.rec(name, "refuted", f"rank {len(t.dims)} instead of {len(dims)} [path: {self.path()}]")
            idx, vs = [], []
            for d, e in zip(t.dims, dims):
                if not TT.same_dim(d, e):
                    diff = d.size - e.size
                    if not self.ctx.entails(z3of(diff) == 0):
                        if self.ctx.check([z3of(diff) != 0]) == z3.sat:
                            return self.rec(name, "refuted", f"size {d.size} instead of {e.size} "
                                            f"[path: {self.path()}]", "z3")
                        return self.rec(name, "unknown", f"size {d.size} instead of {e.size}")
            import itertools

            pick = [d if TT.structure(d) >= TT.structure(e) else e for d, e in zip(t.dims, dims)]
            for combo in itertools.product(*[d.generic() for d in pick]):
                vs = [(v.name, sz) for _, w in combo for v, sz in w]
                for n, sz in vs:
                    E.HOOKS.ranges[n] = Ex.of(sz)
                act = [TT.conv(i[0], p, d) for i, p, d in zip(combo, pick, t.dims)]
                exp = [TT.conv(i[0], p, d) for i, p, d in zip(combo, pick, dims)]
                self.eq(name, t.at(*act), fn(*exp), vs)
        except Unsupported as e:
            self.rec(name, "unsupported", str(e)[:500])

    def holds(self, name, b):
        try:
            z = boolz(b) if not isinstance(b, bool) else z3.BoolVal(b)
            if z3.is_true(z):
                return self.rec(name, "proved")
            r = self.ctx.check([z3.Not(z)], timeout=8000)
            if r == z3.unsat:
                return self.rec(name, "proved", backend="z3")
            if r == z3.sat:
                for t, m in enumerate(models(self.ctx, 6, self.seed, [z3.Not(z)])):
                    it = Interp(m, (self.seed, t))
                    if it.satisfies(list(self.ctx.pc) + [z3.Not(z)]):
                        return self.rec(name, "refuted", f"counterexample {str(m)[:400]} [path: {self.path()}]", "z3")
            self.rec(name, "unknown", f"{str(z)[:300]} [path: {self.path()}]", "z3")
        except Unsupported as e:
            self.rec(name, "unsupported", str(e)[:500])

    def true(self, name, cond, reason=""):
        """A decided condition (a Python bool)."""
        if isinstance(cond, SymBool):
            return self.holds(name, cond)
        self.rec(name, "proved" if cond else "refuted", "" if cond else f"{reason} [path: {self.path()}]")

    def call(self, fn, *a, **k):
        """(result, exception of the code under verification)"""
        try:
            return fn(*a, **k), None
        except Exception as e:
            check_genuine(e)
            return None, e

    def raises(self, name, fn, exc, when=None):
        """fn() raises one of the exceptions."""
        r, e = self.call(fn)
        ok = e is not None and isinstance(e, exc)
        self.true(name, ok, f"{type(e).__name__ if e else 'no exception'} instead of "
                            f"{getattr(exc, '__name__', exc)}: {e}")
        return e

    def assume(self, b):
        self.ctx.assume(b)

    def choice(self, options, label):
        return options[self.ctx.choice(len(options), label)]


def NotEx(x):
    raise Unsupported(f"{type(x).__name__} instead of a number")


def Shape_(t):
    return "x".join(str(d.size) for d in t.dims)


class TimeLimit(E.Internal):
    pass


CONTRACT = {"tensor.py": {"require"}}


def check_genuine(e):
    """Exceptions count only if raised by the code under verification or by the
    contract of a library function; else they are limits of the verifier."""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename
    if fn.startswith("<vc "):
        # explicit raise / assert, or an operation on objects of the code
        if isinstance(e, (AttributeError, NameError, TypeError)) and not getattr(e, "vc_contract", False):
            if not raised_explicitly(last):
                raise Unsupported(f"{type(e).__name__}: {e}") from e
        return
    if getattr(e, "vc_contract", False):
        return
    if isinstance(e, (ValueError, RuntimeError, IndexError, KeyError, NotImplementedError, StopIteration)) \
            and raised_explicitly(last):
        return
    raise Unsupported(f"internal {type(e).__name__}: {e} ({fn}:{last.tb_lineno})") from e


def raised_explicitly(tb):
    import dis

    code = tb.tb_frame.f_code
    for ins in dis.get_instructions(code):
        if ins.offset == tb.tb_lasti:
            return ins.opname in ("RAISE_VARARGS", "RERAISE")
    return False


# ----------------------------------------------------------------------------------
class Tracer:
    """Functions of the repository which were executed symbolically."""

    def __init__(self):
        self.names = set()

    def __enter__(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(5, "vc")
        except ValueError:
            pass
        mon.register_callback(5, mon.events.PY_START, self.on)
        mon.set_events(5, mon.events.PY_START)
        return self

    def on(self, code, off):
        fn = code.co_filename
        if fn.startswith("<vc "):
            q = code.co_qualname
            if not any(p.startswith("__vc") for p in q.split(".")) and "<" not in q.replace("<locals>", ""):
                self.names.add(fn[4:-1] + "." + q)
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        try:
            sys.monitoring.set_events(5, 0)
        except ValueError:
            return
        sys.monitoring.free_tool_id(5)


def run_case(fn, seed=1, max_paths=400, stubs=None, expected=(), debug=False):
    """Execute the proof case on all paths.  Returns (results, info)."""
    ex = Explorer(max_paths)
    results = {}
    t0 = time.time()
    info = {"feasible_paths": 0, "error": ""}
    with Tracer() as tr:
        def one(ctx):
            w = loader.World(stubs() if stubs else {})
            c = Case(ctx, results, seed, w)
            ctx.case = c
            return fn(c)

        try:
            for ctx, r, exc in ex.run(one):
                if exc is not None:
                    c = ctx.case
                    try:
                        check_genuine(exc)
                    except Unsupported as u:
                        if debug:
                            traceback.print_exception(exc)
                        raise u
                    if debug:
                        traceback.print_exception(exc)
                    st = "refuted" if ctx.check([]) == z3.sat else "unknown"
                    c.rec("no unexpected exception", st, f"{type(exc).__name__}: {exc} [path: {c.path()}]", "z3")
                else:
                    ctx.case.rec("no unexpected exception", "proved", backend="path exploration")
                    if ctx.check([]) == z3.sat:
                        info["feasible_paths"] += 1
        except Unsupported as u:
            if debug:
                traceback.print_exc()
            info["error"] = f"{u}"
        except (TimeLimit, MemoryError, RecursionError) as u:
            # refuted obligations of other paths are kept
            signal.setitimer(signal.ITIMER_REAL, 0)
            info["error"] = f"{type(u).__name__}: {u}"
    st = ex.stats
    info.update(z3_calls=st.z3_calls, z3_time=st.z3_time, paths=st.paths, wall=time.time() - t0,
                functions=sorted(tr.names))
    if info["error"]:
        # some path was not explored: nothing is proved
        for r in results.values():
            if r.status == "proved":
                r.status, r.reason = "unsupported", "another path: " + info["error"][:400]
        for n in expected:
            results.setdefault(n, Result(n))
        for r in results.values():
            if r.status is None:
                r.status, r.reason = "unsupported", info["error"][:500]
    for n in expected:
        if n not in results:
            r = results[n] = Result(n)
            r.status, r.reason = "unsupported", "the obligation was not reached on any path"
    if not info["feasible_paths"]:
        for r in results.values():
            if r.status == "proved":
                r.status, r.reason = "unknown", "no feasible path (vacuous)"
    return results, info
