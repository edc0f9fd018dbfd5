"""Path exploration, facts, and the symbolic heap."""
from __future__ import annotations

import time

import z3

from . import expr as E
from .expr import Ex, HOOKS, PathAbort, SymBool, Unsupported, boolz, z3of


class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.paths = 0
        self.cases = 0


class Ctx:
    """State of one symbolic run (re-created for every path)."""

    cur: "Ctx" = None

    def __init__(self, explorer):
        self.explorer = explorer
        self.pc = []  # z3 formulas assumed on this path
        self.decisions = []
        self.cells = []  # registry of tensor/list cells
        self.gvars = []  # active generic loop variables (names)
        self.lenient = 0  # pilot passes: unknown slices give poison
        self.ghosts = {}  # ghost state, name -> value (Ex)
        self.events = []  # ghost log
        self.local = None  # local decision context (inside of comprehensions)
        self.obl = []
        self._entail_cache = {}
        self.logs = []  # active write logs (innermost last)
        self.loops = []  # active generic iterations (innermost last)
        self.serial = 0
        self.nofork = 0
        self.units = {}  # integer symbols with a known value

    # -- write logs
    def tick(self):
        self.serial += 1
        return self.serial

    def wrote(self, cell, old):
        for lg in self.logs:
            if cell.serial < lg.mark and id(cell) not in lg.cells:
                lg.cells[id(cell)] = (cell, old)

    def ghost(self, name, default=0):
        return self.ghosts.get(name, default)

    def set_ghost(self, name, value):
        for lg in self.logs:
            lg.ghosts.setdefault(name, self.ghosts.get(name, 0))
        self.ghosts[name] = value

    # -- facts
    def assume(self, b):
        z = boolz(b)
        if z3.is_true(z):
            return
        self.pc.append(z)
        if z3.is_eq(z):
            a, b = z.children()
            if z3.is_int_value(a):
                a, b = b, a
            if z3.is_int_value(b) and z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                self.units[a.decl().name()] = Ex.const(b.as_long())
        self._entail_cache.clear()

    def _range_facts(self, zs):
        """0 <= v < size for generic variables occurring in the formulas, facts about function
        values and sums."""
        todo, facts = list(zs), []
        seen, sums, gens, dead = set(), {}, {}, set()
        while True:
            while todo:
                z = todo.pop()
                if z.get_id() in dead:
                    continue
                dead.add(z.get_id())
                for t in apps(z):
                    n = t.decl().name()
                    if z3.is_const(t):
                        if n in seen:
                            continue
                        seen.add(n)
                        r = HOOKS.ranges.get(n)
                        if r is not None:
                            v = z3.Int(n)
                            gens[n] = r
                            facts += [v >= 0, v < z3of(r)]
                            todo.append(z3of(r))
                        a = E.Z3INFO.get(n)
                        if isinstance(a, E.Mono) and len(a.bvs) == 1:
                            sums.setdefault(n, a)
                        if a is not None:
                            for f in atom_facts(a):
                                facts.append(f)
                                todo.append(f)
                    elif t.get_id() not in seen:
                        seen.add(t.get_id())
                        fun = E.FUNREG.get(n)
                        if fun is not None and not has_var(t):
                            if fun.positive:
                                facts.append(t >= 1 if z3.is_int(t) else t > 0)
                            elif fun.nonneg:
                                facts.append(t >= 0)
            new = [f for f in sum_facts(sums, gens) if f.get_id() not in dead]
            if not new:
                return facts
            facts += new
            todo += new

    def check(self, extra, timeout=4000):
        import time

        fs = list(self.pc) + list(extra)
        rel = relevant(fs, extra)
        facts = self._range_facts(rel)
        quant = [f for f in rel if has_quantifier(f)]
        if quant:
            q = set(map(id, quant))
            s = z3.Solver()
            s.set("timeout", timeout)
            s.add(*[f for f in rel if id(f) not in q], *[f for f in extra if not has_quantifier(f)], *facts)
            t = time.time()
            r = s.check()
            st = self.explorer.stats
            st.z3_calls += 1
            st.z3_time += time.time() - t
            if r == z3.unsat:
                return r
            # a small model?  (only to save time: "sat" never proves anything)
            s = z3.Solver()
            s.set("timeout", 1000)
            small = [instantiate(f, 0, 3) for f in list(rel) + [e for e in extra]]
            ints = set()
            for f in small + facts:
                ints |= int_consts(f)
            s.add(*small, *facts)
            s.add(*[z3.And(z3.Int(n) >= -1, z3.Int(n) <= 3) for n in ints])
            t = time.time()
            r = s.check()
            st.z3_calls += 1
            st.z3_time += time.time() - t
            if r == z3.sat:
                return r
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*rel)
        s.add(*facts)
        t = time.time()
        r = s.check()
        st = self.explorer.stats
        st.z3_calls += 1
        st.z3_time += time.time() - t
        return r

    def entails(self, z, extra=()):
        key = (z.sexpr(), tuple(x.sexpr() for x in extra))
        r = self._entail_cache.get(key)
        if r is None:
            r = self.check([z3.Not(z)] + list(extra)) == z3.unsat
            self._entail_cache[key] = r
        return r

    # -- branching
    def decide(self, b: SymBool) -> bool:
        z = b.z
        loc = self.local
        ent_t = self.check([z3.Not(z)]) == z3.unsat
        if ent_t:
            return True
        ent_f = self.check([z]) == z3.unsat
        if ent_f:
            return False
        deps = deep_consts(z)
        if loc is not None and (deps & loc.names):
            r = loc.choose(z)
            self.assume(E.mkbool(z if r else z3.Not(z)))
            return r
        for lp in reversed(self.loops):
            if lp.var.name in deps:
                return lp.decide(self, z)
        r = self.explorer.choose(self, z)
        self.assume(E.mkbool(z if r else z3.Not(z)))
        return r

    def choice(self, n, label=""):
        """Non-deterministic finite choice (configuration enumeration)."""
        return self.explorer.choose_n(self, n, label)


def instantiate(z, lo=0, hi=6):
    """Quantifiers over small integers (only for the search of models)."""
    if z3.is_quantifier(z):
        n = z.num_vars()
        import itertools

        # outermost quantifier first, so that no variable is left unbound
        out = [instantiate(z3.substitute_vars(z.body(), *[z3.IntVal(v) for v in vs]), lo, hi) for vs in itertools.product(range(lo, hi), repeat=n)]
        return z3.simplify(z3.And(*out) if z.is_forall() else z3.Or(*out))
    if z3.is_app(z) and z.num_args() and z3.is_bool(z) and has_quantifier(z):
        ch = [instantiate(c, lo, hi) if z3.is_bool(c) else c for c in z.children()]
        if z3.is_and(z):
            return z3.And(*ch)
        if z3.is_or(z):
            return z3.Or(*ch)
        if z3.is_not(z):
            return z3.Not(ch[0])
        if z3.is_implies(z):
            return z3.Implies(*ch)
        if z3.is_eq(z):
            return ch[0] == ch[1]
    return z


MEMO: list = []


def memo(fn):
    """Cache per term (the term is kept alive, so that its identifier is not reused)."""
    cache = {}
    MEMO.append(cache)

    def get(z):
        i = z.get_id()
        r = cache.get(i)
        if r is None:
            r = cache[i] = (z, fn(z))
        return r[1]
    return get


@memo
def int_consts(z):
    out, todo, seen = set(), [z], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_const(t) and z3.is_int(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        else:
            todo.extend(t.children())
    return out


@memo
def has_quantifier(z):
    return z3.is_quantifier(z) or any(has_quantifier(c) for c in z.children())


@memo
def consts(z):
    """Names of uninterpreted constants in a z3 term."""
    out, todo, seen = set(), [z], set()
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add("fn:" + t.decl().name())
            todo.extend(t.children())
    return out


@memo
def apps(z):
    """Applications of uninterpreted functions (and constants) in a z3 term."""
    out, todo, seen = [], [z], set()
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(t)
            todo.extend(t.children())
    return out


def has_var(z):
    return z3.is_var(z) or any(has_var(c) for c in z.children())


def nonneg_atom(a):
    return a.sort == "I" and (a.positive or a.fun is not None and a.fun.nonneg)


def sum_facts(sums, gens):
    """Sums of non-negative integers: bounds by single terms and partial sums."""
    info = []
    for n, m in sorted(sums.items()):
        if not all(nonneg_atom(a) and e.denominator == 1 and e > 0 for a, e in m.facs):
            continue
        (v, size), = m.bvs
        body = Ex({E.Mono((), m.facs): E.Fraction(1)})
        at = lambda t, body=body, v=v: E.subst(body, {v: t})
        info.append((z3.Int(n), size, at, at(E.integer("%sum")).key))
    out = []
    for z, size, at, key in info:
        out.append(z >= 0)
        zs = z3of(size)
        for g, r in gens.items():
            if r.same(size):
                out.append(z >= z3of(at(E.integer(g))))
        for z2, size2, at2, key2 in info:
            if key2 == key and not z2.eq(z):
                k = z3of(size2)
                out.append(z3.Implies(z3.And(k >= 0, k < zs), z2 + z3of(at(size2)) <= z))
                out.append(z3.Implies(k == zs, z2 == z))
    return out


def deep_consts(z):
    """Names of all symbols a formula depends on, also inside of opaque constants."""
    out = set()
    for n in consts(z):
        out.add(n)
        a = E.Z3INFO.get(n)
        if a is not None:
            out |= a.fv
    return out


def zsubst(z, sub):
    """Substitute symbols (name -> Ex) in a formula."""
    pairs = []
    for n in consts(z):
        if n.startswith("fn:"):
            continue
        if n in sub:
            pairs.append((z3.Int(n), E.z3of(sub[n])))
            continue
        a = E.Z3INFO.get(n)
        if a is not None and (a.fv & sub.keys()):
            if isinstance(a, E.Mono):
                new = E.subst(Ex({a: E.Fraction(1)}), sub)
                old = E.z3of(Ex({a: E.Fraction(1)}))
            else:
                old = E.z3atom(a)
                new = E.subst(Ex.atom(a), sub)
            nz = E.z3of(new)
            if z3.is_int(nz) and not z3.is_int(old):
                nz = z3.ToReal(nz)
            pairs.append((old, nz))
        elif n.startswith(("any<", "eq<", "opq<")) and any(k in n for k in sub):
            raise Unsupported("substitution in an opaque condition")
    return z3.substitute(z, *pairs) if pairs else z


class Log:
    """First old values of everything written since the log was opened."""

    def __init__(self, ctx):
        self.mark = ctx.tick()
        self.cells, self.lists, self.slots, self.ghosts = {}, {}, {}, {}


def atom_facts(a):
    """Facts about an atom (positivity, integer ranges)."""
    if isinstance(a, E.Mono):
        return []
    res = []
    z = E.z3atom(a)
    if a.positive:
        res.append(z > 0 if not z3.is_int(z) else z >= 1)
    elif a.fun is not None and a.fun.nonneg:
        res.append(z >= 0)
    if a.fun is not None and a.fun.facts is not None:
        res += a.fun.facts(a, z)
    return res


def relevant(fs, extra):
    """Path-condition formulas connected with the query through shared symbols."""
    if not extra:
        return fs
    sy = [consts(f) for f in fs]
    live = set()
    for e in extra:
        live |= consts(e)
    # ranges of generic variables connect symbols
    keep = [False] * len(fs)
    changed = True
    while changed:
        changed = False
        for n in list(live):
            r = HOOKS.ranges.get(n)
            if r is not None:
                c = consts(z3of(r)) - live
                if c:
                    live |= c
                    changed = True
        for k, f in enumerate(fs):
            if not keep[k] and (sy[k] & live or not sy[k]):
                keep[k] = True
                if sy[k] - live:
                    live |= sy[k]
                    changed = True
                else:
                    changed = changed or False
    return [f for k, f in enumerate(fs) if keep[k]]


class Local:
    """Local exploration of the decisions that depend on the given symbols."""

    def __init__(self, names):
        self.names = set(names)
        self.script, self.pos, self.trace, self.work = [], 0, [], []

    def choose(self, z):
        if self.pos < len(self.script):
            r = self.script[self.pos]
        else:
            r = True
            self.work.append(self.script[: self.pos] + [False])
            self.script.append(True)
        self.pos += 1
        self.trace.append(z if r else z3.Not(z))
        return r


def explore_local(ctx, names, fn):
    """[(condition, value)] of fn over all decisions depending on ``names``."""
    out, old, oldpc = [], ctx.local, list(ctx.pc)
    loc = Local(names | (old.names if old is not None else set()))
    todo = [[]]
    try:
        while todo:
            if len(out) > 64:
                raise Unsupported("too many local paths")
            loc.script, loc.pos, loc.trace, loc.work = list(todo.pop()), 0, [], []
            ctx.local = loc
            ctx.pc = list(oldpc)
            ctx._entail_cache.clear()
            v = fn()
            out.append((z3.And(*loc.trace) if loc.trace else z3.BoolVal(True), v))
            todo += loc.work
    finally:
        ctx.local, ctx.pc = old, oldpc
        ctx._entail_cache.clear()
    return out


class Explorer:
    """Enumerates all feasible paths by re-execution."""

    def __init__(self, max_paths=400):
        self.stats = Stats()
        self.max_paths = max_paths
        self.script = []
        self.pos = 0
        self.work = []
        self.mixed = {}

    def choose(self, ctx, z):
        if self.pos < len(self.script):
            r = self.script[self.pos]
        else:
            r = True
            self.script.append(True)
            self.work.append(self.script[: self.pos] + [False])
        self.pos += 1
        ctx.decisions.append((r, z))
        return r

    def choose_n(self, ctx, n, label):
        if self.pos < len(self.script):
            r = self.script[self.pos]
        else:
            r = 0
            self.script.append(0)
            for j in range(1, n):
                self.work.append(self.script[: self.pos] + [j])
        self.pos += 1
        ctx.decisions.append((r, label))
        return r

    def run(self, fn):
        """fn(ctx) is executed once per path; yields (ctx, result, exception)."""
        self.work = [[]]
        first, until, seen = None, 0, 0
        while self.work:
            if first is not None and (time.time() > until or seen > 40):
                break
            self.script = list(self.work.pop())
            self.pos = 0
            self.stats.paths += 1
            if self.stats.paths > self.max_paths:
                raise first or Unsupported("too many paths")
            E.reset_fresh()
            for cache in MEMO:
                cache.clear()
            ctx = Ctx(self)
            Ctx.cur = ctx
            HOOKS.ranges.clear()
            HOOKS.entails = ctx.entails
            SymBool.decide = ctx.decide
            from . import tensor as TT

            TT.reset()
            try:
                r = fn(ctx)
                yield ctx, r, None
            except PathAbort:
                continue
            except Unsupported as e:
                # nothing is proved, but other paths may refute an obligation
                if first is None:
                    first, until = e, time.time() + 60
                seen += 1
            except Exception as e:  # an exception of the code under verification
                yield ctx, None, e
        if first is not None:
            raise first
        for k, v in self.mixed.items():
            if len(v) > 1:
                raise Unsupported("iterations of a loop take different branches: " + k[:200])
