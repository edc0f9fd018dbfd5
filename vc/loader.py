"""Mechanical translation of the sources in the repository for symbolic execution.

The sources are parsed on every run.  The translation keeps every statement; it only makes
hookable what Python does not let one overload: loops over collections of symbolic length,
comprehensions, list/dict/set displays, ``in``, attribute assignment (for write logs), tuple
unpacking and starred arguments.  Doc strings and annotations are dropped.
"""
from __future__ import annotations

import ast
import builtins
import os
import sys
import types

from . import py as P
from .expr import Unsupported

REPO = os.environ.get("VC_REPO", "/repo")


def names_assigned(nodes):
    """Local names bound by statements (not descending into nested scopes)."""
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            pass

        visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

        def visit_ExceptHandler(self, n):
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_Global(self, n):
            raise Unsupported("global statement")

    v = V()
    for n in nodes:
        v.visit(n)
    return out


def count(t):
    """Number of targets of an assignment to a tuple (None: with a starred one)."""
    return None if any(isinstance(e, ast.Starred) for e in t.elts) else len(t.elts)


def vc(name, *args):
    return ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), name, ast.Load()), list(args), [])


class Transformer(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.fn = []  # stack of function contexts
        self.cls = []
        self.n = 0
        self.loopdepth = []

    # -- scopes
    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        n.body = [self.visit(x) for x in strip_doc(n.body)]
        n.bases = [self.visit(b) for b in n.bases]
        n.keywords = [self.visit(b) for b in n.keywords]
        self.cls.pop()
        n.body = flatten(n.body)
        return n

    def visit_FunctionDef(self, n):
        a = n.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            params.append(a.vararg.arg)
        if a.kwarg:
            params.append(a.kwarg.arg)
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        n.returns = None
        body = strip_doc(n.body)
        isgen = has_yield(body)
        decs = [ast.unparse(d) for d in n.decorator_list]
        ctx = {"params": set(params), "self": params[0] if params else None, "gen": isgen,
               "loops": 0, "nonlocal": set()}
        for x in ast.walk(ast.Module(body, [])):
            if isinstance(x, ast.Nonlocal):
                ctx["nonlocal"] |= set(x.names)
        local = names_assigned(body) - set(params) - ctx["nonlocal"]
        ctx["locals"] = local
        self.fn.append(ctx)
        saved, self.loopdepth = self.loopdepth, []
        new = flatten([self.visit(x) for x in body])
        self.loopdepth = saved
        self.fn.pop()
        pre = []
        if ctx["loops"] and local:
            pre.append(ast.Assign([ast.Name(x, ast.Store()) for x in sorted(local)],
                                  ast.Attribute(ast.Name("__vc__", ast.Load()), "UNDEF", ast.Load())))
        if isgen:
            ctxmgr = any("contextmanager" in d for d in decs)
            if ctxmgr:
                raise Unsupported("context manager generator")
            pre.append(ast.Assign([ast.Name("__yield__", ast.Store())], vc("VList")))
            new.append(ast.Return(ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), "gen_result", ast.Load()),
                                           [ast.Name("__yield__", ast.Load())], [])))
        n.body = pre + (new or [ast.Pass()])
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        return n

    def visit_AsyncFunctionDef(self, n):
        raise Unsupported("async function")

    def visit_Lambda(self, n):
        saved, self.loopdepth = self.loopdepth, []
        self.generic_visit(n)
        self.loopdepth = saved
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return None
        return self.visit_Assign(ast.copy_location(ast.Assign([n.target], n.value), n))

    # -- assignments
    def visit_Assign(self, n):
        value = self.visit(n.value)
        if len(n.targets) == 1:
            return self.assign(n.targets[0], value)
        self.n += 1
        tmp = f"__t{self.n}"
        self.local(tmp)
        out = [ast.Assign([ast.Name(tmp, ast.Store())], value)]
        for t in n.targets:
            out += aslist(self.assign(t, ast.Name(tmp, ast.Load())))
        return out

    def local(self, name):
        if self.fn:
            self.fn[-1].setdefault("tmps", set()).add(name)

    def assign(self, t, value):
        if isinstance(t, ast.Attribute):
            return ast.Expr(vc("vc_setattr", self.visit(t.value), ast.Constant(self.mangle(t.attr)), value))
        if isinstance(t, (ast.Tuple, ast.List)):
            value = vc("unpack_iter", value, ast.Constant(count(t)))
            if any(isinstance(e, (ast.Attribute,)) for e in t.elts):
                self.n += 1
                names, out = [], []
                for k, e in enumerate(t.elts):
                    names.append(ast.Name(f"__u{self.n}_{k}", ast.Store()))
                out.append(ast.Assign([ast.Tuple(names, ast.Store())], value))
                for k, e in enumerate(t.elts):
                    out += aslist(self.assign(e, ast.Name(f"__u{self.n}_{k}", ast.Load())))
                return out
            return ast.Assign([self.target(t)], value)
        return ast.Assign([self.target(t)], value)

    def target(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            return ast.Tuple([self.target(e) for e in t.elts], ast.Store())
        if isinstance(t, ast.Name):
            return t
        return self.visit(t)

    def visit_AugAssign(self, n):
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Attribute):
            # evaluate, operate in place, store
            self.n += 1
            o = f"__o{self.n}"
            return [ast.Assign([ast.Name(o, ast.Store())], self.visit(n.target.value)),
                    ast.Assign([ast.Name(o + "v", ast.Store())],
                               ast.Attribute(ast.Name(o, ast.Load()), n.target.attr, ast.Load())),
                    ast.AugAssign(ast.Name(o + "v", ast.Store()), n.op, n.value),
                    ast.Expr(vc("vc_setattr", ast.Name(o, ast.Load()), ast.Constant(self.mangle(n.target.attr)),
                                ast.Name(o + "v", ast.Load())))]
        if not isinstance(n.target, ast.Name):
            n.target = self.visit(n.target)
        return n

    def mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__") and self.cls:
            return "_" + self.cls[-1].lstrip("_") + attr
        return attr

    # -- loops
    def loop_closures(self, body, extra=()):
        names = names_assigned(body) | set(extra)
        ctx = self.fn[-1]
        names = sorted(x for x in names if x in ctx["locals"] or x in ctx["params"] or x in ctx["nonlocal"])
        return names

    def visit_For(self, n):
        if not self.fn:
            raise Unsupported("module-level loop")
        self.fn[-1]["loops"] += 1
        self.n += 1
        k = self.n
        names = self.loop_closures(n.body + [ast.Assign([n.target], ast.Constant(0))])
        it = self.visit(n.iter)
        self.loopdepth.append("for")
        tgt = aslist(self.assign(n.target, ast.Name("__it", ast.Load())))
        body = flatten([self.visit(x) for x in n.body])
        self.loopdepth.pop()
        return self.emit(k, names, tgt + body, it, n, "loop", None)

    def visit_While(self, n):
        self.fn[-1]["loops"] += 1
        self.n += 1
        k = self.n
        names = self.loop_closures(n.body)
        test = self.visit(n.test)
        self.loopdepth.append("while")
        body = flatten([self.visit(x) for x in n.body])
        self.loopdepth.pop()
        return self.emit(k, names, body, None, n, "while_", test)

    def emit(self, k, names, body, it, n, helper, test):
        fb, fg, fs, rv = f"__body{k}", f"__get{k}", f"__set{k}", f"__r{k}"
        non = [ast.Nonlocal(names)] if names else []
        noargs = ast.arguments([], [], None, [], [], None, [])
        fbody = ast.FunctionDef(fb, ast.arguments([], [ast.arg("__it")], None, [], [], None, []),
                                non + body, [], None)
        get = ast.FunctionDef(fg, noargs, [ast.Return(ast.Dict([ast.Constant(x) for x in names],
                                                               [ast.Name(x, ast.Load()) for x in names]))], [], None)
        sets = []
        for x in names:
            sets.append(ast.If(ast.Compare(ast.Constant(x), [ast.In()], [ast.Name("__d", ast.Load())]),
                               [ast.Assign([ast.Name(x, ast.Store())],
                                           ast.Subscript(ast.Name("__d", ast.Load()), ast.Constant(x), ast.Load()))], []))
        setf = ast.FunctionDef(fs, ast.arguments([], [ast.arg("__d")], None, [], [], None, []),
                               non + (sets or [ast.Pass()]), [], None)
        label = ast.Constant(f"{self.fname}:{n.lineno}")
        first = it if test is None else ast.Lambda(noargs, test)
        call = vc(helper, first, ast.Name(fb, ast.Load()), ast.Name(fg, ast.Load()), ast.Name(fs, ast.Load()), label)
        out = [fbody, get, setf, ast.Assign([ast.Name(rv, ast.Store())], call)]
        # propagate return
        sig = ast.Call(ast.Name("isinstance", ast.Load()), [ast.Name(rv, ast.Load()),
                       ast.Attribute(ast.Name("__vc__", ast.Load()), "RetSignal", ast.Load())], [])
        if has_return(n.body):
            if self.loopdepth:
                prop = ast.Return(ast.Name(rv, ast.Load()))
            else:
                prop = ast.Return(ast.Attribute(ast.Name(rv, ast.Load()), "value", ast.Load()))
            out.append(ast.If(sig, [prop], []))
        if n.orelse:
            orelse = flatten([self.visit(x) for x in n.orelse])
            out.append(ast.If(ast.Compare(ast.Name(rv, ast.Load()), [ast.IsNot()],
                                          [ast.Attribute(ast.Name("__vc__", ast.Load()), "BRK", ast.Load())]),
                              orelse, []))
        return out

    def visit_Return(self, n):
        v = self.visit(n.value) if n.value is not None else ast.Constant(None)
        if self.loopdepth:
            return ast.Return(vc("RetSignal", v))
        if self.fn and self.fn[-1]["gen"]:
            return ast.Return(vc("gen_result", ast.Name("__yield__", ast.Load())))
        n.value = v
        return n

    def visit_Break(self, n):
        return ast.Return(ast.Attribute(ast.Name("__vc__", ast.Load()), "BRK", ast.Load()))

    def visit_Continue(self, n):
        return ast.Return(ast.Constant(None))

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            v = self.visit(n.value.value) if n.value.value is not None else ast.Constant(None)
            return ast.Expr(ast.Call(ast.Attribute(ast.Name("__yield__", ast.Load()), "append", ast.Load()), [v], []))
        if isinstance(n.value, ast.YieldFrom):
            return ast.Expr(ast.Call(ast.Attribute(ast.Name("__yield__", ast.Load()), "extend", ast.Load()),
                                     [self.visit(n.value.value)], []))
        self.generic_visit(n)
        return n

    def visit_Yield(self, n):
        raise Unsupported("yield expression")

    # -- nested functions are statements of the enclosing scope
    # -- expressions
    def comp(self, kind, n, elt):
        gens = n.generators

        def build(k):
            g = gens[k]
            inner = elt() if k == len(gens) - 1 else None
            if inner is not None:
                res = ast.List([inner], ast.Load())
            else:
                res = ast.Call(ast.Name("__vclist__", ast.Load()), [build(k + 1)], [])
            # [BODY for TARGET in (x,) if COND] evaluated natively
            if inner is not None:
                lst = ast.ListComp(inner, [ast.comprehension(self.ctarget(g.target),
                                                             ast.Tuple([self.cvalue(g.target)], ast.Load()),
                                                             [self.visit(c) for c in g.ifs], 0)])
            else:
                self.n += 1
                y = f"__y{self.n}"
                lst = ast.ListComp(ast.Name(y, ast.Load()), [
                    ast.comprehension(self.ctarget(g.target), ast.Tuple([self.cvalue(g.target)], ast.Load()),
                                      [self.visit(c) for c in g.ifs], 0),
                    ast.comprehension(ast.Name(y, ast.Store()), res, [], 0)])
            lam = ast.Lambda(ast.arguments([], [ast.arg("__it")], None, [], [], None, []), lst)
            return vc("comp", ast.Constant(kind if k == 0 else "list"), self.visit(g.iter), lam)

        return build(0)

    def ctarget(self, t):
        return self.target(t)

    def cvalue(self, t):
        v = ast.Name("__it", ast.Load())
        return vc("unpack_iter", v, ast.Constant(count(t))) if isinstance(t, (ast.Tuple, ast.List)) else v

    def visit_ListComp(self, n):
        return self.comp("list", n, lambda: self.visit(n.elt))

    def visit_SetComp(self, n):
        return self.comp("set", n, lambda: self.visit(n.elt))

    def visit_GeneratorExp(self, n):
        return self.comp("gen", n, lambda: self.visit(n.elt))

    def visit_DictComp(self, n):
        return self.comp("dict", n, lambda: ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load()))

    def visit_List(self, n):
        if isinstance(n.ctx, ast.Store):
            return n
        self.generic_visit(n)
        return vc("VList", ast.List(n.elts, ast.Load()))

    def visit_Tuple(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            return vc("mktuple", n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return vc("VSet", ast.List(n.elts, ast.Load()))

    def visit_Dict(self, n):
        self.generic_visit(n)
        return vc("VDict", n)

    def visit_Starred(self, n):
        if isinstance(n.ctx, ast.Store):
            return n
        return ast.Starred(vc("star", self.visit(n.value)), ast.Load())

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = vc("contains", n.left, n.comparators[0])
            return c if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), c)
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return ast.Call(n.func, [ast.Name("__class__", ast.Load()), ast.Name(self.fn[0]["self"] if False else self.self_name(), ast.Load())], [])
        self.generic_visit(n)
        return n

    def self_name(self):
        return self.fn[-1]["self"]

    def visit_JoinedStr(self, n):
        # texts of messages do not matter unless they are used as keys
        self.generic_visit(n)
        return n

    def visit_FormattedValue(self, n):
        n.value = vc("fmt", self.visit(n.value), ast.Constant(n.conversion))
        n.conversion = -1
        n.format_spec = None
        return n

    def visit_Assert(self, n):
        self.generic_visit(n)
        return n

    def visit_Delete(self, n):
        self.generic_visit(n)
        return n


def fmt(x, conv=-1):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return repr(x) if conv == 114 else str(x)
    try:
        return repr(x)[:60]
    except BaseException:  # message texts do not matter
        return "?"


P.fmt = fmt


def gen_result(lst):
    s = P.as_seq(lst)
    c = s.concrete()
    return iter(c) if c is not None else s


P.gen_result = gen_result


def aslist(x):
    return x if isinstance(x, list) else [x]


def flatten(xs):
    out = []
    for x in xs:
        if x is None:
            continue
        if isinstance(x, list):
            out += flatten(x)
        else:
            out.append(x)
    return out


def strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
            and isinstance(body[0].value.value, str):
        body = body[1:]
    return body or [ast.Pass()]


def has_yield(body):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True

        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass

        visit_Lambda = visit_ClassDef = visit_FunctionDef

    v = V()
    for b in body:
        v.visit(b)
    return v.found


def has_return(body):
    class V(ast.NodeVisitor):
        found = False

        def visit_Return(self, n):
            self.found = True

        def visit_FunctionDef(self, n):
            pass

        visit_Lambda = visit_ClassDef = visit_FunctionDef

    v = V()
    for b in body:
        v.visit(b)
    return v.found


# statements with nested blocks
def _block(self, n):
    for f in ("test", "items", "subject"):
        v = getattr(n, f, None)
        if isinstance(v, ast.AST):
            setattr(n, f, self.visit(v))
        elif isinstance(v, list):
            setattr(n, f, [self.visit(x) for x in v])
    for f in ("body", "orelse", "finalbody"):
        v = getattr(n, f, None)
        if v:
            setattr(n, f, flatten([self.visit(x) for x in v]) or [ast.Pass()])
    for h in getattr(n, "handlers", []) or []:
        h.body = flatten([self.visit(x) for x in h.body]) or [ast.Pass()]
        if h.type is not None:
            h.type = self.visit(h.type)
    if isinstance(n, ast.Try):
        vc_ = lambda k: ast.Attribute(ast.Name("__vc__", ast.Load()), k, ast.Load())
        if n.handlers:
            n.handlers.insert(0, ast.ExceptHandler(vc_("INTERNAL"), None, [ast.Raise(None, None)]))
        if n.finalbody:
            n.finalbody = [ast.If(vc("live"), n.finalbody, [])]
    return n


for _n in ("If", "With", "Try"):
    setattr(Transformer, f"visit_{_n}", _block)


BUILTINS = dict(vars(builtins))
for _k in ("len", "sum", "all", "any", "zip", "enumerate", "range", "min", "max", "abs", "isinstance",
           "list", "tuple", "set", "sorted", "reversed", "map", "filter", "iter", "next", "float", "int",
           "print", "round", "dict", "type"):
    pass


class TypeProxyMeta(type):
    """int, float, list, ... stay types for isinstance but convert symbolically."""


def _proxy(real, fn):
    fn.vc_real = real
    return fn


class World:
    """Fresh copies of the repository's modules for one symbolic run."""

    OK = {"typing", "collections", "collections.abc", "functools", "itertools", "warnings", "__future__",
          "numbers", "abc", "enum", "contextlib", "dataclasses", "copy", "re", "types", "operator"}

    def __init__(self, stubs, repo=None):
        self.repo = repo or REPO
        self.stubs = stubs  # name -> module
        self.mods = {}
        self.sources = set()
        b = dict(vars(builtins))
        for k in ("len", "sum", "all", "any", "zip", "enumerate", "range", "min", "max", "abs", "sorted",
                  "reversed", "map", "filter", "iter", "next", "print", "round", "isinstance"):
            b[k] = getattr(P, "b_" + k)
        b["list"], b["tuple"], b["set"], b["dict"] = ListP, TupleP, SetP, DictP
        b["float"], b["int"], b["type"] = FloatP, IntP, TypeP
        b["frozenset"] = SetP
        b["isinstance"] = isinstance_
        b["__import__"] = self.imp
        b["__vclist__"] = list
        self.b = b

    def path(self, name):
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        return base + ".py", False

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            pkg = pkg[: len(pkg) - level + 1]
            name = ".".join(pkg + ([name] if name else []))
        top = name.split(".")[0]
        if top == "curvlinops":
            m = self.module(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self.module(name + "." + f))
                        except FileNotFoundError:
                            pass
                return m
            return self.module(top)
        if name in self.OK:
            r = __import__(name, None, None, fromlist, 0)
            return r
        m = self.stubs.get(name)
        if m is None:
            m = self.stubs[name] = StubModule(name)
        if fromlist or "." not in name:
            return m
        return self.stubs.get(top) or StubModule(top)

    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path, ispkg = self.path(name)
        m = types.ModuleType(name)
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        m.__file__ = path
        self.mods[name] = m
        if ispkg and name == "curvlinops":
            m.__path__ = []
            return m  # the package only re-exports names
        code = compiled(path, name)
        self.sources.add(path)
        m.__dict__["__builtins__"] = self.b
        m.__dict__["__vc__"] = P
        exec(code, m.__dict__)
        return m


_COMPILED: dict = {}


def compiled(path, name):
    with open(path) as f:
        src = f.read()
    key = (path, src)
    c = _COMPILED.get(key)
    if c is None:
        tree = ast.parse(src)
        tree.body = strip_doc(tree.body)
        tr = Transformer(name)
        tree = tr.visit(tree)
        tree.body = flatten(tree.body)
        ast.fix_missing_locations(tree)
        c = _COMPILED[key] = compile(tree, f"<vc {name}>", "exec")
    return c


class StubModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return P.StubAttr(f"{self.__name__}.{k}")


class _Conv:
    """Callable stand-in for a built-in type."""

    def __init__(self, real, fn):
        self.real, self.fn = real, fn
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def vc_instancecheck(self, x):
        return P.b_isinstance(x, self.real)

    def __getattr__(self, k):
        return getattr(self.real, k)

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)

    def __repr__(self):
        return repr(self.real)

    def __mro_entries__(self, bases):
        return (self.real,)


ListP, TupleP = _Conv(list, P.b_list), _Conv(tuple, P.b_tuple)
SetP, DictP = _Conv(set, P.b_set), _Conv(dict, P.b_dict)
FloatP, IntP = _Conv(float, P.b_float), _Conv(int, P.b_int)
TypeP = _Conv(type, P.b_type)


def isinstance_(x, t):
    if isinstance(t, (tuple, P.VList)):
        return any(isinstance_(x, u) for u in t)
    return P.b_isinstance(x, t)
