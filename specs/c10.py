"""Model and data may give other quantities in every pass."""
import z3

from vc.expr import Sum as E_Sum

from specs.common_torch import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED + [
    "allclose: true for equal tensors, otherwise an unknown relation (tolerances are checked separately)"
    ], _c.ASSUMPTIONS + ["all passes have the same number and sizes of mini-batches",
                         "a product reads the data in one pass"]


class Passes(P.Stub):
    """Data with contents which depend on the pass."""

    def __init__(self, B, same):
        self.B, self.same, self.n = B, same, 0
        self.fams = {}

    def X(self, p, b):
        return self.get("X", p, b)

    def y(self, p, b):
        return self.get("y", p, b)

    def get(self, kind, p, b):
        p = 0 if self.same else p
        if (kind, p) not in self.fams:
            f = E.Fun(f"{kind}_in{p}")
            self.fams[kind, p] = family(lambda *i: E.mk(f, tuple(i)), f.name)
        B = self.B
        return self.fams[kind, p](b, [TT.D(B.n(b))] + ([B.xfeat] if kind == "X" else B.ydims))

    def vc_seq(self):
        p, self.n = self.n, self.n + 1

        def element(b):
            X = self.X(p, Ex.of(b))
            X.meta = {"pass": p}
            return (P.VDict({"x": X}) if self.B.mapping else X, self.y(p, Ex.of(b)))
        return P.Seq.sym(self.B.nb, element)


class PassModel(Model):
    def __init__(self, B, same):
        super().__init__(B)
        self.same, self.fs = same, {}

    def tensor(self, X, p=None):
        X = tensor_of(X)
        p = 0 if self.same else X.meta["pass"] if p is None else p
        if p not in self.fs:
            self.fs[p] = E.Fun(f"F{p}", deps=[TS.THETA])
        f, L = self.fs[p], lam(X)
        t = TS.Tensor.make([X.dims[0]] + self.out, lambda *i: E.mk(f, (L,) + tuple(
            x for q in i for x in TT.flatten_idx(q))), self.dtype, name="F")
        t.requires_grad = True
        return t


class Setup:
    def __init__(self, c, same, fixed, loss):
        self.c = c
        self.dt = dt = SymDType("dt")
        self.B = B = Batches(c, c.choice([False, True], "dict-like inputs"))
        self.data, self.model = Passes(B, same), PassModel(B, same)
        self.loss = None if loss is None else GenericLoss(loss)
        Pn, = sizes(c, "P")
        self.space = space = Space("param", Pn)
        self.params = param_list(space, dt)
        self.base = base = c.world.module("curvlinops._torch_base").CurvatureLinearOperator
        self.products = 0
        self.devices = devices = []
        me = self

        class Op(base):
            FIXED_DATA_ORDER = fixed

            def _infer_device(self):
                return TS.Device("accelerator")

            def to_device(self, device):
                devices.append(device)
                self._device = device

            def _loop_over_data(self, *a, **k):
                # the contract of loading to a device: same values
                return iter_(me.data)

            def _matmat(self, M):
                q, me.products = me.products, me.products + 1
                s = P.as_seq(M)
                K = s.get(ZERO).dims[-1]
                f = me.matrix(q)
                return P.VList(P.Seq.sym(Pn, lambda m: TS.Tensor.make([space.dim(m), K], lambda o, k: space.sum(
                    lambda j, i: E.mk(f, (Ex.of(m), o, j, i)) * s.get(j).snapshot()(i, k)), dt)))
        self.Op = Op
        self.same = same

    def matrix(self, q):
        return E.Fun(f"A{0 if self.same else q}")

    def create(self):
        op = self.Op.__new__(self.Op)
        kw = {"batch_size_fn": lambda X: X["x"].shape[0]} if self.B.mapping else {}
        _, e = self.c.call(lambda: op.__init__(self.model, self.loss, self.params, self.data, **kw))
        return op, e

    # -- quantities of pass p
    def weight(self, b):
        return ONE if self.loss is None or self.loss.reduction == "sum" else self.B.n(b) / self.B.total()

    def batch_loss(self, p, b):
        return self.weight(b) * self.loss.value(self.model.tensor(self.data.X(p, b), p), self.data.y(p, b))

    def total_loss(self, p):
        return self.B.sum(lambda b: self.batch_loss(p, b))


def iter_(data):
    return P.GenLazy(data.vc_seq(), lambda x: [x]) if hasattr(P, "GenLazy") else data


def scalar(x):
    return TS.Tensor.make([], lambda: x)


def conditions(S, p, q, fixed):
    """Closeness of the quantities of the passes p and q."""
    out = []
    c, sp, B = S.c, S.space, S.B
    j, b = E.integer("%jj"), E.integer("%bb")
    E.HOOKS.ranges["%jj"], E.HOOKS.ranges["%bb"] = sp.n, B.nb

    def grad(x):
        return TS.Tensor.make([sp.dim(j)], lambda i: d1(x, j, i))

    def all_of(z, *vs):
        z = E.boolz(z)
        if z3.is_true(z):
            return z
        for v, n in vs:
            i = z3.Int(v)
            z = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < E.z3of(Ex.of(n))), z))
        return z
    J, Bb = ("%jj", sp.n), ("%bb", B.nb)
    if S.loss is not None:
        out.append(("total loss", all_of(TS.closeness(scalar(S.total_loss(p)), scalar(S.total_loss(q))))))
        out.append(("total gradient", all_of(TS.closeness(grad(S.total_loss(p)), grad(S.total_loss(q))), J)))
    if fixed:
        out.append(("inputs", all_of(TS.closeness(S.data.X(p, b), S.data.X(q, b)), Bb)))
        out.append(("labels", all_of(TS.closeness(S.data.y(p, b), S.data.y(q, b)), Bb)))
        F = [S.model.tensor(S.data.X(r, b), r) for r in (p, q)]
        out.append(("predictions", all_of(TS.closeness(*F), Bb)))
        if S.loss is not None:
            ls = [S.batch_loss(r, b) for r in (p, q)]
            out.append(("batch losses", all_of(TS.closeness(*map(scalar, ls)), Bb)))
            out.append(("batch gradients", all_of(TS.closeness(*map(grad, ls)), J, Bb)))
    return out


def products(S):
    n = S.products
    f = [S.matrix(q) for q in range(n)]
    # the vector of the last product
    pos = 0
    v = E.Fun
    out = []
    sp = S.space
    for p in range(n):
        for q in range(p + 1, n):
            for pos in range(2):
                vec = lambda j, i: E.mk(TS.UNI, (Ex.of(-10 ** 6), Ex.of(pos), E_Sum(j, lambda t: sp.dim(t).size) + i))
                Av = [TS.Tensor.make([sp.flat()], lambda s, r=r: sp.sum(
                    lambda j, i: E.mk(f[r], (s[1], s[2], j, i)) * vec(j, i))) for r in (p, q)]
                out.append(E.boolz(TS.closeness(*Av)))
    return out


def different(c, fixed, loss):
    S = Setup(c, False, fixed, loss)
    op, e = S.create()
    n = S.data.n
    pairs = [conditions(S, p, q, fixed) for p in range(n) for q in range(p + 1, n)]
    prods = products(S)
    if not S.loss is None or fixed:
        known = {x for p in pairs for _, z in p for x in preds(z)} | {x for z in prods for x in preds(z)}
    else:
        known = {x for z in prods for x in preds(z)}
    used = {x for z in c.ctx.pc for x in preds(z)}
    if not used <= known:
        return c.rec("compared quantities", "unknown", f"other comparisons {sorted(used - known)[:3]}")
    if e is None:
        for k, (name, _) in enumerate(pairs[0] if pairs else []):
            c.holds(f"accepted: {name} agree", E.mkbool(z3.Or(*[p[k][1] for p in pairs])))
        c.holds("accepted: products agree", E.mkbool(z3.Or(*prods)))
    else:
        c.true("rejected with a RuntimeError", isinstance(e, RuntimeError), f"{type(e).__name__}: {e}")
        c.holds("rejected: some quantity differs", E.mkbool(z3.Or(*[
            z3.Not(z) for p in pairs for _, z in p], *[z3.Not(z) for z in prods])))
    c.true("device is restored", op._device == TS.Device("accelerator"), str(getattr(op, "_device", None)))
    for rtol, atol in getattr(c.ctx.explorer, "tolerances", ()):
        c.true("tolerances are small", 0 <= rtol <= 1e-3 and 0 <= atol <= 1e-4, f"{rtol}, {atol}")


def preds(z):
    from vc.ctx import apps
    return {t.decl().name() for t in apps(z) if t.decl().name().startswith("close<")}


def same(c, fixed, loss):
    S = Setup(c, True, fixed, loss)
    op, e = S.create()
    c.true("a deterministic set-up is accepted", e is None, f"{type(e).__name__}: {e}")
    c.true("device is restored", op._device == TS.Device("accelerator"), str(getattr(op, "_device", None)))


CASES = [(f"{kind}, {'fixed order' if f else 'any order'}, loss {l}", lambda c, fn=fn, f=f, l=l: fn(c, f, l), {})
         for kind, fn in (("deterministic", same), ("arbitrary passes", different))
         for f in (False, True) for l in ("mean", None)]
