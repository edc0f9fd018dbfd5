from specs.common_torch import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED + [
    "torch.nn.MSELoss/BCEWithLogitsLoss/CrossEntropyLoss with default arguments: sum or mean of the per-term losses"
    ], _c.ASSUMPTIONS + ["the model is differentiable and depends on its arguments only",
                         "class indices or labels have the shape which the loss function documents"]


KINDS = ["MSELoss", "BCEWithLogitsLoss", "CrossEntropyLoss"]


def loss_setup(c, kind):
    """(kind, reduction, loss function, batches, model, C, terms, axes): predictions [n, C], [n, rest, C]
    ([n, C, rest] for cross-entropy)."""
    red = c.choice(["mean", "sum"], "reduction")
    more = c.choice([False, True], "additional output dimensions")
    C, = sizes(c, "C")
    rest = [DPack("rest", E.mk(int_fun("restsize", 1), ()), E.mk(int_fun("restrank", 1), ()))] if more else []
    cd = [TT.D(C)]
    ce = kind == "CrossEntropyLoss"
    out = cd + rest if ce else rest + cd
    B = Batches(c, y_dims=rest if ce else rest + cd)
    model = Model(B, out=out)
    loss = getattr(TS, kind)(reduction=red)
    R = rest[0].size if more else ONE
    return kind, red, loss, B, model, C, R, rest


def entry(kind, rest, model, L, n, r, cc):
    """Output of class/entry cc in loss term (n, r)."""
    mid = (r,) if rest else ()
    return model.entry(L, n, cc, *mid) if kind == "CrossEntropyLoss" else model.entry(L, n, *mid, cc)


def term_loss(kind, rest, model, B, b, C, n, r):
    """The un-reduced loss of term (n, r) of mini-batch b."""
    L, y = lam(B.X(b)), B.y(b)
    mid = (r,) if rest else ()
    f = lambda cc: entry(kind, rest, model, L, n, r, cc)
    if kind == "CrossEntropyLoss":
        return E.mk(TS.CE, (E.Lam([C], lambda i: f(i[0])), y.at(n, *mid)))
    if kind == "MSELoss":
        return E.Sum(C, lambda q: (f(q) - y.at(n, *mid, q)) ** 2)
    return E.Sum(C, lambda q: E.mk(TS.BCE, (f(q), y.at(n, *mid, q))))


def term_sum(rest, n, R, fn):
    if not rest:
        return E.Sum(n, lambda i: fn(i, None))
    return E.Sum(n, lambda i: E.Sum(R, lambda r: fn(i, r)))


def scale(kind, red, B, C, R):
    """Factor of the sum over all terms."""
    if red == "sum":
        return ONE
    d = B.total() * R
    return ONE / (d if kind == "CrossEntropyLoss" else d * C)


def product(c, kind):
    dt = SymDType("dt")
    kind, red, loss, B, model, C, R, rest = loss_setup(c, kind)
    Pn, K = sizes(c, "P", "K")
    space = Space("param", Pn)
    params = param_list(space, dt)
    op = c.world.module("curvlinops.gradient_moments").EFLinearOperator(
        model, loss, params, B.data(), check_deterministic=False)
    fV = E.Fun("V")
    V = space.tensors(fV, K, dtype=dt)

    def expected(m, o, k):
        def term(b, n, r):
            x = term_loss(kind, rest, model, B, b, C, n, r)
            return d1(x, m, o) * space.sum(lambda j, i: d1(x, j, i) * E.mk(fV, (j, i, k)))
        return scale(kind, red, B, C, R) * B.sum(lambda b: term_sum(rest, B.n(b), R, lambda n, r: term(b, n, r)))
    tensor_list(c, "product", op @ V, space, [K], expected)
    unchanged_list(c, "frame: input", V, space, fV, [K])
    data_unchanged(c, B)
    unchanged_list(c, "frame: parameters", params, space, E.Fun(TS.THETA, deps=[TS.THETA]), [])


def rejected(c):
    B = Batches(c)
    loss = c.choice([GenericLoss("mean"), TS.L1Loss(), None], "loss")
    Pn, = sizes(c, "P")
    c.raises("unsupported losses: NotImplementedError",
             lambda: c.world.module("curvlinops.gradient_moments").EFLinearOperator(
                 Model(B), loss, param_list(Space("param", Pn), SymDType("dt")), B.data(), check_deterministic=False),
             NotImplementedError)


CASES = [(k, lambda c, k=k: product(c, k), {}) for k in KINDS] + [ ("unsupported losses", rejected, {})]
