"""One fixed matrix: the average outer product of gradients w.r.t. sampled labels."""
from specs.c05 import KINDS, entry, loss_setup, scale, term_sum
from specs.common_torch import *
from specs import common_torch as _c, c05 as _5
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _5.TRUSTED + [
    "torch.Generator: the draws are a function of the seed, the number of preceding draws, the distribution's "
    "parameters and the entry; torch.normal/multinomial/bernoulli draw from the distributions they document"
    ], _5.ASSUMPTIONS + [
    "gradients of the negative log-likelihoods w.r.t. the predictions: 2 (f - y), softmax(f) - onehot(y), sigmoid(f) - y"]


def label_gradient(kind, rest, model, B, seed, b, C, s, n, r, cc):
    """Derivative of the un-reduced loss of term (n, r) with sampled label s w.r.t. its prediction's entry cc."""
    L = lam(B.X(b))
    f = lambda k: E.freeze(entry(kind, rest, model, L, n, r, k))
    row = (n, r) if rest else (n,)
    pos = Ex.of(b)
    if kind == "MSELoss":
        # y = f + sqrt(1/2) z with z standard normal, hence 2 (f - y) = -2 sqrt(1/2) z
        return -2 * E.ex_sqrt(Ex.const(E.Fraction(1, 2))) * E.mk(TS.NORM, (seed, pos, s) + row + (cc,))
    if kind == "CrossEntropyLoss":
        prob = lambda k: E.ex_exp(f(k)) / E.Sum(C, lambda q: E.ex_exp(f(q)))
        y = E.mk(TS.MULT, (E.Lam([C], lambda i: prob(i[0])), seed, pos) + row + (s,))
        return prob(cc) - E.delta(y, cc)
    prob = 1 / (1 + E.ex_exp(-f(cc)))
    return prob - E.mk(TS.BERN, (prob, seed, pos, s) + row + (cc,))


def product(c, kind):
    dt = SymDType("dt")
    kind, red, loss, B, model, C, R, rest = loss_setup(c, kind)
    Pn, K, K2, S = sizes(c, "P", "K", "K2", "S")
    seed = E.integer("seed")
    space = Space("param", Pn)
    params = param_list(space, dt)
    op = c.world.module("curvlinops.fisher").FisherMCLinearOperator(
        model, loss, params, B.data(), check_deterministic=False, seed=seed, mc_samples=S)
    fV, fW = E.Fun("V"), E.Fun("W")

    def matrix(f):
        def expected(m, o, k):
            def term(b, n, r):
                L = lam(B.X(b))
                F = lambda cc: entry(kind, rest, model, L, n, r, cc)
                g = lambda s, cc: label_gradient(kind, rest, model, B, seed, b, C, s, n, r, cc)
                gJ = lambda s, j, i: E.Sum(C, lambda cc: g(s, cc) * d1(F(cc), j, i))
                return E.Sum(S, lambda s: gJ(s, m, o) * space.sum(lambda j, i: gJ(s, j, i) * E.mk(f, (j, i, k)))) / S
            return scale(kind, red, B, C, R) * B.sum(lambda b: term_sum(rest, B.n(b), R, lambda n, r: term(b, n, r)))
        return expected
    V, W = space.tensors(fV, K, dtype=dt), space.tensors(fW, K2, dtype=dt)
    out, e = c.call(lambda: (op @ V, op.adjoint() @ W, op @ V))
    preds = [z for z in c.ctx.pc if "values:" in str(z)]
    if e is not None:
        c.true("labels that are not binary: NotImplementedError", kind == "BCEWithLogitsLoss" and isinstance(
            e, NotImplementedError) and any("Not(values:0&1<" in str(z) for z in preds), f"{type(e).__name__}: {e}")
        return
    if kind == "BCEWithLogitsLoss":
        c.true("accepted labels are binary", any("values:0&1<" in str(z) for z in preds) and not any(
            "Not(values" in str(z) for z in preds), str(preds)[:200])
    for name, t, f, k in (("product", out[0], fV, K), ("adjoint, after another product", out[1], fW, K2),
                          ("repeated product", out[2], fV, K)):
        tensor_list(c, name, t, space, [k], matrix(f))
    unchanged_list(c, "frame: input", V, space, fV, [K])
    data_unchanged(c, B)
    unchanged_list(c, "frame: parameters", params, space, E.Fun(TS.THETA, deps=[TS.THETA]), [])


def rejected(c):
    B = Batches(c)
    loss = c.choice([GenericLoss("mean"), TS.L1Loss(), None], "loss")
    Pn, = sizes(c, "P")
    c.raises("unsupported losses: NotImplementedError",
             lambda: c.world.module("curvlinops.fisher").FisherMCLinearOperator(
                 Model(B), loss, param_list(Space("param", Pn), SymDType("dt")), B.data(), check_deterministic=False),
             NotImplementedError)


CASES = [(k, lambda c, k=k: product(c, k), {}) for k in KINDS] + [("unsupported losses", rejected, {})]
