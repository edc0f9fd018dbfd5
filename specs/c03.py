from specs.common_torch import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED, _c.ASSUMPTIONS + [
    "model and loss function are twice differentiable and depend on their arguments only"]


def setup(c, blocks):
    """blocks: number of blocks or None"""
    red = c.choice(["mean", "sum"], "reduction")
    dt = SymDType("dt")
    B = Batches(c)
    model = Model(B)
    loss = GenericLoss(red)
    kw = {}
    same = lambda m, j: ONE
    if blocks is None:
        Pn, = sizes(c, "P")
    else:
        bs = sizes(c, *[f"bs{q}" for q in range(blocks)])
        Pn = E.add_all(bs)
        kw["block_sizes"] = P.VList(bs)
        lo = [E.add_all(bs[:q]) for q in range(blocks)]
    space = Space("param", Pn)
    params = param_list(space, dt)
    Op = c.world.module("curvlinops.hessian").HessianLinearOperator
    op = Op(model, loss, params, B.data(), check_deterministic=False, **kw)
    w = (lambda b: ONE) if red == "sum" else (lambda b: B.n(b) / B.total())
    risk = B.sum(lambda b: w(b) * loss.value(model.tensor(B.X(b)), B.y(b)))
    ranges = [(ZERO, Pn)] if blocks is None else [(a, s) for a, s in zip(lo, bs)]
    return op, space, params, B, risk, ranges, dt


def product(blocks):
    def case(c):
        op, space, params, B, risk, ranges, dt = setup(c, blocks)
        K, = sizes(c, "K")
        fV = E.Fun("V")
        V = space.tensors(fV, K, dtype=dt)
        Y = op @ V
        c.holds("length of the list", Ex.of(P.as_seq(Y).length()) == space.n)
        for q, (lo, s) in enumerate(ranges):
            p = E.integer(f"%p{q}")
            E.HOOKS.ranges[f"%p{q}"] = s
            m = lo + p
            c.tensor("product", P.as_seq(Y).get(m), [space.dim(m), K], lambda o, k: E.Sum(s, lambda t: E.Sum(
                space.size(lo + t), lambda i: d2(risk, lo + t, i, m, o) * E.mk(fV, (lo + t, i, k)))))
        unchanged_list(c, "frame: input", V, space, fV, [K])
        data_unchanged(c, B)
        unchanged_list(c, "frame: parameters", params, space, E.Fun(TS.THETA, deps=[TS.THETA]), [])
    return case


def rejected(c):
    red = "mean"
    dt = SymDType("dt")
    B = Batches(c)
    model, loss = Model(B), GenericLoss(red)
    Pn, = sizes(c, "P")
    params = param_list(Space("param", Pn), dt)
    n = c.choice([1, 2, 3], "number of blocks")
    bs = [E.integer(f"bs{q}") for q in range(n)]
    ok = E.add_all(bs) == Pn
    for b in bs:
        ok = E.sym_and(ok, b >= 1)
    _, e = c.call(lambda: c.world.module("curvlinops.hessian").HessianLinearOperator(
        model, loss, params, B.data(), check_deterministic=False, block_sizes=P.VList(bs)))
    if e is None:
        c.holds("accepted block sizes are positive and sum to the number of parameters", ok)
    else:
        c.true("ValueError", isinstance(e, ValueError), f"{type(e).__name__}: {e}")
        c.holds("rejected block sizes are not positive or have another sum", E.sym_not(ok))


CASES = [("rejected block sizes", rejected, {})] + [("full", product(None), {})] + [(f"{n} blocks", product(n), {}) for n in (1, 2, 3)]
BOUNDED = ["1, 2 and 3 blocks, each of any number of parameters"]
