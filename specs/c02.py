from specs.common_torch import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED, _c.ASSUMPTIONS + [
    "a subclass's _matmat_batch is linear in the matrix, acts column by column, depends only on the mini-batch, and "
    "does not modify its arguments (contracts proved for the subclasses under C03-C06)"]


def setup(c, reduction, mapping, given_bs, given_N, in_out=False):
    Pn, = sizes(c, "P")
    dt = SymDType("dt")
    space = Space("param", Pn)
    params = param_list(space, dt)
    B = Batches(c, mapping)
    base = c.world.module("curvlinops._torch_base").CurvatureLinearOperator
    fB = E.Fun("B")
    seen = []

    def entry(X, y, m, o, j, i):
        return E.mk(fB, (lam(tensor_of(X)), lam(y), m, o, j, i))

    class Op(base):
        def _matmat_batch(self, X, y, M):
            s = P.as_seq(M)
            K = s.get(ZERO).dims[-1]
            X, y = lam(tensor_of(X)), lam(y)
            memo = {}

            def src(j):
                if j.key not in memo:
                    memo[j.key] = s.get(j).snapshot()
                return memo[j.key]
            # the argument must be the user's matrix
            j = E.integer("%j")
            E.HOOKS.ranges["%j"] = Pn
            src(j)
            r = P.VList(P.Seq.sym(Pn, lambda m: TS.Tensor.make(
                [space.dim(m), K], lambda o, k: space.sum(
                    lambda j, i: E.mk(fB, (X, y, Ex.of(m), o, j, i)) * src(j)(i, k)), dt)))
            return r
    kw = {}
    size = B.n
    if given_bs:
        fbs = int_fun("bs", 1)
        kw["batch_size_fn"] = lambda X: E.mk(fbs, (lam(tensor_of(X)),))
        size = lambda b: E.mk(fbs, (lam(B.X(b)),))
    N = E.Sum(B.nb, size)
    if given_N:
        kw["num_data"] = N = E.integer("Ngiven")
        c.assume(N >= 1)
    data = B.data()
    op = Op(lambda X: None, Loss(reduction), params, data, check_deterministic=False, **kw)
    w = (lambda b: ONE) if reduction == "sum" else (lambda b: size(b) / N)

    def matrix(m, o, j, i):
        return B.sum(lambda b: w(b) * entry(B.X(b), B.y(b), m, o, j, i))
    return op, space, matrix, dt, params, data, B


def product(c):
    red = c.choice(["mean", "sum"], "reduction")
    mapping = c.choice([False, True], "dict-like inputs")
    op, space, matrix, dt, params, data, B = setup(
        c, red, mapping, mapping or c.choice([False, True], "batch_size_fn"), c.choice([False, True], "num_data"))
    K, = sizes(c, "K")
    fV = E.Fun("V")
    V = space.tensors(fV, K, dtype=dt)
    for rep in ("product", "second product"):
        Y = op @ V
        tensor_list(c, rep, Y, space, [K], lambda m, o, k: space.sum(lambda j, i: matrix(m, o, j, i) * E.mk(fV, (j, i, k))))
    unchanged_list(c, "frame: input", V, space, fV, [K])
    fv = E.Fun("v")
    v = space.flat_tensor(fv, dtype=dt)
    c.tensor("flat vector product", op @ v, [space.flat()], lambda s: space.sum(
        lambda j, i: matrix(s[1], s[2], j, i) * E.mk(fv, (j, i))))
    c.holds("shape", E.sym_and(op.shape[0] == space.flat().size, op.shape[1] == space.flat().size))
    data_unchanged(c, B)
    unchanged_list(c, "frame: parameters", params, space, E.Fun(TS.THETA, deps=[TS.THETA]), [])


def dict_without_size(c):
    c.raises("dict-like inputs require batch_size_fn",
             lambda: setup(c, "mean", True, False, c.choice([False, True], "num_data")), ValueError)


CASES = [("product", product, {}), ("dict-like inputs", dict_without_size, {})]
