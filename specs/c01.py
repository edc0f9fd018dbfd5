from specs.common_torch import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED, _c.ASSUMPTIONS + [
    "the map implemented by a subclass's _matmat is linear and acts column by column (contract of _matmat; the "
    "contracts of the subclasses' _matmat are those of C02-C07, C12, C14)"]


def operator(c, square=False):
    """An operator with any linear map between any two lists of shapes."""
    Pn, Mn = sizes(c, "P", "M")
    ins, outs = Space("in", Pn), Space("out", Mn)
    if square:
        outs = ins
    base = c.world.module("curvlinops._torch_base").PyTorchLinearOperator
    fA = E.Fun("A")
    entry = lambda m, o, j, i: E.mk(fA, (m, o, j, i))
    dt = SymDType("dt")
    seen = []

    class Op(base):
        def _matmat(self, X):
            seen.append(X)
            s = P.as_seq(X)
            PR_contract(c, s, ins)
            K = s.get(ZERO).dims[-1]

            def out(m):
                src = {}

                def f(o, k):
                    def term(j, i):
                        if j.key not in src:
                            src[j.key] = s.get(j).snapshot()
                        return entry(m, o, j, i) * src[j.key](i, k)
                    return ins.sum(term)
                return TS.Tensor.make([outs.dim(m), K], f, dt)
            return P.VList(P.Seq.sym(outs.n, lambda m: out(Ex.of(m))))

    return Op(ins.shapes(), outs.shapes()), ins, outs, entry, dt, seen


def PR_contract(c, s, ins):
    """Precondition of _matmat: a list of tensors [*N_j, K]."""
    j = E.integer("%j")
    E.HOOKS.ranges["%j"] = Ex.of(ins.n)
    c.holds("precondition of _matmat: length", Ex.of(s.length()) == ins.n)
    t, t0 = s.get(j), s.get(ZERO)
    c.true("precondition of _matmat: shapes", len(t.dims) == 2 and TT.same_dim(t.dims[0], ins.dim(j))
           and TT.same_dim(t.dims[1], t0.dims[1]), str(t))


def product(list_format, vector):
    def case(c):
        op, ins, outs, entry, dt, seen = operator(c)
        K = [] if vector else sizes(c, "K")
        fX = E.Fun("X")
        X = ins.tensors(fX, *K, dtype=dt) if list_format else ins.flat_tensor(fX, *K, dtype=dt)
        Y = op @ X
        spec = lambda m, o, *k: ins.sum(lambda j, i: entry(m, o, j, i) * E.mk(fX, (j, i) + k))
        if list_format:
            tensor_list(c, "product", Y, outs, K, spec)
            unchanged_list(c, "frame: input", X, ins, fX, K)
        else:
            c.tensor("product", Y, [outs.flat()] + K, lambda s, *k: spec(s[1], s[2], *k))
            unchanged(c, "frame: input", X, [ins.flat()] + K, fX)
        c.true("the map is applied once", len(seen) == 1)
    return case




def rejected(c, name, op, X, seen):
    _, e = c.call(lambda: op @ X)
    c.true(name + ": ValueError", isinstance(e, ValueError), f"{type(e).__name__}: {e}" if e else "accepted")
    c.true(name + ": the map is not applied", not seen)


def other_objects(c):
    op, ins, outs, entry, dt, seen = operator(c)
    X = ins.tensors(E.Fun("X"), dtype=dt)
    kind = c.choice(["int", "None", "str", "tuple", "list with a number", "set", "dict", "array"], "object")
    obj = {"int": 3, "None": None, "str": "x", "tuple": (X[0],), "list with a number": P.VList([X[0], 1.0]),
           "set": P.VSet([1, 2]), "dict": P.VDict({"x": X[0]}),
           "array": N.NA.make([ins.flat()], lambda s: E.mk(E.Fun("X"), (s[1], s[2])), N.F64)}[kind]
    rejected(c, "other objects", op, obj, seen)


def flat_shapes(c):
    """A tensor of arbitrary sizes is accepted iff it is a vector or a matrix with the right number of rows."""
    op, ins, outs, entry, dt, seen = operator(c)
    r = c.choice([0, 1, 2, 3, 4], "rank")
    ds = sizes(c, *[f"d{q}" for q in range(r)], least=0)
    f = E.Fun("X")
    X = TS.Tensor.make(ds, lambda *i: E.mk(f, tuple(i)), dt, name="X")
    if r not in (1, 2):
        return rejected(c, "tensors of other rank", op, X, seen)
    c.assume(ds[0] != ins.flat().size)
    rejected(c, "other number of rows", op, X, seen)


def list_length(c):
    op, ins, outs, entry, dt, seen = operator(c)
    Q, = sizes(c, "Q", least=0)
    c.assume(Q != ins.n)
    other = Space("in", Q)
    X = other.tensors(E.Fun("X"), *([] if c.choice([True, False], "vector") else sizes(c, "K")), dtype=dt)
    rejected(c, "other length of the list", op, X, seen)


def list_shapes(n, inr=(0, 1, 2), gotr=(0, 1, 2, 3)):
    """Lists of n tensors are accepted iff all are vectors or all are matrices with the same number of columns."""
    def case(c):
        base = c.world.module("curvlinops._torch_base").PyTorchLinearOperator
        seen = []

        class Op(base):
            def _matmat(self, X):
                seen.append(X)
                return P.VList([x for x in X])
        ranks = [c.choice(list(inr), f"rank{q}") for q in range(n)]
        ins = [sizes(c, *[f"s{q}{a}" for a in range(r)], least=1) for q, r in enumerate(ranks)]
        op = Op(P.VList([tuple(s) for s in ins]), P.VList([tuple(s) for s in ins]))
        got = [sizes(c, *[f"x{q}{a}" for a in range(c.choice(list(gotr), f"xrank{q}"))], least=1)
               for q in range(n)]
        X = []
        for q, g in enumerate(got):
            f = E.Fun(f"X{q}")
            X.append(TS.Tensor.make(g, lambda *i, f=f: E.mk(f, tuple(i)), None, name=f"X{q}"))

        def eq(g, s):
            if len(g) != len(s):
                return False
            r = True
            for a, b in zip(g, s):
                r = E.sym_and(r, a == b)
            return r
        vec, mat = True, all(g for g in got)
        for g, s in zip(got, ins):
            vec = E.sym_and(vec, eq(g, s))
            mat = mat and E.sym_and(mat, E.sym_and(eq(g[:-1], s), g[-1] == got[0][-1]))
        _, e = c.call(lambda: op @ P.VList(X))
        ok = E.sym_or(vec, mat)
        if e is None:
            c.holds("accepted lists are vectors or matrices", ok)
            c.true("the map is applied once", len(seen) == 1)
        else:
            c.true("ValueError", isinstance(e, ValueError), f"{type(e).__name__}: {e}")
            c.holds("rejected lists are neither", E.sym_not(ok))
            c.true("the map is not applied to rejected lists", not seen)
    return case


CASES = [(f"{'list' if l else 'flat'} {'vector' if v else 'matrix'}", product(l, v), {})
         for l in (True, False) for v in (True, False)] + [
    ("other objects", other_objects, {}), ("flat shapes", flat_shapes, {}), ("list length", list_length, {}),
    ("list shapes, 1 tensor", list_shapes(1), {}), ("list shapes, 2 tensors", list_shapes(2), {"max_paths": 4000}),
    ("list shapes, 3 tensors", list_shapes(3, (1,), (1, 2)), {"max_paths": 4000})]
BOUNDED = ["list shapes: lists of 1 and 2 tensors of rank 0 to 3, and of 3 tensors of rank 1 or 2 (all sizes); tensors of rank 0 to 4"]
