"""Products with the inverse of KFAC, relative to the contract of _compute_kfac (C11)."""
from specs.kfac_common import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED + [
    "cholesky_inverse(cholesky(M)) is the inverse of M; cholesky fails or not in data types other than float64",
    "eigh(M) returns M's eigenvalues and orthonormal eigenvectors (same M, same result)"], _c.ASSUMPTIONS + [
    "_compute_kfac stores a first factor for each layer whose weight is considered and a second one for each layer "
    "(C11, C16)"]
BOUNDED = ["networks with two supported layers (of any sizes)"]

BOTH = ("weight", "bias")
SUBSETS = [BOTH, ("weight",), ("bias",)]
ORDERS = [(0, 1, 2, 3), (3, 1, 0, 2)]


def inv_module(c):
    return c.world.module("curvlinops.inverse")


def setup(c, kind, order=True, single=False):
    sep = c.choice([True, False], "separate")
    first, second = c.choice(SUBSETS, "layer 0"), c.choice([()] if single else [BOTH, ("weight",), ()], "layer 1")
    net = KNet(c, [(kind, first, first), ("linear", second, BOTH)], c.choice(ORDERS, "order") if second and order else None)
    return net, sep, kfac(c, net, sep)


def sizes_of(net, F, j):
    return factor_dims(net, j, F.sep).size, net.layers[j]["o"]


def damped(fn, n, d):
    """Entries of the inverse of the matrix with d added to the diagonal."""
    lam_ = E.Lam([n, n], lambda i: fn(*i) + d * TT.delta_idx(i[0], i[1]))
    return lambda a, b: E.mk(TS.INV, (lam_, Ex.of(a), Ex.of(b)))


def traces(net, F, j):
    n, m = sizes_of(net, F, j)
    return E.Sum(n, lambda i: F.A(j, i, i)) / n, E.Sum(m, lambda o: F.B(j, o, o)) / m


def dampings(c, net, F, mode, values):
    """Damping of both factors of each layer. Heuristic: depends on the signs of the traces and the lower bound."""
    out = {}
    for j, l in enumerate(net.layers):
        if not l["used"]:
            continue
        if mode == "tuple":
            out[j] = values
        elif mode == "heuristic" and "weight" in l["used"]:
            lam_, low = values
            ta, tb = traces(net, F, j)
            if bool(ta > 0) and bool(tb > 0):
                pi = E.ex_sqrt(ta / tb)
                da, db = E.ex_sqrt(lam_) * pi, E.ex_sqrt(lam_) / pi
                out[j] = (low if bool(low > da) else da), (low if bool(low > db) else db)
            else:
                out[j] = lam_, lam_
        else:
            out[j] = values[0], values[0]
    return out


def check_inverse(c, name, out, net, F, fs, K, mode, values):
    if mode == "exact":
        return check_exact(c, name, out, net, F, fs, K, values[0])
    ds = dampings(c, net, F, mode, values)

    def A(j, a, b):
        return damped(lambda p, q: F.A(j, p, q), sizes_of(net, F, j)[0], ds[j][0])(a, b)

    def B(j, a, b):
        return damped(lambda p, q: F.B(j, p, q), sizes_of(net, F, j)[1], ds[j][1])(a, b)
    check_product(c, name, out, net, F, fs, K, A, B)


def check_exact(c, name, out, net, F, fs, K, d):
    """Eigenvectors (Q_B kron Q_A) diag(1 / (b_p a_q + d)) (Q_B kron Q_A)^T per block."""
    c.true(f"{name}: one tensor per parameter", isinstance(out, (list, tuple)) and len(out) == len(net.params))
    V = entries(net, fs)
    for (j, pn), k in net.pos.items():
        n, m = sizes_of(net, F, j)
        LA = E.Lam([n, n], lambda i: F.A(j, *i))
        LB = E.Lam([m, m], lambda i: F.B(j, *i))
        va, qa = (lambda q: E.mk(N.EIGVAL, (LA, q))), (lambda i, q: E.mk(N.EIGVEC, (LA, Ex.of(i), q)))
        vb, qb = (lambda p: E.mk(N.EIGVAL, (LB, p))), (lambda o, p: E.mk(N.EIGVEC, (LB, Ex.of(o), p)))
        W, ins, joint = V(j), net.in_parts(j), net.joint(j, F.sep)
        n0 = ONE
        for x in ins:
            n0 = n0 * x

        def two(o, i, kk):
            """The part of the operand which is multiplied with both factors."""
            def inner(p, q):
                s = E.Sum(m, lambda r: qb(r, p) * (idx_sum(ins, lambda *t: qa(flat_index(net, j, t), q) * W(
                    "weight", (r,) + t, kk)) + (qa(n0, q) * W("bias", (r,), kk) if joint else ZERO)))
                return qb(o, p) * qa(i, q) * s / (vb(p) * va(q) + d)
            return E.Sum(m, lambda p: E.Sum(n, lambda q: inner(p, q)))

        if pn == "weight":
            fn = lambda o, *rest: two(o, flat_index(net, j, rest[:-1]), rest[-1])
        elif joint:
            fn = lambda o, kk: two(o, n0, kk)
        else:
            fn = lambda o, kk: E.Sum(m, lambda p: qb(o, p) * E.Sum(m, lambda r: qb(r, p) * W("bias", (r,), kk)) / (vb(p) + d))
        c.tensor(name, out[k], net.dims(net.params[k]) + [K], fn)


def values_of(c, mode):
    d, e = E.real("damping"), E.real("second_damping")
    c.assume(d > 0)
    c.assume(e > 0)
    return (d, e)


def inverse(c, op, mode, values, **kw):
    cls = inv_module(c).KFACInverseLinearOperator
    if mode == "tuple":
        return cls(op, damping=values, **kw)
    if mode == "heuristic":
        return cls(op, damping=values[0], use_heuristic_damping=True, min_damping=values[1], **kw)
    if mode == "exact":
        return cls(op, damping=values[0], use_exact_damping=True, **kw)
    return cls(op, damping=values[0], **kw)


def product(c, kind, mode):
    net, sep, op = setup(c, kind, mode != "heuristic", (kind, mode) == ("conv", "heuristic"))
    F = Factors(net, sep).install(op)
    values = values_of(c, mode)
    inv = inverse(c, op, mode, values, cache=c.choice([True, False], "cache"))
    K, = sizes(c, "K")
    ts, fs = operands(net, "V", K)
    us, gs = operands(net, "U", K)
    given = list(ts)
    check_inverse(c, "product", inv @ ts, net, F, fs, K, mode, values)
    if mode != "heuristic":
        check_inverse(c, "second product", inv @ us, net, F, gs, K, mode, values)
    c.true("frame: list of operands", len(ts) == len(given) and all(a is b for a, b in zip(ts, given)))
    for t, p, f in zip(given, net.params, fs):
        unchanged(c, "frame: operand", t, net.dims(p) + [K], f)


CASES = [(f"{kind}-{mode}", lambda c, kind=kind, mode=mode: product(c, kind, mode), {"max_paths": 3000})
         for mode in ("single", "tuple", "heuristic", "exact") for kind in ("linear", "conv")]


def retry(c):
    """Cholesky decompositions which fail in the factors' data type."""
    net, sep, op = setup(c, "linear", False)
    F = Factors(net, sep).install(op)
    values = values_of(c, "tuple")
    again = c.choice([True, False], "retry")
    inv = inverse(c, op, "tuple", values, retry_double_precision=again)
    K, = sizes(c, "K")
    ts, fs = operands(net, "V", K)
    failed = []

    def fails():
        if c.choice([False, True], "decomposition fails"):
            failed.append(1)
            return True
        return False
    TS.CholeskyFailure.on = fails
    try:
        out = inv @ ts
        c.true("failures are raised without retry", again or not failed)
    except RuntimeError:
        c.true("RuntimeError only without retry", not again)
        TS.CholeskyFailure.on = None
        out = inv @ ts
    finally:
        TS.CholeskyFailure.on = None
    check_inverse(c, "product after retries", out, net, F, fs, K, "tuple", values)
    for t in out:
        c.true("data type", t.dtype is net.dt, str(t.dtype))


def rejected(c):
    net, sep, op = setup(c, "linear", False)
    Factors(net, sep).install(op)
    values = values_of(c, "tuple")
    cls = inv_module(c).KFACInverseLinearOperator
    for name, kw in [("heuristic and exact", dict(damping=values[0], use_heuristic_damping=True, use_exact_damping=True)),
                     ("heuristic and tuple", dict(damping=values, use_heuristic_damping=True)),
                     ("exact and tuple", dict(damping=values, use_exact_damping=True))]:
        c.raises(f"{name} damping: ValueError", lambda: cls(op, **kw), ValueError)
    c.raises("not KFAC: ValueError", lambda: cls(net.module), ValueError)


CASES += [("retry", retry, {"max_paths": 3000}), ("rejected", rejected, {})]
