"""Trace, determinants and norm of KFAC, relative to the contract of _compute_kfac (C11)."""
from specs.kfac_common import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED + [
    "determinant and log determinant of a Kronecker product: det(A)^m det(B)^n, m logdet(A) + n logdet(B) for A of "
    "size n and B of size m"], _c.ASSUMPTIONS + [
    "_compute_kfac resets the derived quantities and stores a first factor for each layer whose weight is considered "
    "and a second one for each layer (C11, C16)"]
BOUNDED = ["networks with two supported layers (of any sizes)"]

BOTH = ("weight", "bias")
SUBSETS = [BOTH, ("weight",), ("bias",)]
NAMES = ["trace", "det", "logdet", "frobenius_norm"]


def blocks(net, F):
    """(entry functions or None for the identity of size one, sizes) of each Kronecker-factored block."""
    out = []
    for j, l in enumerate(net.layers):
        if not l["used"]:
            continue
        n = ONE
        for x in l["i"]:
            n = n * x
        if net.joint(j, F.sep):
            out.append((j, True, n + 1, l["o"]))
        else:
            for p in l["used"]:
                out.append((j, p == "weight", n if p == "weight" else ONE, l["o"]))
    return out


def value(net, F, name):
    acc = ONE if name == "det" else ZERO
    for j, has_A, n, m in blocks(net, F):
        A = (lambda a, b, j=j: F.A(j, a, b)) if has_A else None
        B = lambda a, b, j=j: F.B(j, a, b)
        if name == "trace":
            acc = acc + E.Sum(m, lambda o: B(o, o) * (E.Sum(n, lambda i: A(i, i)) if has_A else ONE))
        elif name == "frobenius_norm":
            acc = acc + E.Sum(m, lambda o: E.Sum(m, lambda p: B(o, p) ** 2 * (
                E.Sum(n, lambda i: E.Sum(n, lambda k: A(i, k) ** 2)) if has_A else ONE)))
        else:
            f = TS.DET if name == "det" else TS.LOGDET
            b = E.mk(f, (E.Lam([m, m], lambda i: B(*i)),))
            a = E.mk(f, (E.Lam([n, n], lambda i: A(*i)),)) if has_A else (ONE if name == "det" else ZERO)
            if name == "det":
                acc = acc * b ** n * (a ** m if has_A else ONE)
            else:
                acc = acc + b * n + a * m
    return E.ex_sqrt(acc) if name == "frobenius_norm" else acc


def check(c, what, got, want):
    if isinstance(got, TT.T):
        c.tensor(what, got, [], lambda: want)
    else:
        c.eq(what, got, want)


def setup(c, kind):
    sep = c.choice([True, False], "separate")
    first, second = c.choice(SUBSETS, "layer 0"), c.choice(SUBSETS + [()], "layer 1")
    net = KNet(c, [(kind, first, first), ("linear", second, BOTH)])
    return net, sep, kfac(c, net, sep)


def access(c, kind, name):
    net, sep, op = setup(c, kind)
    F = Factors(net, sep).install(op)
    before = c.choice([None, "product"] + [n for n in NAMES if n != name], "before")
    K, = sizes(c, "K")
    ts, fs = operands(net, "V", K)
    if before == "product":
        op @ ts
    elif before:
        getattr(op, before)
    check(c, "value", getattr(op, name), value(net, F, name))
    check(c, "second access", getattr(op, name), value(net, F, name))
    check_product(c, "product afterwards", op @ ts, net, F, fs, K)
    check(c, "access after a product", getattr(op, name), value(net, F, name))


def reloaded(c, kind):
    """Other Kronecker factors without derived quantities are loaded after the quantities were computed."""
    net, sep, op = setup(c, kind)
    Factors(net, sep).install(op)
    state = dict(op.state_dict())
    for n in NAMES:
        getattr(op, n)
    G = Factors(net, sep, "new")
    state["input_covariances"], state["gradient_covariances"] = G.tensors()
    op.load_state_dict(state)
    for n in NAMES:
        check(c, n, getattr(op, n), value(net, G, n))


CASES = [(f"{n} {k}", lambda c, k=k, n=n: access(c, k, n), {"max_paths": 1500}) for n in NAMES for k in ("linear", "conv")] + [
    (f"reloaded {k}", lambda c, k=k: reloaded(c, k), {}) for k in ("linear", "conv")]
