"""Products with KFAC, relative to the contract of _compute_kfac (C11)."""
from specs.kfac_common import *
from specs import common_torch as _c
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, _c.TRUSTED, _c.ASSUMPTIONS + [
    "_compute_kfac stores a first factor for each layer whose weight is considered and a second one for each layer "
    "(C11, C16)"]
BOUNDED = ["networks with two supported layers (of any sizes)"]

BOTH = ("weight", "bias")
SUBSETS = [BOTH, ("weight",), ("bias",)]
ORDERS = [(0, 1, 2, 3), (3, 2, 1, 0), (1, 2, 0, 3), (2, 0, 3, 1)]


def product(c, kind):
    sep = c.choice([True, False], "separate")
    first, second = c.choice(SUBSETS, "layer 0"), c.choice(SUBSETS + [()], "layer 1")
    has = c.choice([BOTH, None], "parameters which are not considered exist")
    layers = [(kind, first, has or first), ("linear", second, has or second or ("weight",))]
    if c.choice([False, True], "layers swapped"):
        layers.reverse()
    n = len(first) + len(second)
    net = KNet(c, layers, c.choice(ORDERS if n > 1 else ORDERS[:1], "order"))
    op = kfac(c, net, sep)
    F = Factors(net, sep).install(op)
    K, = sizes(c, "K")
    ts, fs = operands(net, "V", K)
    us, gs = operands(net, "U", K)
    check_product(c, "product", op @ ts, net, F, fs, K)
    check_product(c, "second product", op @ us, net, F, gs, K)
    for t, p, f in zip(ts, net.params, fs):
        unchanged(c, "frame: operand", t, net.dims(p) + [K], f)


CASES = [("linear", lambda c: product(c, "linear"), {"max_paths": 1500}), ("conv", lambda c: product(c, "conv"), {"max_paths": 1500})]


def rejected(c):
    """Parameters of a layer which is not supported."""
    used = c.choice([BOTH, ("weight",), ("bias",)], "layer 0")
    net = KNet(c, [("linear", used, used)])
    p = TS.Parameter.make([E.integer("m")], lambda k: E.mk(E.Fun("other"), (k,)), net.dt).register_index(Ex.const(9))
    net.module.kids.append(("norm", TS.Module(params=[("weight", p)])))
    net.params.insert(c.choice([0, len(net.params)], "position"), p)
    c.raises("parameters in unsupported layers: NotImplementedError", lambda: kfac(c, net, True), NotImplementedError)


CASES.append(("rejected", rejected, {}))
