"""A computation of the Kronecker factors that fails leaves no trace."""
from specs.c11 import *
from specs import c11 as _11
stubs, ASSUMPTIONS = _11.stubs, _11.ASSUMPTIONS + [
    "whether a mini-batch makes the data source, the model or the loss fail is an arbitrary predicate of its inputs"]
TRUSTED = _11.TRUSTED + ["_loop_over_data (cases in which the data source fails): yields the mini-batches in order until "
                         "the data source raises"]
BOUNDED = _11.BOUNDED + ["MSELoss with mean reduction; types empirical, mc with one sample, forward-only"]
FAIL = int_fun("FAIL", 0)


class Fault(Exception):
    vc_contract = True


class Interrupt(BaseException):
    vc_contract = True


class Failing:
    """Raises for the mini-batches which fulfil the predicate, while armed."""

    def __init__(self, place, exc):
        self.place, self.exc, self.armed = place, exc, True

    def visit(self, place):
        if self.armed and place == self.place:
            self.check(self.net.now[0])

    def check(self, L):
        b = L.body.single_atom().args[0]  # number of the mini-batch
        if bool(E.mk(FAIL, (b,)) >= 1):
            raise self.exc("fault")

    def loss(self, kind, red):
        loss = getattr(TS, kind)(reduction=red)
        loss.vc_fails = lambda: self.visit("loss")
        return loss

    def source(self, op):
        """_loop_over_data with a failing data source."""
        def loop(desc=None, add_device_to_desc=True):
            def element(b):
                if self.armed:
                    self.check(lam(self.net.B.X(b)))
                return self.net.B.element(b)
            return Data(self.net.B.nb, element)
        op._loop_over_data = loop


PLACES = ("before the layers", "between the layers", "loss", "data")
OPERATIONS = {
    "product": lambda c, op, net: op @ operands(net, "V", ONE)[0],
    "trace": lambda c, op, net: op.trace,
    "det": lambda c, op, net: op.det,
    "logdet": lambda c, op, net: op.logdet,
    "norm": lambda c, op, net: op.frobenius_norm,
    "inverse": lambda c, op, net: c.world.module("curvlinops.inverse").KFACInverseLinearOperator(
        op, damping=E.real("damping")) @ operands(net, "V", ONE)[0],
}


def case(c, fisher, operation, place, exc, layers=None):
    f = Failing(place, exc)
    kind = "MSELoss"
    net, sep, op, (A, B) = prepared(c, kind, fisher, layers, f)
    if place == "data":
        f.source(op)
    run = OPERATIONS[operation]
    e = None
    try:
        run(c, op, net)
    except (Fault, Interrupt) as x:
        e = x
    c.true("no hooks on the model", not net.module.all_hooks(), str(net.module.all_hooks()))
    if e is None:
        b = E.integer("%b")
        E.HOOKS.ranges["%b"] = net.B.nb
        c.holds("a failure is propagated", E.mk(FAIL, (b,)) < 1)
    f.armed = False
    op @ operands(net, "W", ONE)[0]
    check_factors(c, "factors afterwards", net, sep, op.state_dict(), A, B)
    c.true("no hooks on the model", not net.module.all_hooks(), str(net.module.all_hooks()))


def prepared(c, kind, fisher, layers, f):
    red = "mean"
    net = Net(c, layers or [("linear", BOTH, BOTH)], kind, False, False)
    install(c, net)
    f.net = net
    net.fails = f.visit
    seed, S = E.integer("seed"), ONE
    N, = sizes(c, "N")
    op = kfac(c, net, False, data=net.B, loss=f.loss(kind, red), fisher_type=fisher,
              mc_samples=1, seed=seed, num_data=N, num_per_example_loss_terms=net.R)
    return net, False, op, expected(net, fisher, red, False, seed, S, N, net.R)


CASES = [(f"product-{p.replace(' ', '-')}", lambda c, p=p: case(c, "empirical", "product", p, Fault), {}) for p in PLACES]
CASES += [(o, lambda c, o=o: case(c, "forward-only", o, "between the layers", Fault, [("linear", ("weight",), BOTH)]), {})
          for o in OPERATIONS if o != "product"]
CASES += [(f, lambda c, f=f: case(c, f, "product", "between the layers", Fault), {}) for f in ("mc",)]
CASES += [("interrupted", lambda c: case(c, "empirical", "product", "loss", Interrupt), {})]
