"""State dictionaries of KFAC and its inverse, relative to the contract of _compute_kfac (C11)."""
from specs.kfac_common import *
from specs import common_torch as _c
from specs import c13, c14
stubs, TRUSTED, ASSUMPTIONS = _c.stubs, c14.TRUSTED, c14.ASSUMPTIONS + [
    "a restored dictionary has the entries of the saved one (pickling is not modelled)"]
BOUNDED = ["networks with two supported layers (of any sizes)"]

BOTH = ("weight", "bias")
LOSSES = ["MSELoss", "CrossEntropyLoss", "BCEWithLogitsLoss"]
NAMES = c13.NAMES


def nets(c, layers=(("linear", BOTH, BOTH), ("linear", ("bias",), BOTH))):
    """A network and a copy of it with other parameters."""
    a, b = KNet(c, list(layers)), KNet(c, list(layers))
    for k, (n, p) in enumerate(b.module.named_parameters()):
        f = E.Fun(f"other_theta{k}")
        p.assign(lambda old, *i, f=f: E.mk(f, i))
    return a, b


def config(c):
    fisher = c.choice(["mc", "type-2", "empirical", "forward-only"], "fisher type")
    seed, mc = E.integer("seed"), E.integer("mc_samples")
    c.assume(mc >= 1)
    return dict(fisher_type=fisher, mc_samples=mc if fisher == "mc" else 1, seed=seed,
                kfac_approx=c.choice(["expand", "reduce"], "approximation"),
                progressbar=c.choice([False, True], "progressbar"))


def same(c, what, a, b):
    if isinstance(a, TT.T) or isinstance(b, TT.T):
        ok = isinstance(a, TT.T) and isinstance(b, TT.T)
        c.true(f"{what}: both are tensors", ok, f"{type(a)}, {type(b)}")
        if ok:
            c.tensor(what, b, list(a.dims), a.snapshot(), a.dtype_)
    elif isinstance(a, dict) or isinstance(b, dict) or isinstance(a, P.VDict):
        ka, kb = list(a.keys()), list(b.keys())
        c.true(f"{what}: same keys", sorted(map(str, ka)) == sorted(map(str, kb)), f"{ka}, {kb}")
        for k in ka:
            if k in kb:
                same(c, f"{what}[{k}]" if isinstance(k, str) and "layer" not in k else what, a[k], b[k])
    elif isinstance(a, (list, tuple, TT.Shape)) and isinstance(b, (list, tuple, TT.Shape)):
        c.true(f"{what}: same length", len(a) == len(b))
        for x, y in zip(a, b):
            same(c, what, x, y)
    elif isinstance(a, Ex) or isinstance(b, Ex):
        c.eq(what, Ex.of(b), Ex.of(a))
    else:
        c.true(what, (a is b) or (type(a) is type(b) and a == b), f"{a!r}, {b!r}")


def settings(op):
    """The configuration of an operator: its plain attributes."""
    def plain(v):
        return isinstance(v, (bool, int, str, float, Ex)) or isinstance(v, (tuple, TT.Shape)) and all(plain(x) for x in v)
    return {k: v for k, v in vars(op).items() if plain(v)}


def check_settings(c, before, op):
    now = vars(op)
    for k, v in before.items():
        if k in now:
            same(c, f"configuration: {k}", v, now[k])


def saved(c, net, sep, loss, conf, stage):
    op = kfac(c, net, sep, loss=loss, **conf)
    op_settings = settings(op)
    F = Factors(net, sep).install(op)
    F.settings = op_settings
    K, = sizes(c, "K")
    ts, fs = operands(net, "V", K)
    if stage >= 1:
        op @ ts
    if stage >= 2:
        for n in NAMES[stage - 2::2]:
            getattr(op, n)
    return op, F, K, ts, fs


def check_params(c, net, other):
    for p, q in zip(net.module.parameters(), other.module.parameters()):
        c.tensor("restored model", q, list(p.dims), p.snapshot())


def restored(c, data, sd, net, **kw):
    mod = c.world.module("curvlinops.kfac")
    return mod.KFACLinearOperator.from_state_dict(sd, net.module, net.params, data, check_deterministic=False, **kw)


def roundtrip(c):
    """from_state_dict(state_dict()) in every stage of the saved operator's life."""
    sep = c.choice([True, False], "separate")
    kind, red = c.choice(LOSSES, "loss"), c.choice(["mean", "sum"], "reduction")
    conf = config(c)
    stage = c.choice([0, 1, 2, 3], "stage")
    net, other = nets(c)
    op, F, K, ts, fs = saved(c, net, sep, getattr(TS, kind)(reduction=red), conf, stage)
    data = Batches(c).data()
    sd = op.state_dict()
    new = restored(c, data, sd, other)
    c.true("no pass over the data", data.beyond == 0, str(data.beyond))
    check_params(c, net, other)
    again = new.state_dict()
    c.true("state: same keys", sorted(again) == sorted(sd), f"{sorted(again)}")
    for k in sd:
        if k != "model_func_state_dict":
            same(c, f"state: {k}", sd[k], again[k])
    check_settings(c, F.settings, new)
    c.true("loss function", type(new._loss_func) is getattr(TS, kind) and new._loss_func.reduction == red)
    # the restored operator's own data give other factors
    G = Factors(other, sep, "new").install(new)
    us, gs = operands(other, "V", K)
    check_product(c, "product", new @ us, other, G if stage == 0 else F, fs, K)
    c.true("factors are computed only if they have not been", G.computed == (1 if stage == 0 else 0), str(G.computed))
    # the saved operator does not change
    F.computed = 0
    check_product(c, "product of the saved operator", op @ ts, net, F, fs, K)
    c.true("saved operator computes its own factors", F.computed == (1 if stage == 0 else 0), str(F.computed))


def derived(c):
    """Derived quantities of the restored operator."""
    sep = c.choice([True, False], "separate")
    stage = c.choice([0, 1, 2, 3], "stage")
    net, other = nets(c)
    op, F, K, ts, fs = saved(c, net, sep, TS.MSELoss(), {}, stage)
    new = restored(c, Batches(c).data(), op.state_dict(), other)
    G = Factors(other, sep, "new").install(new)
    name = c.choice(NAMES, "quantity")
    c13.check(c, "value", getattr(new, name), c13.value(other, G if stage == 0 else F, name))
    c13.check(c, "value of the saved operator", getattr(op, name), c13.value(net, F, name))


def load(c):
    """Loading into an operator with another configuration, before or after its own computation."""
    sep = c.choice([True, False], "separate")
    stage, mine = c.choice([0, 1, 2], "stage"), c.choice([0, 1], "stage of the operator")
    net, other = nets(c)
    conf = config(c) if stage == 0 else {}
    op, F, K, ts, fs = saved(c, net, sep, TS.MSELoss(), conf, stage)
    new = kfac(c, other, not sep, loss=TS.MSELoss())
    G = Factors(other, not sep, "mine").install(new)
    us, gs = operands(other, "V", K)
    if mine:
        new @ us
        for n in NAMES:
            getattr(new, n)
    new.load_state_dict(op.state_dict())
    check_settings(c, F.settings, new)
    check_params(c, net, other)
    H = Factors(other, sep, "new").install(new)
    for n in NAMES:
        if c.choice([False, True], n):
            c13.check(c, "value", getattr(new, n), c13.value(other, H if stage == 0 else F, n))
            break
    check_product(c, "product", new @ us, other, H if stage == 0 else F, fs, K)


def rejected(c):
    sep = c.choice([True, False], "separate")
    what = c.choice(["loss", "reduction", "first factors", "second factors"], "mismatch")
    kind, red = c.choice(LOSSES, "loss"), c.choice(["mean", "sum"], "reduction")
    net, other = nets(c)
    op, F, K, ts, fs = saved(c, net, sep, getattr(TS, kind)(reduction=red), {}, 1)
    sd = dict(op.state_dict())
    if what == "loss":
        mine = getattr(TS, c.choice([k for k in LOSSES if k != kind], "own loss"))(reduction=red)
    elif what == "reduction":
        mine = getattr(TS, kind)(reduction="sum" if red == "mean" else "mean")
    else:
        mine = getattr(TS, kind)(reduction=red)
        key = "input_covariances" if what == "first factors" else "gradient_covariances"
        d = dict(sd[key])
        how = c.choice(["removed", "added", "renamed", "bias"] if what == "first factors" else ["removed", "added", "renamed"], "how")
        t = d["layer0"]
        if how in ("removed", "renamed"):
            del d["layer0"]
        if how in ("added", "renamed"):
            d["another"] = t
        if how == "bias":
            d["layer1"] = t  # only the bias of this layer is considered
        sd[key] = d
    new = kfac(c, other, sep, loss=mine)
    c.raises("load_state_dict: ValueError", lambda: new.load_state_dict(sd), ValueError)
    if what not in ("loss", "reduction"):
        c.raises("from_state_dict: ValueError", lambda: restored(c, Batches(c).data(), sd, other), ValueError)


def inverse(c, mode):
    """State dictionaries of the inverse."""
    sep, stage = c.choice([True, False], "separate"), c.choice([0, 1, 2], "stage")
    cache, again = c.choice([True, False], "cache"), c.choice([True, False], "retry")
    how = c.choice(["from_state_dict", "load_state_dict"], "how")
    layers = [("linear", BOTH, BOTH), ("linear", ("bias",), BOTH)] if mode != "heuristic" else [("linear", BOTH, BOTH)]
    net, other = nets(c, layers)
    op, F, K, ts, fs = saved(c, net, sep, TS.MSELoss(), {}, min(stage, 1))
    values = c14.values_of(c, mode)
    inv = c14.inverse(c, op, mode, values, cache=cache, retry_double_precision=again)
    conf = settings(inv)
    if stage == 2:
        inv @ ts
    sd = inv.state_dict()
    A = kfac(c, other, not sep if how == "load_state_dict" else sep, loss=TS.MSELoss())
    G = Factors(other, sep, "new").install(A)
    cls = c14.inv_module(c).KFACInverseLinearOperator
    if how == "from_state_dict":
        new = cls.from_state_dict(sd, A)
    else:
        new = cls(A, damping=E.real("other_damping"), cache=not cache, retry_double_precision=not again,
                  use_exact_damping=mode == "heuristic")
        new.load_state_dict(sd)
    check_settings(c, conf, new)
    after = new.state_dict()
    c.true("state: same keys", sorted(after) == sorted(sd), f"{sorted(after)}")
    for k in sd:
        if k != "A":
            same(c, f"state: {k}", sd[k], after[k])
    us, gs = operands(other, "V", K)
    use = G if stage == 0 else F
    c14.check_inverse(c, "product", new @ us, other, use, fs, K, mode, values)
    c.true("factors are computed only if they have not been", G.computed == (1 if stage == 0 else 0), str(G.computed))
    if mode != "heuristic":
        c14.check_inverse(c, "product of the saved operator", inv @ ts, net, F, fs, K, mode, values)


CASES = [("roundtrip", roundtrip, {"max_paths": 3000}), ("derived", derived, {}), ("load", load, {"max_paths": 1000}),
         ("rejected", rejected, {})] + [(f"inverse-{m}", lambda c, m=m: inverse(c, m), {"max_paths": 3000})
                                        for m in ("single", "tuple", "heuristic", "exact")]
