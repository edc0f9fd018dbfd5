from specs.common_np import *
from specs import common_np as _c
from vc import npstub as N_

stubs, TRUSTED = _c.stubs, _c.TRUSTED + [
    "numpy.random: successive calls return independent entries; randn is standard normal, binomial(1, p) is Bernoulli(p)"]
ASSUMPTIONS = _c.ASSUMPTIONS + ["the operator A is linear and deterministic (contract of GivenOperator in vc/npstub.py)"]

MOD = {"trace": ("curvlinops.trace.hutchinson", "HutchinsonTraceEstimator"),
       "diagonal": ("curvlinops.diagonal.hutchinson", "HutchinsonDiagonalEstimator"),
       "norm": ("curvlinops.norm.hutchinson", "HutchinsonSquaredFrobeniusNormEstimator")}


def estimator(kind):
    mod, cls = MOD[kind]

    def case(c):
        Dn, = sizes(c, "D")
        M = sizes(c, "M")[0] if kind == "norm" else Dn
        A = N_.GivenOperator("A", (M, Dn))
        est = getattr(c.world.module(mod), cls)(A)
        dist = c.choice(["rademacher", "normal", None], "distribution")
        pos = Ex.of(0)
        for k in range(2):
            s = est.sample() if dist is None else (
                est.sample(dist) if k else est.sample(distribution=dist))
            i = E.integer("gi")
            E.HOOKS.ranges["gi"] = Dn
            v = drawn_vector(c, "freshly drawn vector", s if kind != "diagonal" else s.at(i), dist or "rademacher", pos)
            if v is None:
                return
            v, p = v
            pos = p + 1
            Av = lambda i: E.Sum(Dn, lambda j: A.entry(i, j) * v(j))
            if kind == "trace":
                c.eq("sample", s, E.Sum(Dn, lambda i: v(i) * Av(i)))
            elif kind == "norm":
                c.eq("sample", s, E.Sum(M, lambda i: Av(i) * Av(i)))
            else:
                c.tensor("sample", s, [Dn], lambda i: v(i) * Av(i))
    return case


def rejects(kind):
    mod, cls = MOD[kind]

    def case(c):
        Dn, M = sizes(c, "D", "M")
        A = N_.GivenOperator("A", (M, Dn))
        Est = getattr(c.world.module(mod), cls)
        est, e = c.call(Est, A)
        if kind == "norm":
            c.true("rectangular operators are accepted", e is None, repr(e))
        elif e is None:
            c.holds("accepted operators are square", M == Dn)
        else:
            c.true("ValueError", isinstance(e, ValueError), repr(e))
            c.holds("rejected operators are not square", M != Dn)
        if e is None:
            dist = c.choice(["", "Normal", "gauss", "rademacher ", "uniform", None, 3], "distribution")
            c.raises("unknown distributions are rejected", lambda: est.sample(dist), ValueError)
    return case


def sampling(c):
    n, = sizes(c, "n")
    m = c.world.module("curvlinops.sampling")
    k = c.choice([0, 1, 2, 3], "function")
    f, dist = [(m.rademacher, "rademacher"), (m.normal, "normal"), (lambda d: m.random_vector(d, "rademacher"), "rademacher"),
               (lambda d: m.random_vector(d, "normal"), "normal")][k]
    pos = 0
    for _ in range(2):
        v = f(n)
        c.holds("number of entries", v.dims[0].size == n)
        c.true("vector", len(v.dims) == 1)
        i, j = E.integer("gi"), E.integer("gj")
        E.HOOKS.ranges.update(gi=n, gj=n)
        g = drawn_vector(c, "freshly drawn vector", v.at(i), dist, pos)
        if g is None:
            return
        g, p = g
        # up to the sign, which does not change the distribution
        c.eq("distribution of the entries", v.at(i) * v.at(j), g(i) * g(j))
        pos = p + 1


CASES = [(f"{k}: sample", estimator(k), {}) for k in MOD] + [(f"{k}: rejected", rejects(k), {}) for k in MOD] + [
    ("sampling", sampling, {})]
