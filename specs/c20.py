from specs.common_np import *
from specs import common_np as _c
from vc import npstub as N_

stubs, TRUSTED = _c.stubs, _c.TRUSTED + [
    "numpy.random: successive calls return independent entries; randn is standard normal, binomial(1, p) is Bernoulli(p)",
    "numpy.linalg.qr: a function of its argument (that its first result is an orthonormal basis is assumed)"]
ASSUMPTIONS = _c.ASSUMPTIONS + ["the operator A is linear and deterministic (contract of GivenOperator in vc/npstub.py)"]


def subspace(c, s, Dn, K, dist):
    """Spec of the subspace: Q of the QR decomposition of A @ (K random vectors); number of draws."""
    name = "subspace"
    qs = {a.args[0] for a in E.atoms_of(E.unfreeze(Ex.of(s))) if a.fun is N_.QRQ}
    if len(qs) != 1:
        return c.rec(name, "unknown", f"{len(qs)} QR decompositions")
    lam = qs.pop()
    i, k = E.integer("gi"), E.integer("gk")
    E.HOOKS.ranges.update(gi=Dn, gk=K)
    c.holds("number of subspace vectors", E.sym_and(lam.sizes[0] == Dn, lam.sizes[1] == K))
    body = lam.apply((i, k))
    draws = {a for a in E.atoms_of(body, deep=False) if a.fun in RNG}
    last = ZERO
    pats = set()
    for a in draws:
        pos, idx = draw_index(a)
        bv = [n for n in a.fv if n.startswith("$")]
        if len(bv) != 1 or sum(x.same(E.integer(bv[0])) for x in idx) != 1 or bv[0] in pos.fv:
            return c.rec(name, "unknown", f"draw {a}")
        if "gk" not in a.fv:
            return c.true("subspace vectors are independent", False, f"draw {a} for all subspace vectors")
        if not (sum(x.same(k) for x in idx) == 1 and "gk" not in pos.fv or "gk" not in (pos - k).fv):
            return c.rec(name, "unknown", f"draw {a}")
        pats.add((pos, tuple(E.subst(x, {bv[0]: E.integer("gj")}) for x in idx)))
        last = E.subst(pos, {"gk": K - 1})
    if len(pats) != 1:
        return c.rec(name, "unknown", f"draws {pats}")
    pos, idx = pats.pop()
    c.true("subspace vectors are independent", True)
    rho = lambda j, q: E.subst(draw(dist, pos, *idx), {"gj": j, "gk": q})
    c.eq("subspace of products with random vectors", body, E.Sum(Dn, lambda j: c.A.entry(i, j) * rho(j, k)),
         [("gi", Dn), ("gk", K)])
    AS = N_.NA.make([Dn, K], lambda i, q: E.Sum(Dn, lambda j: c.A.entry(i, j) * rho(j, q)))
    Q, _ = N_.qr(AS)
    return Q.snapshot(), last + 1


def samples(c):
    Dn, K = sizes(c, "D", "K")
    c.assume(K <= Dn)
    c.A = A = N_.GivenOperator("A", (Dn, Dn))
    Est = c.world.module("curvlinops.trace.meyer2020hutch").HutchPPTraceEstimator
    bd = c.choice(["rademacher", "normal"], "basis distribution")
    est = Est(A, basis_dim=K, basis_distribution=bd)
    dist = c.choice(["rademacher", "normal", None], "distribution")
    Q = None
    pos = 0
    for k in range(3):
        s = est.sample() if dist is None else est.sample(dist)
        if Q is None:
            b = subspace(c, s, Dn, K, bd)
            if b is None:
                return
            Q, pos = b
        g = drawn_vector(c, "freshly drawn vector", s, dist or "rademacher", pos)
        if g is None:
            return
        g, p = g
        pos = p + 1
        QTg = lambda q: E.Sum(Dn, lambda j: Q(j, q) * g(j))
        proj = lambda i: g(i) - E.Sum(K, lambda q: Q(i, q) * QTg(q))
        tr = E.Sum(K, lambda q: E.Sum(Dn, lambda i: Q(i, q) * E.Sum(Dn, lambda j: A.entry(i, j) * Q(j, q))))
        quad = E.Sum(Dn, lambda i: proj(i) * E.Sum(Dn, lambda j: A.entry(i, j) * proj(j)))
        c.eq("sample" if k == 0 else "later samples reuse the subspace", s, tr + quad)


def constructor(c):
    Dn, M = sizes(c, "D", "M")
    A = N_.GivenOperator("A", (M, Dn))
    Est = c.world.module("curvlinops.trace.meyer2020hutch").HutchPPTraceEstimator
    K, = sizes(c, "K")
    given = c.choice([True, False], "basis_dim given")
    est, e = c.call(lambda: Est(A, basis_dim=K) if given else Est(A))
    ok = E.sym_and(M == Dn, K <= Dn) if given else M == Dn
    if e is None:
        c.holds("accepted operators are square and the subspace fits", ok)
    else:
        c.true("ValueError", isinstance(e, ValueError), repr(e))
        c.holds("rejected: not square or too large subspace", E.sym_not(ok))


def unknown(c):
    Dn, K = sizes(c, "D", "K")
    c.assume(K <= Dn)
    A = N_.GivenOperator("A", (Dn, Dn))
    Est = c.world.module("curvlinops.trace.meyer2020hutch").HutchPPTraceEstimator
    bad = c.choice(["", "Normal", "gauss", "uniform"], "distribution")
    if c.choice([True, False], "basis"):
        c.raises("unknown basis distributions are rejected",
                 lambda: Est(A, basis_dim=K, basis_distribution=bad).sample(), ValueError)
    else:
        c.raises("unknown distributions are rejected", lambda: Est(A, basis_dim=K).sample(bad), ValueError)


CASES = [("samples", samples, {}), ("constructor", constructor, {}), ("unknown distributions", unknown, {})]
