"""C18: iterative inverses."""
import numpy as np
import scipy.sparse.linalg as sla
from scipy.sparse.linalg import aslinearoperator

from rt.common import Skip, case, ensure, raises
from rt.rec import Rec, nclose, rand, randsym


def spd(rng, n):
    M = rand(rng, n, n)
    return M @ M.T / n + 0.3 * np.eye(n)


def both(inv, want_col, rng, n, what):
    """``inv`` maps each column x to want_col(x)."""
    K = rng.randint(1, 3)
    X = rand(rng, n, K)
    if rng.random() < 0.2:
        X = np.asfortranarray(X)
    X0 = X.copy()
    want = np.column_stack([want_col(x) for x in X0.T])
    got = inv @ X
    ensure(nclose(got, want, 1e-8, 1e-9), f"{what}: matrix product")
    j = rng.randrange(K)
    ensure(nclose(inv @ X[:, j], want[:, j], 1e-8, 1e-9), f"{what}: vector product")
    ensure(nclose(inv @ X[:, [j]], want[:, [j]], 1e-8, 1e-9), f"{what}: column product")
    ensure(np.array_equal(X, X0), f"{what}: right-hand side was modified")


@case("C18", reps=80, thorough=1000)
def neumann(rng):
    from curvlinops import NeumannInverseLinearOperator

    n = rng.randint(1, 6)
    M = rand(rng, n, n) if rng.random() < 0.5 else spd(rng, n)
    A = Rec(M)
    kw = {}
    if rng.random() < 0.8:
        kw["num_terms"] = rng.choice([0, 1, 2, 3, rng.randint(4, 12)])
    if rng.random() < 0.7:
        kw["scale"] = rng.uniform(-0.5, 1)
    if rng.random() < 0.5:
        kw["check_nan"] = rng.random() < 0.5
    terms, scale = kw.get("num_terms", 100), kw.get("scale", 1.0)
    if terms == 100:
        M = M / np.abs(np.linalg.eigvals(M)).max()
        M = np.eye(n) - 0.9 * M
        scale = kw["scale"] = 1.0
        A = Rec(M)
    if rng.random() < 0.5:
        inv = NeumannInverseLinearOperator(A, **kw)
    else:
        inv = NeumannInverseLinearOperator(A, num_terms=7, scale=0.3, check_nan=False)
        inv.set_neumann_hyperparameters(**kw)

    def want(x):
        P, s = np.eye(n), np.zeros(n)
        for _ in range(terms + 1):
            s = s + P @ x
            P = P @ (np.eye(n) - scale * M)
        return scale * s

    both(inv, want, rng, n, f"Neumann series {kw}")


@case("C18", reps=30, thorough=300)
def nan(rng):
    from curvlinops import NeumannInverseLinearOperator

    n = rng.randint(1, 4)
    at = rng.randint(0, 5)

    class Bad(Rec):
        count = 0

        def _matvec(self, x):
            y = super()._matvec(x)
            Bad.count += 1
            if Bad.count - 1 == at:
                y[rng.randrange(n)] = np.nan
            return y

    A = Bad(0.1 * spd(rng, n))
    terms = rng.randint(0, 8)
    inv = NeumannInverseLinearOperator(A, num_terms=terms, check_nan=True)
    x = rand(rng, n)
    if terms > at:
        raises(ValueError, lambda: inv @ x, f"NaN in term {at}")
        ensure(Bad.count == at + 1, "the iteration went on after NaNs showed up",
               products=Bad.count, at=at)
    else:
        ensure(bool(np.isfinite(inv @ x).all()), "no NaN")
    Bad.count = 0
    inv = NeumannInverseLinearOperator(A, num_terms=terms, check_nan=False)
    got = inv @ x
    ensure(Bad.count == terms, f"{Bad.count} products for {terms} terms")
    ensure(bool(np.isnan(got).any()) == (terms > at), "unchecked NaN")


def x0s(rng, n):
    return rand(rng, n) if rng.random() < 0.5 else None


@case("C18", reps=80, thorough=1000)
def cg(rng):
    from curvlinops import CGInverseLinearOperator

    n = rng.randint(1, 9)
    M = spd(rng, n)
    A = aslinearoperator(M)
    opts = {
        "x0": rand(rng, n), "maxiter": rng.randint(1, 4), "atol": rng.choice([1e-2, 1e-10, 0.3]),
        "tol": rng.choice([1e-1, 1e-8, 1e-3]), "M": spd(rng, n),
    }
    kw = {k: v for k, v in opts.items() if rng.random() < 0.4}
    seen = []
    if rng.random() < 0.3:
        kw["callback"] = lambda xk: seen.append(xk.copy())
    inv = CGInverseLinearOperator(A)
    if rng.random() < 0.5:  # an earlier setting must not survive
        inv.set_cg_hyperparameters(maxiter=1, x0=np.ones(n), tol=0.5)
        inv.set_cg_hyperparameters(**kw)
    elif kw:
        inv.set_cg_hyperparameters(**kw)
    full = dict(kw)  # un-set ones: SciPy's defaults
    x0 = None if full.get("x0") is None else full["x0"].copy()

    def want(b):
        return sla.cg(A, b, **full)[0]

    both(inv, want, rng, n, f"CG {sorted(kw)}")
    small = 1e-7 * rand(rng, n)
    ensure(nclose(inv @ small, want(small), 1e-8, 1e-15), f"CG {sorted(kw)}: small right-hand side")
    ensure(x0 is None or np.array_equal(x0, kw["x0"]), "x0 was modified")
    if "callback" in kw and "maxiter" not in kw and "x0" not in kw:
        seen.clear()
        got = inv @ rand(rng, n)
        ensure(seen or not got.any(), "callback was not called")


@case("C18", reps=80, thorough=1000)
def lsmr(rng):
    from curvlinops import LSMRInverseLinearOperator

    n = rng.randint(1, 7)
    M = rand(rng, n, n)
    if rng.random() < 0.4:  # badly conditioned
        U, s, V = np.linalg.svd(M)
        s = np.logspace(0, -rng.choice([3, 6, 10]), n)
        M = U @ np.diag(s) @ V
    A = aslinearoperator(M)
    opts = {
        "x0": rand(rng, n), "maxiter": rng.randint(1, 4), "damp": rng.choice([0.1, 2.0]),
        "atol": rng.choice([1e-2, 1e-10]), "btol": rng.choice([1e-2, 1e-10]),
        "conlim": rng.choice([1e2, 1e12]), "show": True,
    }
    kw = {k: v for k, v in opts.items() if rng.random() < 0.35}
    inv = LSMRInverseLinearOperator(A)
    if rng.random() < 0.5:
        inv.set_lsmr_hyperparameters(maxiter=1, damp=3.0, btol=0.4)
        inv.set_lsmr_hyperparameters(**kw)
    elif kw:
        inv.set_lsmr_hyperparameters(**kw)

    def want(b):
        return sla.lsmr(A, b, **kw)[0]

    both(inv, want, rng, n, f"LSMR {sorted(kw)}")
    b = rand(rng, n)
    got, ref = inv.matvec_with_info(b), sla.lsmr(A, b, **kw)
    ensure(len(got) == len(ref) and all(nclose(g, r, 1e-8) for g, r in zip(got, ref)),
           "returned information", got=got, ref=ref)


@case("C18", reps=10, thorough=60)
def original(rng):
    """The solvers see the operator itself."""
    from curvlinops import CGInverseLinearOperator, NeumannInverseLinearOperator

    n = rng.randint(2, 6)
    A = Rec(spd(rng, n))
    b = rand(rng, n)
    inv = CGInverseLinearOperator(A)
    inv.set_cg_hyperparameters(tol=1e-12, atol=0.0)
    ensure(nclose(inv @ b, np.linalg.solve(A.M, b), 1e-6, 1e-6), "CG solution")
    ensure(len(A.cols) > 0, "operator not used")
    ensure(tuple(inv.shape) == (n, n), "shape")
    inv = NeumannInverseLinearOperator(A, num_terms=3)
    ensure(tuple(inv.shape) == (n, n), "shape")
