"""C17: submatrices."""
import numpy as np
from scipy.sparse.linalg import LinearOperator, aslinearoperator

from rt.common import case, ensure, raises
from rt.rec import nclose, rand


class Shaped(LinearOperator):
    """Its matvec gets and returns 1d or column vectors, as SciPy permits."""

    def __init__(self, M, column):
        super().__init__(M.dtype, M.shape)
        self.M, self.column = M, column

    def _matvec(self, x):
        y = self.M @ x.ravel()
        return y[:, None] if self.column and x.ndim == 2 else y

    def _rmatvec(self, x):
        return self.M.conj().T @ x.ravel()


def operator(rng):
    m, n = rng.randint(1, 6), rng.randint(1, 6)
    kind = rng.choice(["f8", "f4", "i8", "c16"])
    M = rand(rng, m, n)
    if kind == "c16":
        M = M + 1j * rand(rng, m, n)
    elif kind == "i8":
        M = np.round(3 * M).astype(np.int64)
    else:
        M = M.astype(kind)
    A = rng.choice([aslinearoperator, lambda M: Shaped(M, rng.random() < 0.5)])(M)
    return M, A, kind


def index(rng, n):
    k = rng.randint(1, n)
    return rng.sample(range(n), k)


def check(S, want, rng, kind, what):
    tol = dict(rtol=1e-4, atol=1e-5) if kind == "f4" else {}
    ensure(tuple(S.shape) == want.shape, f"{what}: shape {S.shape}")
    K = rng.randint(1, 4)
    X = rand(rng, want.shape[1], K)
    if rng.random() < 0.3:
        X = X + 1j * rand(rng, want.shape[1], K)
    if rng.random() < 0.2:
        X = np.round(X.real * 4).astype(int)
    X0 = X.copy()
    got = S @ X
    ensure(nclose(got, want @ X, **tol), f"{what}: matrix product", K=K, shape=want.shape,
           dtype=X.dtype, kind=kind)
    x = X[:, rng.randrange(K)]
    ensure(nclose(S @ x, want @ x, **tol), f"{what}: vector product")
    ensure(nclose(S @ x[:, None], (want @ x)[:, None], **tol), f"{what}: column product")
    ensure(np.array_equal(X, X0), f"{what}: multiplied array was modified")


@case("C17", reps=150, thorough=2000)
def product(rng):
    from curvlinops import SubmatrixLinearOperator

    M, A, kind = operator(rng)
    r, c = index(rng, M.shape[0]), index(rng, M.shape[1])
    S = SubmatrixLinearOperator(A, list(r), list(c))
    check(S, M[np.ix_(r, c)], rng, kind, "submatrix")
    Y = rand(rng, len(r), rng.randint(1, 3))
    tol = dict(rtol=1e-4, atol=1e-5) if kind == "f4" else {}
    want = M[np.ix_(r, c)].conj().T
    for H in (S.adjoint(), S.H):
        check(H, want, rng, kind, "adjoint")
    ensure(nclose(S.H @ Y, want @ Y, **tol), "adjoint product")
    check(S.adjoint().adjoint(), M[np.ix_(r, c)], rng, kind, "adjoint of the adjoint")
    # another submatrix of the same operator, in place
    for _ in range(2):
        r, c = index(rng, M.shape[0]), index(rng, M.shape[1])
        S.set_submatrix(list(r), list(c))
        check(S, M[np.ix_(r, c)], rng, kind, "re-defined submatrix")
    SS = SubmatrixLinearOperator(S, [len(r) - 1], list(range(len(c))))
    check(SS, M[np.ix_(r, c)][[len(r) - 1]], rng, kind, "submatrix of a submatrix")


@case("C17", reps=60, thorough=600)
def rejected(rng):
    from curvlinops import SubmatrixLinearOperator

    M, A, kind = operator(rng)
    r, c = index(rng, M.shape[0]), index(rng, M.shape[1])
    S = SubmatrixLinearOperator(A, list(r), list(c))
    ax = rng.randrange(2)
    # also if the other axis is re-defined with valid indices
    bad = [index(rng, M.shape[0]), index(rng, M.shape[1])]
    k = rng.randrange(5)
    pos = rng.randint(0, len(bad[ax]))
    x = [-1, M.shape[ax], float(bad[ax][0]), bad[ax][0], rng.choice(["0", None, 0.5])][k]
    if k == 0:
        x = -rng.randint(1, M.shape[ax])
    bad[ax].insert(pos, x)
    raises(ValueError, lambda: S.set_submatrix(*bad), f"index lists {bad} of shape {M.shape}")
    check(S, M[np.ix_(r, c)], rng, kind, f"after rejecting {bad}")
    raises(ValueError, lambda: SubmatrixLinearOperator(A, *bad), f"index lists {bad}")
