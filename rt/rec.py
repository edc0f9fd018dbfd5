"""SciPy operators that record the vectors they are multiplied onto."""
import numpy as np
from scipy.sparse.linalg import LinearOperator


class Rec(LinearOperator):
    """Dense operator; ``cols`` are all vectors multiplied so far, in order."""

    def __init__(self, M, fail_at=None):
        super().__init__(M.dtype, M.shape)
        self.M = M
        self.cols = []
        self.fail_at = fail_at

    def _one(self, x):
        if self.fail_at is not None and len(self.cols) == self.fail_at:
            self.fail_at = None
            raise InterruptedError("planned failure")
        self.cols.append(np.array(x).ravel().copy())

    def _matvec(self, x):
        self._one(x)
        return self.M @ np.asarray(x).ravel()

    def _matmat(self, X):
        for c in X.T:
            self._one(c)
        return self.M @ X

    def _adjoint(self):
        return Rec(self.M.conj().T)


def rand(rng, *shape):
    g = np.random.default_rng(rng.randrange(2**32))
    return g.standard_normal(shape)


def randsym(rng, n):
    M = rand(rng, n, n)
    return (M + M.T) / 2


def nclose(a, b, rtol=1e-9, atol=1e-10):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol)
