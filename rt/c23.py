"""C23: outer products and projectors."""
import numpy as np

from rt.common import case, ensure
from rt.rec import nclose, rand


@case("C23", reps=150, thorough=2000)
def outer(rng):
    from curvlinops.outer import OuterProductLinearOperator, Projector

    D, K = rng.randint(1, 6), rng.randint(1, 5)
    f4 = rng.random() < 0.2
    A = rand(rng, D, K)
    if rng.random() < 0.2:
        A = np.round(A * 3).astype(int)
    elif f4:
        A = A.astype(np.float32)
    if rng.random() < 0.3:
        A = np.asfortranarray(A)
    c = rand(rng, K)
    proj = rng.random() < 0.4
    if proj:
        c = np.ones(K)
    op = Projector(A) if proj else OuterProductLinearOperator(c, A)
    want = np.zeros((D, D))
    for k in range(K):
        for i in range(D):
            for j in range(D):
                want[i, j] += c[k] * float(A[i, k]) * float(A[j, k])
    tol = dict(rtol=1e-4, atol=1e-4) if f4 else {}
    A0, c0 = A.copy(), c.copy()
    for o, what in ((op, "operator"), (op.adjoint(), "adjoint"), (op.H, "H"), (op.T, "T")):
        ensure(tuple(o.shape) == (D, D), f"{what}: shape {o.shape}")
        X = rand(rng, D, rng.randint(1, 4))
        X0 = X.copy()
        ensure(nclose(o @ X, want @ X, **tol), f"{what}: matrix product", D=D, K=K, X=X.shape)
        ensure(nclose(o @ X[:, 0], want @ X[:, 0], **tol), f"{what}: vector product")
        ensure(nclose(o @ X[:, :1], want @ X[:, :1], **tol), f"{what}: column product")
        ensure(nclose(o.rmatvec(X[:, 0]), want @ X[:, 0], **tol), f"{what}: adjoint product")
        ensure(nclose(o.rmatmat(X), want @ X, **tol), f"{what}: adjoint matrix product")
        ensure(np.array_equal(X, X0), f"{what}: multiplied array was modified")
    ensure(np.array_equal(A, A0) and np.array_equal(c, c0), "vectors were modified")
