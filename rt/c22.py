"""C22: Lanczos iteration."""
import numpy as np

from rt.common import Skip, case, ensure
from rt.rec import Rec, nclose, rand, randsym


def lanczos(M, v, m):
    """Diagonal and off-diagonal of the three-term recurrence; re-written from its definition:
    β_j v_{j+1} = A v_j - α_j v_j - β_{j-1} v_{j-1}."""
    V, al, be = [v], [], []
    for j in range(m):
        w = M @ V[j]
        if j:
            w = w - be[j - 1] * V[j - 1]
        al.append(w @ V[j])
        w = w - al[j] * V[j]
        if j < m - 1:
            be.append(np.sqrt(w @ w))
            if be[-1] < 1e-6:
                raise Skip  # breakdown, precondition
            V.append(w / be[-1])
    return V, np.array(al), np.array(be)


def tri(al, be):
    return np.diag(al) + np.diag(be, 1) + np.diag(be, -1)


@case("C22", reps=80, thorough=1000)
def recurrence(rng):
    from curvlinops.papyan2020traces.spectrum import fast_lanczos

    n = rng.randint(2, 14)
    m = rng.randint(1, max(1, min(8, n - 1)))
    M = randsym(rng, n) + rng.uniform(-3, 3) * np.eye(n)
    A = Rec(M)
    kw = {}
    if rng.random() < 0.5:
        kw["use_eigh_tridiagonal"] = rng.random() < 0.6
    if m == 1 and not kw.get("use_eigh_tridiagonal"):
        m = 2 if n > 2 else Skip
        if m is Skip:
            raise Skip
    starts = []
    for _ in range(2):
        A.cols.clear()
        evals, evecs = fast_lanczos(A, m, **kw)
        ensure(len(A.cols) == m, f"{len(A.cols)} products for {m} iterations")
        v = A.cols[0]
        starts.append(v)
        ensure(v.shape == (n,) and abs(np.linalg.norm(v) - 1) < 1e-12, "norm of the first vector")
        V, al, be = lanczos(M, v, m)
        for a, b in zip(A.cols, V):
            ensure(nclose(a, b, 1e-5, 1e-5), "Lanczos vectors")
        T = tri(al, be)
        evals, evecs = np.asarray(evals), np.asarray(evecs)
        ensure(evals.shape == (m,) and evecs.shape == (m, m), "shapes")
        ensure(nclose(T @ evecs, evecs * evals, 1e-5, 1e-5), "eigenvectors", kw=kw, m=m)
        ensure(nclose(evecs.T @ evecs, np.eye(m), 1e-7, 1e-7), "normalised eigenvectors")
    ensure(not np.array_equal(*starts), "the start vector is not random")


@case("C22", reps=15, thorough=100)
def start(rng):
    """The start vector is a normalised standard normal vector (statistically)."""
    from curvlinops.papyan2020traces.spectrum import fast_lanczos

    n = 4
    A = Rec(np.diag(rand(rng, n)))
    vs = []
    for _ in range(400):
        A.cols.clear()
        fast_lanczos(A, 2)
        vs.append(A.cols[0])
    V = np.stack(vs)
    ensure(np.abs(V.mean(0)).max() < 7 * 0.5 / 20, "mean of the start vector")
    ensure(np.abs(V.T @ V / 400 - np.eye(n) / n).max() < 7 * 0.25 / 20, "isotropy")
    # E[x^4] = 3 / (n (n + 2)) on the sphere
    ensure(np.abs((V**4).mean() - 3 / (n * (n + 2))) < 7 * 0.2 / 40, "fourth moment")
