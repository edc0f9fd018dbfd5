"""C20: Hutch++."""
import itertools

import numpy as np

from rt.c19 import fresh
from rt.common import case, ensure, raises
from rt.rec import Rec, nclose, rand


def analyse(A, M, n, b, bdist, start=0):
    """Checks the subspace from the recorded products, returns (Q, trace, next index)."""
    S = A.cols[start : start + b]
    Q = np.stack(A.cols[start + b : start + 2 * b], 1)
    fresh(S, n, bdist, "basis vectors")
    ensure(nclose(Q.T @ Q, np.eye(b), 1e-7, 1e-7), "subspace basis is not orthonormal", basis=b)
    AS = M @ np.stack(S, 1)
    ensure(nclose(Q @ (Q.T @ AS), AS, 1e-6, 1e-6), "subspace is not spanned by A S")
    return Q, np.trace(Q.T @ M @ Q), start + 2 * b


def check_sample(s, v, M, Q, tr, dist, n):
    ensure(np.abs(Q.T @ v).max() < 1e-7, "the subspace is not projected out of the drawn vector")
    ensure(nclose(s, tr + v @ M @ v, 1e-7, 1e-7), f"sample is {s} instead of {tr + v @ M @ v}")
    if dist == "rademacher" and n <= 8:
        P = np.eye(n) - Q @ Q.T
        cands = np.array(list(itertools.product([-1.0, 1.0], repeat=n))) @ P
        ensure(np.abs(cands - v).max(1).min() < 1e-7,
               "the projected vector does not stem from a Rademacher vector")


@case("C20", reps=60, thorough=600)
def sample(rng):
    from curvlinops import HutchPPTraceEstimator

    n = rng.randint(1, 8)
    M = rand(rng, n, n)
    kind = rng.random()
    if kind < 0.15:  # zero trace in every subspace
        M = M - M.T
    elif kind < 0.25:
        M = np.zeros((n, n))
    A = Rec(M)
    kw = {}
    if rng.random() < 0.8:
        kw["basis_dim"] = rng.randint(1, n)
    if rng.random() < 0.6:
        kw["basis_distribution"] = rng.choice(["rademacher", "normal"])
    bdist = kw.get("basis_distribution", "rademacher")
    b = kw.get("basis_dim", 1)
    # random subspaces may be degenerate for Rademacher vectors; orthonormality still holds
    est = HutchPPTraceEstimator(A, **kw)
    first = True
    drawn = []
    pos = 0
    if rng.random() < 0.3:
        est.maybe_compute_and_cache_subspace()
        Q, tr, pos = analyse(A, M, n, b, bdist)
        ensure(len(A.cols) == pos, "number of products for the subspace", got=len(A.cols))
        first = False
    for _ in range(rng.choice([1, 4, 70])):
        dist = rng.choice(["rademacher", "normal"])
        s = est.sample(dist) if rng.random() < 0.8 or dist == "normal" else est.sample()
        if first:
            Q, tr, pos = analyse(A, M, n, b, bdist)
            first = False
        ensure(len(A.cols) == pos + 1, "number of products for a sample", got=len(A.cols) - pos)
        check_sample(s, A.cols[pos], M, Q, tr, dist, n)
        drawn.append(A.cols[pos])
        pos += 1
    if len(drawn) >= 70 and b < n:
        # 2nd moment of the projected vectors
        P = np.eye(n) - Q @ Q.T
        C = np.stack(drawn).T @ np.stack(drawn) / len(drawn)
        ensure(np.abs(C - P).max() < 8 * np.sqrt(3 / len(drawn)), "covariance of the drawn vectors")
        ensure(len({v.tobytes() for v in drawn}) > 1, "vectors are not freshly drawn")


@case("C20", reps=25, thorough=200)
def failure(rng):
    """A failing product leaves no incomplete subspace or trace."""
    from curvlinops import HutchPPTraceEstimator

    n = rng.randint(2, 7)
    b = rng.randint(1, n)
    M = rand(rng, n, n)
    at = rng.randint(0, 2 * b)
    A = Rec(M, fail_at=at)
    est = HutchPPTraceEstimator(A, basis_dim=b)
    raises(InterruptedError, lambda: est.sample(), "failing operator")
    done = len(A.cols)
    s = est.sample("normal")
    # the last basis that was completely multiplied
    v = A.cols[-1]
    if at == 2 * b:  # the subspace was complete
        Q, tr, pos = analyse(A, M, n, b, "rademacher")
        ensure(len(A.cols) == pos + 1, "the subspace is not reused")
    else:
        Q = np.stack(A.cols[-1 - b : -1], 1)
        ensure(nclose(Q.T @ Q, np.eye(b), 1e-7, 1e-7), "basis", at=at, b=b, done=done)
        tr = np.trace(Q.T @ M @ Q)
    check_sample(s, v, M, Q, tr, "normal", n)


@case("C20", reps=8, thorough=40)
def mean(rng):
    from curvlinops import HutchPPTraceEstimator

    n = rng.randint(2, 6)
    M = rand(rng, n, n)
    k = rng.choice([1, 150])
    dist = rng.choice(["rademacher", "normal"])
    S = []
    for _ in range(600 // k):
        est = HutchPPTraceEstimator(M, basis_dim=rng.randint(1, n))
        S += [est.sample(dist) for _ in range(k)]
    S = np.array(S)
    ensure(abs(S.mean() - np.trace(M)) < 9 * S.std() / np.sqrt(600) + 1e-7,
           f"mean {S.mean()} of samples, trace {np.trace(M)}")


@case("C20", reps=20, thorough=100)
def default_dim(rng):
    """One percent of the dimension, at least one and at most ten."""
    from curvlinops import HutchPPTraceEstimator

    n = rng.choice([1, 5, 99, 100, 199, 200, 350, 999, 1000, 1100, 1300])
    d = rand(rng, n)

    class Diag(Rec):
        def __init__(self):
            super().__init__(np.zeros((n, 1)))
            self.shape = (n, n)

        def _matvec(self, x):
            self._one(x)
            return d * np.asarray(x).ravel()

        def _matmat(self, X):
            for c in X.T:
                self._one(c)
            return d[:, None] * X

    A = Diag()
    HutchPPTraceEstimator(A).sample()
    want = min(10, max(1, n // 100))
    ensure(len(A.cols) == 2 * want + 1, f"{len(A.cols)} products for dimension {n}")


@case("C20", reps=10, thorough=60)
def rejected(rng):
    from curvlinops import HutchPPTraceEstimator

    m, n = rng.sample(range(1, 6), 2)
    raises(ValueError, lambda: HutchPPTraceEstimator(Rec(rand(rng, m, n))), f"shape {(m, n)}")
    raises(ValueError, lambda: HutchPPTraceEstimator(rand(rng, n)), "1d array")
    raises(ValueError, lambda: HutchPPTraceEstimator(Rec(rand(rng, n, n)), basis_dim=n + 1),
           f"basis dimension {n + 1} for {n}")
    HutchPPTraceEstimator(Rec(rand(rng, n, n)), basis_dim=n)
    bad = rng.choice(["gaussian", "Normal", ""])
    raises(ValueError, lambda: HutchPPTraceEstimator(
        Rec(rand(rng, n, n)), basis_distribution=bad).sample(), f"distribution {bad!r}")
    raises(ValueError, lambda: HutchPPTraceEstimator(Rec(rand(rng, n, n))).sample(bad),
           f"distribution {bad!r}")
