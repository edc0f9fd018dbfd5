"""C19: Hutchinson estimators and sampling."""
import numpy as np

from rt.common import case, ensure, raises
from rt.rec import Rec, nclose, rand


def fresh(vs, dim, dist, what):
    """Entries of the drawn vectors, an independent bound on their moments."""
    for v in vs:
        ensure(v.shape == (dim,), f"{what}: drawn vector has shape {v.shape}, not {(dim,)}")
        if dist == "rademacher":
            ensure(bool(np.all(np.abs(v) == 1)), f"{what}: entries are not ±1")
    V = np.stack(vs)
    n = V.size
    # at least 7 standard deviations; the variance of the 2nd moment is at most 2 per entry
    ensure(abs(V.mean()) < 7 / np.sqrt(n), f"{what}: mean {V.mean()} of {n} entries")
    if n >= 60:
        ensure(abs((V**2).mean() - 1) < 9 * np.sqrt(2 / n), f"{what}: variance {(V**2).mean()}")
    if dist == "normal":
        # P(|v| < 0.6744898) = 1/2
        q = (np.abs(V) < 0.6744898).mean()
        ensure(n < 60 or abs(q - 0.5) < 4 / np.sqrt(n), f"{what}: not normal, P = {q}")
    # neighbouring entries and draws are uncorrelated
    for name, a, b in (("entries", V[:, 1:], V[:, :-1]), ("draws", V[1:], V[:-1]),
                       ("entries and draws", V[1:, :-1], V[:-1, 1:])):
        if a.size >= 60:
            c = (a * b).mean()
            ensure(abs(c) < 9 / np.sqrt(a.size), f"{what}: neighbouring {name} correlate: {c}")
    # every entry varies over draws
    if len(vs) >= 64:
        m = np.abs(V.mean(0)).max()
        ensure(m < 7 / np.sqrt(len(vs)), f"{what}: an entry has mean {m}")


def estimators():
    from curvlinops import (
        HutchinsonDiagonalEstimator,
        HutchinsonSquaredFrobeniusNormEstimator,
        HutchinsonTraceEstimator,
    )

    return {
        "trace": (HutchinsonTraceEstimator, lambda M, v: v @ M @ v),
        "diagonal": (HutchinsonDiagonalEstimator, lambda M, v: v * (M @ v)),
        "norm": (HutchinsonSquaredFrobeniusNormEstimator, lambda M, v: ((M @ v) ** 2).sum()),
    }


@case("C19", reps=60, thorough=600)
def sample(rng):
    name = rng.choice(["trace", "diagonal", "norm"])
    cls, fun = estimators()[name]
    n = rng.randint(1, 7)
    m = rng.randint(1, 7) if name == "norm" else n
    M = rand(rng, m, n)
    A = Rec(M)
    est = cls(A)
    dist = rng.choice([None, "rademacher", "normal"])
    drawn = []
    for _ in range(rng.choice([1, 5, 80])):
        before = len(A.cols)
        s = est.sample() if dist is None else rng.choice(
            [lambda: est.sample(dist), lambda: est.sample(distribution=dist)])()
        ensure(len(A.cols) == before + 1, f"{name}: {len(A.cols) - before} products for a sample")
        v = A.cols[-1]
        ensure(nclose(s, fun(M, v)), f"{name} sample of {dist} is {s}, not {fun(M, v)}")
        drawn.append(v)
    fresh(drawn, n, dist or "rademacher", name)


@case("C19", reps=20, thorough=100)
def vectors(rng):
    from curvlinops.sampling import normal, rademacher, random_vector

    dist = rng.choice(["rademacher", "normal"])
    dim = rng.choice([1, 2, 3, 50, 2000])
    f = rng.choice([lambda: random_vector(dim, dist),
                    lambda: {"rademacher": rademacher, "normal": normal}[dist](dim)])
    drawn = [f() for _ in range(rng.choice([3, 70]))]
    ensure(all(np.issubdtype(v.dtype, np.floating) for v in drawn), "not floating point")
    fresh(drawn, dim, dist, f"random_vector({dim}, {dist!r})")


@case("C19", reps=10, thorough=60)
def mean(rng):
    """Averages approach the estimated quantity."""
    name = rng.choice(["trace", "diagonal", "norm"])
    cls, fun = estimators()[name]
    n = rng.randint(2, 4)
    M = rand(rng, n, n)
    want = {"trace": np.trace(M), "diagonal": np.diag(M), "norm": (M**2).sum()}[name]
    est = cls(M if rng.random() < 0.5 else Rec(M))
    dist = rng.choice(["rademacher", "normal"])
    S = np.stack([est.sample(dist) for _ in range(600)])
    ensure(S[0].shape == np.shape(want), f"{name}: sample has shape {S[0].shape}")
    std = S.std(0) + 1e-9
    ensure(bool(np.all(np.abs(S.mean(0) - want) < 8 * std / np.sqrt(600) + 1e-9)),
           f"{name} ({dist}): mean {S.mean(0)} instead of {want}")


@case("C19", reps=15, thorough=80)
def rejected(rng):
    from curvlinops.sampling import random_vector

    for name, (cls, _) in estimators().items():
        m, n = rng.sample(range(1, 6), 2)
        if name != "norm":
            raises(ValueError, lambda: cls(Rec(rand(rng, m, n))), f"{name} of shape {(m, n)}")
            raises(ValueError, lambda: cls(rand(rng, n)), f"{name} of 1d array")
            raises(ValueError, lambda: cls(rand(rng, n, n, n)), f"{name} of 3d array")
        bad = rng.choice(["gaussian", "Normal", "", "rademache", "normal "])
        raises(ValueError, lambda: cls(Rec(rand(rng, n, n))).sample(bad), f"distribution {bad!r}")
        raises(ValueError, lambda: random_vector(n, bad), f"distribution {bad!r}")
