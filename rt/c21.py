"""C21: spectral densities."""
import numpy as np
from scipy.sparse.linalg import aslinearoperator

from rt.c22 import lanczos, tri
from rt.common import case, ensure
from rt.rec import Rec, nclose, rand, randsym


def run_density(M, v, m, lo, hi, P, kappa, margin, eps=None):
    """Definition: Gaussian mixture in coordinates where the padded interval is [-1, 1]."""
    V, al, be = lanczos(M, v, m)
    ev, U = np.linalg.eigh(tri(al, be))
    w = U[0] ** 2
    if eps is not None:
        lo, hi = np.log(lo + eps), np.log(hi + eps)
        ev = np.log(np.abs(ev) + eps)
    pad = margin * (hi - lo)
    lo, hi = lo - pad, hi + pad
    grid = lo + (hi - lo) * np.arange(P) / (P - 1)
    half = (hi - lo) / 2
    # the full width at height 1 / kappa of the maximum is the distance of m equispaced points
    s = half * 2 / (m - 1) / np.sqrt(8 * np.log(kappa))
    dens = np.array([(w * np.exp(-((g - ev) ** 2) / (2 * s**2))).sum() / np.sqrt(2 * np.pi) / s
                     for g in grid])
    if eps is not None:  # density of the eigenvalue, not its logarithm
        grid = np.exp(grid)
        dens = dens / grid
    return grid, dens


def setup(rng):
    n = rng.randint(6, 14)
    m = rng.randint(2, 5)
    M = randsym(rng, n) + rng.uniform(-2, 2) * np.eye(n)
    return n, m, M


def settings(rng, log):
    kw = dict(num_points=rng.randint(2, 40), kappa=rng.uniform(1.02, 4),
              margin=rng.choice([0.0, 0.05, rng.uniform(0, 0.5)]))
    if log:
        kw["epsilon"] = rng.choice([1e-5, rng.uniform(1e-3, 1)])
    return {k: v for k, v in kw.items() if rng.random() < 0.75}


def defaults(log, cached):
    d = dict(num_points=1024, kappa=3.0, margin=0.05)
    if log:
        d["epsilon"] = 1e-5
        if not cached:
            d["kappa"] = 1.04
    return d


def average(M, starts, m, bounds, cfg):
    res = [run_density(M, v, m, *bounds, cfg["num_points"], cfg["kappa"], cfg["margin"],
                       cfg.get("epsilon")) for v in starts]
    return res[0][0], sum(d for _, d in res) / len(res)


def same(got, want, what, **info):
    ensure(nclose(got[0], want[0], 1e-7, 1e-9), f"{what}: grid", **info)
    scale = np.abs(want[1]).max()
    ensure(np.shape(got[1]) == np.shape(want[1])
           and np.abs(np.asarray(got[1]) - want[1]).max() <= 1e-4 * scale + 1e-12,
           f"{what}: density", err=np.abs(np.asarray(got[1]) - want[1]).max() / scale
           if np.shape(got[1]) == np.shape(want[1]) else None, **info)


def given_bounds(rng, M, log):
    ev = np.linalg.eigvalsh(M)
    if log:
        ev = np.sort(np.abs(ev))
        b = (ev[0] * rng.uniform(0.8, 1.2), ev[-1] * rng.uniform(0.8, 1.2))
        if rng.random() < 0.2:
            b = (b[0], -b[1])
        return b, (abs(b[0]), abs(b[1]))
    b = (ev[0] + rng.uniform(-0.3, 0.3), ev[-1] + rng.uniform(-0.3, 0.3))
    return b, b


@case("C21", reps=60, thorough=600)
def plain(rng):
    from curvlinops import lanczos_approximate_log_spectrum, lanczos_approximate_spectrum

    log = rng.random() < 0.5
    n, m, M = setup(rng)
    A = Rec(M)
    kw = settings(rng, log)
    b, bounds = given_bounds(rng, M, log)
    reps = rng.randint(1, 4)
    if reps > 1 or rng.random() < 0.5:
        kw["num_repeats"] = reps
    f = lanczos_approximate_log_spectrum if log else lanczos_approximate_spectrum
    got = f(A, m, boundaries=b, **kw)
    ensure(len(A.cols) == m * reps, f"{len(A.cols)} products, {reps} runs with {m}")
    starts = A.cols[::m]
    ensure(len({v.tobytes() for v in starts}) == reps, "runs are not independent")
    cfg = {**defaults(log, False), **kw}
    same(got, average(M, starts, m, bounds, cfg), f"{f.__name__} {kw}", bounds=b)


@case("C21", reps=50, thorough=500)
def cached(rng):
    from curvlinops import LanczosApproximateLogSpectrumCached, LanczosApproximateSpectrumCached

    log = rng.random() < 0.5
    n, m, M = setup(rng)
    A = Rec(M)
    b, bounds = given_bounds(rng, M, log)
    cls = LanczosApproximateLogSpectrumCached if log else LanczosApproximateSpectrumCached
    S = cls(A, m, boundaries=b)
    ensure(not A.cols, "boundaries are known, but the operator is used")
    f = S.approximate_log_spectrum if log else S.approximate_spectrum
    most = 0
    for _ in range(rng.randint(2, 5)):
        kw = settings(rng, log)
        reps = rng.randint(1, 5)
        if reps > 1 or rng.random() < 0.5:
            kw["num_repeats"] = reps
        got = f(**kw)
        most = max(most, reps)
        ensure(len(A.cols) == m * most, f"{len(A.cols) / m} runs for at most {most} repeats")
        starts = A.cols[::m]
        ensure(len({v.tobytes() for v in starts}) == most, "runs are not independent")
        cfg = {**defaults(log, True), **kw}
        same(got, average(M, starts[:reps], m, bounds, cfg), f"{cls.__name__} {kw}", bounds=b,
             most=most)


@case("C21", reps=60, thorough=600)
def boundaries(rng):
    """Missing boundaries are estimated, specified ones are used as given."""
    from curvlinops import (
        LanczosApproximateLogSpectrumCached,
        LanczosApproximateSpectrumCached,
        lanczos_approximate_log_spectrum,
        lanczos_approximate_spectrum,
    )
    from curvlinops.papyan2020traces.spectrum import (
        approximate_boundaries,
        approximate_boundaries_abs,
    )

    log = rng.random() < 0.5
    n, m, M = setup(rng)
    # well separated eigenvalues, no zero
    Q, _ = np.linalg.qr(rand(rng, n, n))
    ev = (np.arange(n) + 0.5 + np.array([rng.uniform(0, 0.3) for _ in range(n)])) * np.array(
        [rng.choice([-1, 1]) for _ in range(n)])
    ev = ev + (0 if log else rng.uniform(-5, 5))
    M = Q @ np.diag(ev) @ Q.T
    M = (M + M.T) / 2
    A = aslinearoperator(M)
    tr = np.sort(np.abs(ev)) if log else np.sort(ev)
    true = (tr[0], tr[-1])
    spec = [None if rng.random() < 0.5 else t + rng.uniform(0.1, 0.4) for t in true]
    if log and rng.random() < 0.3:
        spec = [None if s is None else -s for s in spec]
    b = None if spec == [None, None] and rng.random() < 0.5 else tuple(spec)
    want = [t if s is None else (abs(s) if log else s) for s, t in zip(spec, true)]
    g = approximate_boundaries_abs if log else approximate_boundaries
    kw = {} if b is None and rng.random() < 0.5 else {"boundaries": b}
    got = g(A, tol=0, **kw)
    ensure(nclose(got, want, 1e-6, 1e-6), f"{g.__name__} {b}: {got} instead of {want}")
    for s, x, w in zip(spec, got, want):
        ensure(s is None or x == w, f"specified boundary {s} was changed to {x}")
    # used by the densities: the grid has no margin and ends in the boundaries
    f = lanczos_approximate_log_spectrum if log else lanczos_approximate_spectrum
    P = rng.randint(2, 9)
    c = {"epsilon": 1e-3} if log else {}
    off = 1e-3 if log else 0.0
    end = np.array(want) + off
    grid, _ = f(A, m, num_points=P, margin=0.0, boundaries_tol=0, **kw, **c)
    ensure(nclose(grid[[0, -1]], end, 1e-6, 1e-6), f"{f.__name__} {b}: grid {grid[[0, -1]]}")
    cls = LanczosApproximateLogSpectrumCached if log else LanczosApproximateSpectrumCached
    S = cls(A, m, boundaries_tol=0, **kw)
    h = S.approximate_log_spectrum if log else S.approximate_spectrum
    grid, _ = h(num_points=P, margin=0.0, **c)
    ensure(nclose(grid[[0, -1]], end, 1e-6, 1e-6), f"{cls.__name__} {b}: grid {grid[[0, -1]]}")
