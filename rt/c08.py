"""C08: SciPy export."""
import numpy as np
import torch
from torch import nn

from rt.c01 import make_op
from rt.common import case, ensure, raises
from rt.zoo import DT, Problem, close, jacobian


def layouts(rng, a):
    """The same array in another memory layout."""
    k = rng.randrange(6)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        b = np.zeros([2 * s for s in a.shape], a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if k == 2:
        return a[::-1].copy()[::-1]
    if k == 3 and a.ndim == 2:
        return a[:, ::-1].copy()[:, ::-1]
    if k == 4:
        a = a.copy()
        a.flags.writeable = False
        return a
    return a


TYPES = ["float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint8", "bool"]


def sample(rng, shape, dt):
    if dt == "bool":
        return np.random.rand(*shape) < 0.5
    if dt.startswith("float"):
        return np.random.randn(*shape).astype(dt)
    return np.random.randint(0 if dt[0] == "u" else -4, 5, size=shape).astype(dt)


def check(rng, S, mat, what, opdt="float64"):
    M, N = mat.shape
    ensure(tuple(S.shape) == (M, N), f"{what}: shape {S.shape}")
    for T, m, w in ((S, mat, "export"), (S.adjoint(), mat.T, "adjoint of export")):
        dt = rng.choice(TYPES)
        K = rng.choice([1, 2, 3])
        V = layouts(rng, sample(rng, (m.shape[1], K), dt))
        V0 = V.copy()
        low = "float16" in (dt,) or opdt == "bfloat16"
        mid = dt == "float32" or opdt == "float32"
        tol = 3e-2 if opdt == "bfloat16" else (5e-3 if low else 1e-4 if mid else 1e-8)
        want = m @ V.astype(np.float64)
        s = max(1.0, np.abs(m).max()) * max(1.0, np.abs(V0.astype(float)).max()) * m.shape[1]
        for got, ww, kind in ((T @ V, want, "matrix"), (T @ V[:, 0], want[:, 0], "vector"),
                              (T @ V[:, :1], want[:, :1], "column"),
                              (T.matvec(V[:, 0]), want[:, 0], "matvec"),
                              (T.matmat(V), want, "matmat")):
            ensure(isinstance(got, np.ndarray) and got.shape == ww.shape,
                   f"{what}: {w}, {kind}: shape {got.shape}, want {ww.shape}")
            ensure(np.abs(got.astype(np.float64) - ww).max(initial=0) <= tol * s,
                   f"{what}: {w}, {kind} of type {dt}: error "
                   f"{np.abs(got.astype(np.float64) - ww).max():.2e}")
            if dt.startswith("float"):
                ensure(got.dtype == V.dtype, f"{what}: result type {got.dtype} for input {V.dtype}")
        ensure(np.array_equal(V, V0), f"{what}: input modified")
    X = np.random.randn(M, 2)
    ensure(np.allclose(S.rmatvec(X[:, 0]), mat.T @ X[:, 0], atol=3e-2 if opdt != "float64" else 1e-8,
                       rtol=1e-2), f"{what}: rmatvec")
    ensure(np.allclose(S.rmatmat(X), mat.T @ X, atol=3e-2 if opdt != "float64" else 1e-8, rtol=1e-2),
           f"{what}: rmatmat")


@case("C08", reps=30, thorough=500)
def rectangular(rng):
    from curvlinops import JacobianLinearOperator, TransposedJacobianLinearOperator

    p = Problem(rng, losses=("mse", "ce"))
    mat = jacobian(p.core(p.X), p.params).numpy()
    tr = rng.random() < 0.5
    cls = TransposedJacobianLinearOperator if tr else JacobianLinearOperator
    A = cls(p.model, p.params, p.data, **p.kw())
    dt = rng.choice([None, np.float64, np.float32, np.float16, np.dtype("float32"), "float32"])
    S = A.to_scipy() if dt is None and rng.random() < 0.5 else A.to_scipy(dtype=dt)
    ensure(S.dtype == (np.dtype("float64") if dt is None else np.dtype(dt)),
           f"type of the export is {S.dtype}, requested {dt}")
    check(rng, S, mat.T if tr else mat, f"{cls.__name__}, {p.desc()}")


@case("C08", reps=10, thorough=150)
def types(rng):
    """Parameters in other data types."""
    from curvlinops import JacobianLinearOperator

    dt = rng.choice([torch.float32, torch.bfloat16, torch.float64])
    p = Problem(rng, losses=("mse",), dtype=dt, dict_ok=False, seq=())
    mat = jacobian(p.core(p.X), p.params).to(torch.float64).numpy()
    seen = []
    model = lambda x: p.core(x)  # noqa: E731
    A = JacobianLinearOperator(model, p.params, p.data, **p.kw())
    orig = type(A).__matmul__

    class Spy(type(A)):
        def __matmul__(self, X):
            seen.append((X.dtype, str(X.device)))
            return orig(self, X)

    A.__class__ = Spy
    S = A.to_scipy()
    check(rng, S, mat, f"parameters in {dt}", str(dt).split(".")[1])
    ensure(all(s == (dt, "cpu") for s in seen), f"computation in {set(seen)}, parameters are {dt}")


@case("C08", reps=5, thorough=30)
def rejected(rng):
    from curvlinops import GGNLinearOperator

    m = nn.Sequential(nn.Linear(2, 2), nn.Linear(2, 1)).to(DT)
    data = [(torch.randn(2, 2, dtype=DT), torch.randn(2, 1, dtype=DT))]
    params = list(m.parameters())
    A = GGNLinearOperator(m, nn.MSELoss(), params, data, check_deterministic=False)
    A.to_scipy()
    k = rng.randrange(4)
    params[k] = nn.Parameter(params[k].detach().float())
    A = GGNLinearOperator(m, nn.MSELoss(), params, data, check_deterministic=False)
    raises(RuntimeError, A.to_scipy, "parameters with two data types")
    params[k] = nn.Parameter(torch.empty_like(params[k], device="meta", dtype=DT))
    raises(RuntimeError, lambda: GGNLinearOperator(
        m, nn.MSELoss(), params, data, check_deterministic=False).to_scipy(),
        "parameters on two devices")


@case("C08", reps=10, thorough=100)
def symmetric(rng):
    from curvlinops import GGNLinearOperator, HessianLinearOperator, EFLinearOperator

    p = Problem(rng)
    cls = rng.choice([GGNLinearOperator, HessianLinearOperator, EFLinearOperator])
    A = cls(p.model, p.loss_func, p.params, p.data, **p.kw())
    mat = (A @ torch.eye(p.D, dtype=DT)).detach().numpy()
    check(rng, A.to_scipy(), mat, cls.__name__)
