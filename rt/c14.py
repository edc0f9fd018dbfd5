"""C14: inverse KFAC."""
import math

import torch

from rt.c13 import regular
from rt.common import case, ensure, raises
from rt.kfz import KProblem, config, make, reference
from rt.zoo import DT, check_operator, close, err


def dampings(rng):
    k = rng.randrange(5)
    kw = {}
    if k == 0:
        kw = dict(damping=rng.uniform(0.05, 1))
    elif k == 1:
        kw = dict(damping=(rng.uniform(0.05, 1), rng.uniform(0.05, 1)))
    elif k == 2:
        kw = dict(damping=rng.uniform(0.05, 1), use_heuristic_damping=True,
                  min_damping=rng.choice([1e-8, 0.3, 0.8]))
    else:
        kw = dict(damping=rng.uniform(0.05, 1), use_exact_damping=True)
    if rng.random() < 0.5:
        kw["cache"] = rng.random() < 0.5
    return kw


def dense_inverse(p, A, B, sep, damping=0.0, use_heuristic_damping=False, min_damping=1e-8,
                  use_exact_damping=False, cache=True):
    inv = torch.linalg.inv
    eye = lambda M: torch.eye(M.shape[0], dtype=DT)  # noqa: E731
    if use_exact_damping:
        # damp the blocks of the dense matrix
        K = p.dense(A, B, sep)
        return inv(K + damping * eye(K))
    IA, IB = {}, {}
    for name, mod, pos in p.layers():
        b = B[name]
        a = A.get(name)
        da, db = damping if isinstance(damping, tuple) else (damping, damping)
        if use_heuristic_damping and a is not None:
            ra, rb = a.diagonal().mean().item(), b.diagonal().mean().item()
            if ra > 0 and rb > 0:
                r = math.sqrt(ra / rb)
                da = max(r * math.sqrt(damping), min_damping)
                db = max(math.sqrt(damping) / r, min_damping)
        if a is not None:
            IA[name] = inv(a + da * eye(a))
        IB[name] = inv(b + db * eye(b))
    return p.dense(IA, IB, sep)


@case("C14", reps=70, thorough=1000)
def loaded(rng):
    from curvlinops import KFACInverseLinearOperator

    p = KProblem(rng, subset=rng.random() < 0.6)
    cfg = config(rng)
    sep = cfg["separate_weight_and_bias"]
    op = make(p, **cfg)
    regular(rng, op, p, sep)
    s = op.state_dict()
    A, B = s["input_covariances"], s["gradient_covariances"]
    if A and rng.random() < 0.1:  # a layer without inputs
        A[rng.choice(sorted(A))].zero_()
    A0, B0 = {k: v.clone() for k, v in A.items()}, {k: v.clone() for k, v in B.items()}
    kw = dampings(rng)
    inv = KFACInverseLinearOperator(op, **kw)
    want = dense_inverse(p, A, B, sep, **kw)
    shapes = [tuple(q.shape) for q in p.params]
    for _ in range(2):
        check_operator(inv, want, rng, ensure, f"inverse KFAC {kw}, {cfg}, {p.desc()}", shapes,
                       shapes)
    ensure(all(torch.equal(A0[k], A[k]) for k in A0) and all(torch.equal(B0[k], B[k]) for k in B0),
           "Kronecker factors of KFAC were modified")
    ensure(close(inv.adjoint() @ torch.ones(p.D, dtype=DT), want.T @ torch.ones(p.D, dtype=DT)),
           "adjoint")


@case("C14", reps=25, thorough=300)
def computed(rng):
    """The inverse triggers the computation of KFAC's factors."""
    from curvlinops import KFACInverseLinearOperator

    p = KProblem(rng)
    cfg = config(rng)
    kw = dampings(rng)
    A, B = reference(p, cfg)
    inv = KFACInverseLinearOperator(make(p, **cfg), **kw)
    want = dense_inverse(p, A, B, cfg["separate_weight_and_bias"], **kw)
    shapes = [tuple(q.shape) for q in p.params]
    check_operator(inv, want, rng, ensure, f"inverse KFAC {kw}, {cfg}, {p.desc()}", shapes, shapes,
                   rtol=1e-6, atol=1e-6)


@case("C14", reps=30, thorough=300)
def retry(rng):
    """In single precision a failing decomposition is repeated in double precision."""
    from curvlinops import KFACInverseLinearOperator

    p = KProblem(rng, arch="mlp", subset=False)
    op = make(p, fisher_type="empirical", separate_weight_and_bias=True)
    s = dict(op.state_dict())
    A, B = {}, {}
    d = rng.choice([3e-8, 1e-7, 1e-6])
    needed = False
    for name, mod, pos in p.layers():
        for dct, k in ((A, mod.weight[0].numel()), (B, mod.weight.shape[0])):
            if dct is A and "weight" not in pos:
                continue
            ill = rng.random() < 0.7
            q, _ = torch.linalg.qr(torch.randn(k, k, dtype=DT))
            ev = torch.rand(k, dtype=DT) + 0.5
            if ill:
                ev[0] = rng.choice([0.0, 1e-9])
            M = (q @ torch.diag(ev) @ q.T).float()
            M = (M + M.T) / 2
            damped = M.double() + d * torch.eye(k, dtype=DT)
            # precondition: positive definite in double precision
            if torch.linalg.eigvalsh(damped).min() < 1e-9:
                M = M + 1e-3 * torch.eye(k)
            needed |= torch.linalg.cholesky_ex(M + d * torch.eye(k))[1].item() != 0
            dct[name] = M
    s["input_covariances"], s["gradient_covariances"] = A, B
    op.load_state_dict(s)
    inv = KFACInverseLinearOperator(op, damping=d, retry_double_precision=True)
    V = [torch.randn(*q.shape) for q in p.params]
    got = inv @ V
    for g, v in zip(got, V):
        ensure(g.dtype == torch.float32 and g.shape == v.shape, f"result type {g.dtype}")
        ensure(bool(torch.isfinite(g).all()), "result is not finite")
    if needed:
        strict = KFACInverseLinearOperator(op, damping=d, retry_double_precision=False)
        raises(RuntimeError, lambda: strict @ V, "decomposition must not be repeated")


@case("C14", reps=3, thorough=10)
def rejected(rng):
    from curvlinops import GGNLinearOperator, KFACInverseLinearOperator

    p = KProblem(rng, arch="mlp")
    op = make(p)
    raises(ValueError, lambda: KFACInverseLinearOperator(
        op, damping=0.1, use_heuristic_damping=True, use_exact_damping=True), "both dampings")
    raises(ValueError, lambda: KFACInverseLinearOperator(
        op, damping=(0.1, 0.2), use_heuristic_damping=True), "tuple with heuristic damping")
    raises(ValueError, lambda: KFACInverseLinearOperator(
        op, damping=(0.1, 0.2), use_exact_damping=True), "tuple with exact damping")
    G = GGNLinearOperator(p.model, p.loss_func, p.params, p.data, **p.kw())
    raises(ValueError, lambda: KFACInverseLinearOperator(G, damping=0.1), "operator is not KFAC")
