"""C06: Monte-Carlo Fisher."""
import itertools
import math

import torch
from torch import nn

from rt.common import Skip, case, ensure, raises
from rt.zoo import DT, Problem, close, err, flatcat, dgrad, jacobian


def op(p, **kw):
    from curvlinops import FisherMCLinearOperator

    return FisherMCLinearOperator(p.model, p.loss_func, p.params, p.data, **p.kw(**kw))


@case("C06", reps=20, thorough=300)
def fixed_matrix(rng):
    p = Problem(rng)
    seed, mc = rng.randrange(2**31), rng.choice([1, 2, 3])
    A = op(p, seed=seed, mc_samples=mc)
    D = p.D
    I = torch.eye(D, dtype=DT)
    F = A @ I
    torch.rand(7)
    ensure(close(F, F.T), "matrix is not symmetric: " + err(F, F.T), problem=p.desc())
    ev = torch.linalg.eigvalsh(F)
    ensure(ev.min() > -1e-8 * max(1.0, ev.max()), "matrix is not positive semi-definite")
    V = torch.randn(D, 3, dtype=DT)
    for k in range(3):
        got = A @ V[:, k]
        ensure(close(got, F @ V[:, k]), f"product {k} uses another matrix: {err(got, F @ V[:, k])}",
               problem=p.desc(), mc=mc)
    got = A @ V
    ensure(close(got, F @ V), f"matrix product uses another matrix: {err(got, F @ V)}",
           problem=p.desc(), mc=mc)
    got = A.adjoint() @ V
    ensure(close(got, F @ V), "adjoint uses another matrix")
    S = A.to_scipy()
    v = V[:, 0].numpy()
    ensure(close(torch.as_tensor(S @ v), F @ V[:, 0]), "SciPy export uses another matrix")
    ensure(close(torch.as_tensor(S.rmatvec(v)), F @ V[:, 0]), "adjoint SciPy product differs")
    B = op(p, seed=seed, mc_samples=mc)
    torch.rand(3)
    ensure(close(B @ V, F @ V), "a second operator with the same seed is another matrix")


def enum_matrices(p, mc):
    """All matrices reachable with discrete labels (small problems)."""
    out = p.out2d(p.X)
    n, C = out.shape
    J = [jacobian(out[i], p.params) for i in range(n)]
    opts = []
    for i in range(n):
        f = out[i].detach()
        if p.loss_name == "ce":
            pr = torch.softmax(f, 0)
            gs = [pr - torch.eye(C, dtype=DT)[k] for k in range(C)]
        else:
            pr = torch.sigmoid(f)
            gs = [pr - torch.tensor(y, dtype=DT) for y in itertools.product((0.0, 1.0), repeat=C)]
        for _ in range(mc):
            opts.append([J[i].T @ torch.outer(g, g) @ J[i] for g in gs])
    c = 1.0
    if p.reduction == "mean":
        c = n if p.loss_name == "ce" else n * C
    if math.prod(len(o) for o in opts) > 5000:
        raise Skip
    return opts, c * mc


@case("C06", reps=40, thorough=600)
def discrete(rng):
    """The matrix is one of the finitely many that the definition allows."""
    p = Problem(rng, losses=("ce", "bce"), max_n=3)
    mc = rng.choice([1, 1, 2])
    opts, c = enum_matrices(p, mc)
    F = op(p, seed=rng.randrange(2**31), mc_samples=mc) @ torch.eye(p.D, dtype=DT)
    best = float("inf")
    parts = [torch.zeros(1, p.D, p.D, dtype=DT)]
    acc = parts[0]
    for o in opts:
        o = torch.stack(o)
        acc = (acc[:, None] + o[None]).reshape(-1, p.D, p.D)
    best = ((acc / c - F).abs().amax((1, 2))).min().item()
    ensure(best <= 1e-9 * max(1.0, F.abs().max().item()),
           f"matrix is not (1/c) Σ gᵀg for any choice of labels, distance {best:.2e}",
           problem=p.desc(), mc=mc)


@case("C06", reps=6, thorough=40)
def expectation(rng):
    """With many samples the matrix approaches its expectation (closed form)."""
    p = Problem(rng, max_n=4)
    mc = 4000
    F = op(p, seed=rng.randrange(2**31), mc_samples=mc) @ torch.eye(p.D, dtype=DT)
    out = p.out2d(p.X)
    n, C = out.shape
    want = 0
    scale = 0.0
    for i in range(n):
        f = out[i].detach()
        J = jacobian(out[i], p.params)
        if p.loss_name == "mse":
            H = 2 * torch.eye(C, dtype=DT)
        elif p.loss_name == "ce":
            q = torch.softmax(f, 0)
            H = torch.diag(q) - torch.outer(q, q)
        else:
            q = torch.sigmoid(f)
            H = torch.diag(q * (1 - q))
        want = want + J.T @ H @ J
        scale = scale + (J.T @ J).abs().max().item()
    c = 1.0
    if p.reduction == "mean":
        c = n if p.loss_name == "ce" else n * C
    want, scale = want / c, scale / c
    # standard deviation of a gᵀg entry is at most about 3 (MSE), 1 otherwise, times C^2
    tol = 7 * 3 * C * scale / math.sqrt(mc) + 1e-9
    d = (F - want).abs().max().item()
    ensure(d < tol, f"mean over {mc} samples is off by {d:.3e} (tolerance {tol:.3e})",
           problem=p.desc())


@case("C06", reps=12, thorough=100)
def independence(rng):
    """Different samples, data points and seeds use different labels."""
    C = 4
    m = nn.Linear(2, C, bias=False).to(DT)
    n, mc = rng.choice([(1, 3), (3, 1), (2, 2)])
    x = torch.randn(1, 2, dtype=DT)
    X = x.repeat(n, 1)
    sizes = rng.choice([[n], [1] * n])
    data = [(a, torch.zeros(a.shape[0], C, dtype=DT)) for a in X.split(sizes)]
    from curvlinops import FisherMCLinearOperator

    def mat(seed):
        return FisherMCLinearOperator(m, nn.MSELoss(reduction="sum"), list(m.parameters()), data,
                                      check_deterministic=False, seed=seed, mc_samples=mc
                                      ) @ torch.eye(2 * C, dtype=DT)

    s = rng.randrange(2**31 - 5)
    F = mat(s)
    r = torch.linalg.matrix_rank(F, rtol=1e-9).item()
    ensure(r == min(n * mc, C), f"{n} data points in batches {sizes} with {mc} samples give rank {r}")
    ensure(not close(mat(s + 1), F, 1e-3, 1e-6), "different seeds give the same matrix")
    # consistent scale: F = JᵀGJ/mc, E[G] has trace 2 C n mc
    J = torch.kron(torch.eye(C, dtype=DT), x)
    G = torch.linalg.pinv(J.T) @ F @ torch.linalg.pinv(J)
    ensure(close(J.T @ G @ J, F), "matrix is not in the range of the Jacobian")


@case("C06", reps=3, thorough=30)
def independent_labels(rng):
    """Labels of different samples and data points coincide as often as independent ones."""
    from curvlinops import FisherMCLinearOperator

    C = 3
    kind = rng.choice(["ce", "bce"])
    f = torch.randn(C, dtype=DT) if kind == "ce" else 0.7 * torch.randn(C, dtype=DT)
    m = nn.Linear(1, C, bias=False).to(DT)
    with torch.no_grad():
        m.weight.copy_(f[:, None])
    n, mc = rng.choice([(1, 2), (1, 3), (2, 1), (3, 1)])
    X = torch.ones(n, 1, dtype=DT)
    y = torch.zeros(n, dtype=torch.long) if kind == "ce" else torch.zeros(n, C, dtype=DT)
    L = (nn.CrossEntropyLoss if kind == "ce" else nn.BCEWithLogitsLoss)(reduction="sum")
    same, num = 0, 100
    k = n * mc
    for s in range(num):
        F = FisherMCLinearOperator(m, L, list(m.parameters()), [(X, y)], mc_samples=mc,
                                   check_deterministic=False, seed=rng.randrange(2**31)
                                   ) @ torch.eye(C, dtype=DT)
        # all labels are the same iff the sum of outer products has rank one
        same += int(torch.linalg.eigvalsh(F)[-2] < 1e-9)
    if kind == "ce":
        q = torch.softmax(f, 0)
        expect = (q**k).sum().item()
    else:
        q = torch.sigmoid(f)
        expect = (q**k + (1 - q) ** k).prod().item()
    sd = math.sqrt(max(expect * (1 - expect), 1e-2) / num)
    ensure(abs(same / num - expect) < 6 * sd,
           f"all {mc} labels of {n} data points coincide with frequency {same / num} instead of "
           f"{expect:.3f} ({kind})")


@case("C06", reps=2, thorough=10)
def rejected(rng):
    p = Problem(rng, losses=("mse",))
    for L in (nn.L1Loss(), nn.BCELoss(), lambda f, y: ((f - y) ** 2).sum()):
        p.loss_func = L
        raises(NotImplementedError, lambda: op(p), f"loss {L}")
    p = Problem(rng, losses=("bce",))
    p.data = [(X, y + 0.25) for X, y in p.data]
    raises(NotImplementedError, lambda: op(p) @ torch.ones(p.D, dtype=DT), "non-binary labels")
