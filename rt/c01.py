"""C01: input formats."""
import numpy as np
import torch

from rt.common import case, ensure, raises
from rt.zoo import DT, close, err


def make_op(rng):
    from curvlinops._torch_base import PyTorchLinearOperator

    def shapes():
        return [tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 3)))
                for _ in range(rng.randint(1, 4))]

    ins, outs = shapes(), shapes()
    nin, nout = [int(np.prod(s)) for s in ins], [int(np.prod(s)) for s in outs]
    mat = torch.randn(sum(nout), sum(nin), dtype=DT)

    class Dense(PyTorchLinearOperator):
        calls = 0

        def _matmat(self, X):
            Dense.calls += 1
            for x, s in zip(X, ins):
                ensure(tuple(x.shape[:-1]) == s, "_matmat receives wrong shapes")
            (K,) = {x.shape[-1] for x in X}
            flat = torch.cat([x.reshape(-1, K) for x in X])
            return [y.reshape(*s, K) for y, s in zip((mat @ flat).split(nout), outs)]

    return Dense(ins, outs), Dense, mat, ins, outs, nin, nout


@case("C01", reps=60, thorough=2000)
def formats(rng):
    A, _, mat, ins, outs, nin, nout = make_op(rng)
    ensure(tuple(A.shape) == tuple(mat.shape), "operator shape", got=A.shape)
    K = rng.choice([1, 1, 2, 3, 5])
    N = mat.shape[1]
    V = torch.randn(N, K, dtype=DT) if rng.random() < 0.6 else torch.randn(K, N, dtype=DT).T
    V0 = V.clone()
    W = mat @ V
    got = A @ V
    ensure(close(got, W), f"flat matrix product: {err(got, W)}", ins=ins, outs=outs, K=K)
    ensure(torch.equal(V, V0), "flat matrix was modified")
    for k in range(K):
        v = V[:, k]
        got = A @ v
        ensure(close(got, W[:, k]), f"flat vector product: {err(got, W[:, k])}", ins=ins, outs=outs)
    Vl = [x.reshape(*s, K) for x, s in zip(V.split(nin), ins)]
    keep, keep0 = list(Vl), [x.clone() for x in Vl]
    got = A @ Vl
    ensure(isinstance(got, list) and len(got) == len(outs), "list matrix product is no list")
    for g, w, s in zip(got, W.split(nout), outs):
        ensure(close(g, w.reshape(*s, K)), "list matrix product: "
               + err(g, w.reshape(*s, K)), ins=ins, outs=outs, K=K)
    ensure(len(Vl) == len(keep) and all(a is b for a, b in zip(Vl, keep))
           and all(torch.equal(a, b) for a, b in zip(keep, keep0)), "list was modified")
    vl = [x[..., 0] for x in Vl]
    shapes = [tuple(x.shape) for x in vl]
    got = A @ vl
    for g, w, s in zip(got, W[:, 0].split(nout), outs):
        ensure(close(g, w.reshape(s)), "list vector product: " + err(g, w.reshape(s)),
               ins=ins, outs=outs)
    ensure([tuple(x.shape) for x in vl] == shapes, "list vector was modified")


@case("C01", reps=40, thorough=1000)
def rejected(rng):
    A, cls, mat, ins, outs, nin, nout = make_op(rng)
    N = mat.shape[1]
    K = rng.randint(1, 3)
    good = [torch.randn(*s, K, dtype=DT) for s in ins]
    gvec = [torch.randn(s, dtype=DT) for s in ins]
    bad = [
        ("scalar tensor", torch.randn((), dtype=DT)),
        ("3d tensor", torch.randn(N, K, 1, dtype=DT)),
        ("vector too long", torch.randn(N + 1, dtype=DT)),
        ("vector too short", torch.randn(N - 1, dtype=DT)),
        ("matrix with wrong rows", torch.randn(N + 1, K, dtype=DT)),
        ("numpy array", np.zeros(N)),
        ("tuple of tensors", tuple(gvec)),
        ("None", None), ("string", "abc"), ("float", 1.0),
        ("list with array", gvec[:-1] + [np.zeros(ins[-1])]),
        ("list with None", [None] + gvec[1:]),
        ("too long list", gvec + [torch.randn(1, dtype=DT)]),
        ("too short list", gvec[:-1]),
        ("empty list", []),
        ("too many axes", [torch.randn(*s, K, 1, dtype=DT) for s in ins]),
    ]
    if K + N != N and K != N:
        bad.append(("transposed matrix", torch.randn(K, N, dtype=DT)))
    i = rng.randrange(len(ins))
    if len(ins) > 1:
        bad.append(("different numbers of columns",
                    [torch.randn(*s, K + (j == i), dtype=DT) for j, s in enumerate(ins)]))
        bad.append(("vector mixed into matrix",
                    [torch.randn(s, dtype=DT) if j == i else torch.randn(*s, K, dtype=DT)
                     for j, s in enumerate(ins)]))
    if ins[i]:
        s = list(ins[i])
        s[rng.randrange(len(s))] += 1
        bad.append(("wrong shape of an entry (vector)",
                    [torch.randn(s, dtype=DT) if j == i else g for j, g in enumerate(gvec)]))
        bad.append(("wrong shape of an entry (matrix)",
                    [torch.randn(*s, K, dtype=DT) if j == i else g for j, g in enumerate(good)]))
        if len(set(ins[i])) > 1:
            s = tuple(reversed(ins[i]))
            if s != ins[i]:
                bad.append(("reversed axes", [torch.randn(*s, K, dtype=DT) if j == i else g
                                              for j, g in enumerate(good)]))
        if len(ins[i]) > 1:
            flat = [torch.randn(nin[i], K, dtype=DT) if j == i else g for j, g in enumerate(good)]
            bad.append(("flattened entry", flat))
    for name, x in bad:
        # skip the ones that happen to be valid
        if isinstance(x, list) and len(x) == len(ins) and all(isinstance(t, torch.Tensor) for t in x):
            if all(tuple(t.shape) == s for t, s in zip(x, ins)):
                continue
            if (all(t.ndim == len(s) + 1 and tuple(t.shape[:-1]) == s for t, s in zip(x, ins))
                    and len({t.shape[-1] for t in x}) == 1):
                continue
        n0 = cls.calls
        raises(ValueError, lambda: A @ x, f"input '{name}' for in_shape={ins}")
        ensure(cls.calls == n0, f"map applied to invalid input '{name}'")
