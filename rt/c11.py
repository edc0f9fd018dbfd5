"""C11: Kronecker factors."""
import itertools
import math

import torch

from rt.common import Skip, case, ensure
from rt.kfz import KProblem, config, make, reference
from rt.zoo import DT, close, err, spread


def factors(op, p):
    """Kronecker factors of the operator (computed by a first product)."""
    op @ torch.ones(p.D, dtype=DT)
    s = op.state_dict()
    return s["input_covariances"], s["gradient_covariances"]


def compare(got, want, what):
    ensure(set(got) == set(want), f"{what}: layers {sorted(got)}, want {sorted(want)}")
    for k in want:
        ensure(close(got[k].detach(), want[k]), f"{what} of layer {k}: {err(got[k].detach(), want[k])}")


@case("C11", reps=60, thorough=800)
def exact(rng):
    p = KProblem(rng)
    cfg = config(rng)
    op = make(p, **cfg)
    A, B = factors(op, p)
    RA, RB = reference(p, cfg)
    compare(A, RA, f"input covariance, {cfg}, {p.desc()}")
    compare(B, RB, f"gradient covariance, {cfg}, {p.desc()}")


@case("C11", reps=10, thorough=200)
def partition(rng):
    p = KProblem(rng)
    cfg = config(rng)
    A, B = factors(make(p, **cfg), p)
    sizes = spread(rng, p.N, rng.randint(1, p.N))
    A2, B2 = factors(make(p, data=p.batches(sizes), **cfg), p)
    compare(A2, A, f"input covariance for partition {sizes} vs. {p.sizes}, {cfg}")
    compare(B2, B, f"gradient covariance for partition {sizes} vs. {p.sizes}, {cfg}")


@case("C11", reps=8, thorough=80)
def given_numbers(rng):
    """num_data and num_per_example_loss_terms as specified by the user."""
    p = KProblem(rng)
    cfg = config(rng)
    op = make(p, num_data=p.N, num_per_example_loss_terms=p.T, **cfg)
    A, B = factors(op, p)
    RA, RB = reference(p, cfg)
    compare(A, RA, "input covariance, given numbers")
    compare(B, RB, "gradient covariance, given numbers")


@case("C11", reps=25, thorough=300)
def sampled_discrete(rng):
    """MC: factors for one of the finitely many possible choices of labels."""
    p = KProblem(rng, losses=("ce", "bce"), max_n=3, min_n=1, n_batches=1)
    mc = rng.choice([1, 1, 2])
    terms = p.N * p.T
    n_opt = p.C if p.loss_name == "ce" else 2**p.C
    if n_opt ** (terms * mc) > 800:
        raise Skip
    cfg = dict(config(rng), fisher_type="mc", mc_samples=mc, seed=rng.randrange(2**31))
    op = make(p, **cfg)
    A, B = factors(op, p)
    compare(A, p.input_factors(cfg["kfac_approx"], cfg["separate_weight_and_bias"]),
            "input covariance (MC)")
    if p.loss_name == "ce":
        labels = [torch.tensor(c) for c in itertools.product(range(p.C), repeat=terms)]
    else:
        labels = [torch.tensor(c, dtype=DT).reshape(terms, p.C)
                  for c in itertools.product((0.0, 1.0), repeat=terms * p.C)]
    single = [p.grad_factor_from([p.term_grads(y)], cfg["kfac_approx"]) for y in labels]
    s = p.scale(mc)
    best = math.inf
    for combo in itertools.combinations_with_replacement(single, mc):
        d = max((sum(c[k] for c in combo) * s - B[k]).abs().max().item() for k in B)
        best = min(best, d)
    ensure(best < 1e-9, f"MC gradient covariance is not the one of any labels, distance {best:.2e}",
           cfg=cfg, problem=p.desc())


@case("C11", reps=5, thorough=40)
def sampled_mean(rng):
    """MC: many samples approach the exact factors (one loss term per datum)."""
    p = KProblem(rng, max_n=4, arch=rng.choice(["mlp", "seqshare", "conv"]))
    mc = 800
    cfg = dict(config(rng), fisher_type="mc", mc_samples=mc, seed=rng.randrange(2**31))
    A, B = factors(make(p, **cfg), p)
    want = p.gradient_factors("type-2", cfg["kfac_approx"])
    for k in want:
        s = want[k].diagonal().sum().item() + 1e-12
        d = (B[k] - want[k]).abs().max().item()
        ensure(d < 7 * 2 * s / math.sqrt(mc) * 1.5, f"MC gradient covariance of layer {k} after {mc} samples "
               f"is off by {d:.2e}, trace {s:.2e}", cfg=cfg, problem=p.desc())


@case("C11", reps=6, thorough=60)
def sampled_repro(rng):
    p = KProblem(rng)
    cfg = dict(config(rng), fisher_type="mc", mc_samples=rng.choice([1, 2]), seed=rng.randrange(2**31))
    A, B = factors(make(p, **cfg), p)
    torch.rand(3)
    A2, B2 = factors(make(p, **cfg), p)
    compare(B2, B, "same seed")
    if p.loss_name == "mse" and any(b.abs().max() > 1e-8 for b in B.values()):
        cfg["seed"] += 1
        _, B3 = factors(make(p, **cfg), p)
        ensure(any(not close(B3[k], B[k], 1e-5, 1e-12) for k in B if B[k].abs().max() > 1e-8),
               "different seeds give the same factors")
