PROPERTY = "C14"
NEEDS = "heuristic damping with a gradient covariance whose heuristic damping falls below min_damping"
BREAKS = "the heuristic damping of the gradient covariance is not bounded from below by min_damping"
EDITS = [("inverse.py", "damping_ggT = max(sqrt_damping / sqrt_eig_mean_ratio, self._min_damping)",
          "damping_ggT = sqrt_damping / sqrt_eig_mean_ratio")]
DEMO = '''
from torch import allclose, float64, manual_seed, rand, eye, kron
from torch.nn import Linear, MSELoss
from curvlinops import KFACInverseLinearOperator, KFACLinearOperator

manual_seed(0)
net = Linear(3, 2, bias=False).to(float64)
data = [(10 * rand(6, 3, dtype=float64), rand(6, 2, dtype=float64))]
K = KFACLinearOperator(net, MSELoss(), list(net.parameters()), data, fisher_type="empirical")
for damping, floor in [(1e-2, 1e-8), (1e-4, 0.5), (1e-2, 5.0), (0.0, 0.25)]:
    inv = KFACInverseLinearOperator(K, damping=damping, use_heuristic_damping=True,
                                    min_damping=floor)
    D = inv @ eye(6, dtype=float64)
    (A,), (B,) = K._input_covariances.values(), K._gradient_covariances.values()
    pi = ((A.trace() / 3) / (B.trace() / 2)).sqrt()
    dA = max((pi * damping**0.5).item(), floor)
    dB = max((damping**0.5 / pi).item(), floor)
    ref = kron((B + dB * eye(2, dtype=float64)).inverse(),
               (A + dA * eye(3, dtype=float64)).inverse())
    assert allclose(D, ref), (damping, floor)
'''
