PROPERTY = "C11"
NEEDS = "a linear layer whose inputs have more than two weight-sharing dimensions, with KFAC-expand"
BREAKS = "the input covariance is only divided by the size of the first two weight-sharing dimensions"
EDITS = [("kfac.py", "            scale = x.shape[1:-1].numel()  # sequence length\n",
          "            scale = x.shape[1:-1][:2].numel()  # sequence length\n")]
DEMO = '''
from torch import allclose, float64, manual_seed, rand
from torch.nn import Linear, MSELoss
from curvlinops import KFACLinearOperator

manual_seed(0)
net = Linear(3, 2).to(float64)
for shared in [(), (4,), (4, 5), (2, 1, 3)]:
    X, y = rand(6, *shared, 3, dtype=float64), rand(6, *shared, 2, dtype=float64)
    K = KFACLinearOperator(net, MSELoss(), list(net.parameters()), [(X, y)],
                           fisher_type="empirical")
    K @ rand(8, dtype=float64)
    (A,) = K._input_covariances.values()
    flat = X.reshape(-1, 3)
    assert allclose(A, flat.T @ flat / flat.shape[0]), shared
'''
