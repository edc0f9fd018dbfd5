PROPERTY = "C13"
NEEDS = "joint treatment and a layer whose Kronecker factor's determinant is outside of the floating point range"
BREAKS = "the log determinant is infinite although it is representable"
EDITS = [("kfac.py", "                logdet_aaT = self._input_covariances[mod_name].logdet()\n",
          "                logdet_aaT = self._input_covariances[mod_name].det().log()\n")]
DEMO = '''
from torch import allclose, float64, manual_seed, rand
from torch.nn import Linear, MSELoss
from curvlinops import KFACLinearOperator

manual_seed(0)
net = Linear(40, 2).to(float64)
data = [(1e-7 * rand(400, 40, dtype=float64), rand(400, 2, dtype=float64))]
K = KFACLinearOperator(net, MSELoss(), list(net.parameters()), data,
                       fisher_type="empirical", separate_weight_and_bias=False)
value = K.logdet
(A,), (B,) = K._input_covariances.values(), K._gradient_covariances.values()
ref = 2 * A.slogdet()[1] + 41 * B.slogdet()[1]
assert ref.isfinite()
assert allclose(value, ref), (value, ref)
'''
