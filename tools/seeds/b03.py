PROPERTY = "C03"
NEEDS = "block sizes whose order matters, i.e. not in increasing order"
BREAKS = "block-diagonal Hessians group the wrong parameters"
EDITS = [("_torch_base.py", "        self._block_sizes = [len(params)] if block_sizes is None else block_sizes\n",
          "        self._block_sizes = (\n            [len(params)] if block_sizes is None else sorted(block_sizes)\n        )\n")]
DEMO = '''
from torch import allclose, float64, manual_seed, rand, eye
from torch.nn import Linear, MSELoss, Sequential, Tanh
from curvlinops import HessianLinearOperator

manual_seed(0)
model = Sequential(Linear(3, 2), Tanh(), Linear(2, 1)).to(float64)
params = list(model.parameters())[:3]
data = [(rand(5, 3, dtype=float64), rand(5, 1, dtype=float64))]
full = HessianLinearOperator(model, MSELoss(), params, data)
block = HessianLinearOperator(model, MSELoss(), params, data, block_sizes=[2, 1])
H = full @ eye(full.shape[0], dtype=float64)
ref = H.clone()
ref[:8, 8:] = 0
ref[8:, :8] = 0
assert allclose(block @ eye(full.shape[0], dtype=float64), ref)
'''
