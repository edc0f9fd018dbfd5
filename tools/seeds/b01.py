PROPERTY = "C01"
NEEDS = "a flat vector multiplied onto an operator with a single row (e.g. one scalar parameter)"
BREAKS = "the result of a vector product with a 1-row operator loses its dimension (shape [] instead of [1])"
EDITS = [("_torch_base.py", "AX_processed = AX_processed.squeeze(-1) if is_vec else AX_processed",
          "AX_processed = AX_processed.squeeze() if is_vec else AX_processed")]
DEMO = '''
import torch
from torch import manual_seed, rand, tensor
from torch.nn import MSELoss, Parameter
from curvlinops import HessianLinearOperator

manual_seed(0)
w = Parameter(tensor(0.7))
H = HessianLinearOperator(lambda X: w**3 * X, MSELoss(), [w], [(rand(4, 1), rand(4, 1))])
assert H.shape == (1, 1)
v = tensor([2.0])
Hv = H @ v
assert Hv.shape == (1,), Hv.shape
assert torch.allclose(Hv, (H @ v.unsqueeze(1)).squeeze(1))
'''
