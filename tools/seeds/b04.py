PROPERTY = "C08"
NEEDS = "the adjoint product of a SciPy export of a square operator that is not self-adjoint"
BREAKS = "SciPy export of a square Jacobian multiplies with the Jacobian instead of its adjoint"
EDITS = [("_torch_base.py", "        A_adjoint = self.adjoint()\n",
          "        # operators on a single space are symmetric\n        A_adjoint = self if self.shape[0] == self.shape[1] else self.adjoint()\n")]
DEMO = '''
import numpy
from torch import float64, manual_seed, rand
from torch.nn import Linear
from curvlinops import JacobianLinearOperator

manual_seed(0)
model = Linear(3, 2).to(float64)
data = [(rand(2, 3, dtype=float64), rand(2, 2)), (rand(2, 3, dtype=float64), rand(2, 2))]
J = JacobianLinearOperator(model, list(model.parameters()), data)
assert J.shape == (8, 8)
S = J.to_scipy()
mat = S @ numpy.eye(8)
adj = S.adjoint() @ numpy.eye(8)
assert numpy.allclose(adj, mat.T)
'''
