PROPERTY = "C20"
NEEDS = "an operator whose trace in the subspace is exactly zero, and at least two samples"
BREAKS = "the subspace is drawn again for every sample if the subspace trace is zero"
EDITS = [("trace/meyer2020hutch.py", "        if self._Q is not None and self._tr_QT_A_Q is not None:\n",
          "        if self._Q is not None and self._tr_QT_A_Q:\n")]
DEMO = '''
import numpy
from scipy.sparse.linalg import LinearOperator
from curvlinops import HutchPPTraceEstimator


class Op(LinearOperator):
    def __init__(self, mat):
        super().__init__(mat.dtype, mat.shape)
        self.mat, self.count = mat, 0

    def _matvec(self, x):
        self.count += 1
        return self.mat @ x


numpy.random.seed(0)
for mat in [numpy.random.rand(6, 6), numpy.kron(numpy.eye(3), numpy.array([[0.0, 1.0], [-1.0, 0.0]]))]:
    A = Op(mat)
    est = HutchPPTraceEstimator(A, basis_dim=1)
    est.sample()
    before = A.count
    Q = est._Q.copy()
    est.sample()
    assert A.count == before + 1, "one product per further sample"
    assert numpy.array_equal(Q, est._Q)
'''
