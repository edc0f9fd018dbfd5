PROPERTY = "C18"
NEEDS = "a diverging Neumann series with NaN check and many terms"
BREAKS = "NaNs are only reported after all terms have been computed"
EDITS = [("inverse.py", '''            v = v - self._scale * (self._A @ v)
            result = result + v

            if self._check_nan and not allclose(result, result):
''', '''            v = v - self._scale * (self._A @ v)
            result = result + v
            last = idx == self._num_terms - 1

            if last and self._check_nan and not allclose(result, result):
''')]
DEMO = '''
import numpy
from scipy.sparse.linalg import LinearOperator
from curvlinops import NeumannInverseLinearOperator


class Op(LinearOperator):
    def __init__(self, nan_at):
        super().__init__(float, (3, 3))
        self.count, self.nan_at = 0, nan_at

    def _matvec(self, x):
        self.count += 1
        return 0.5 * x.ravel() if self.count < self.nan_at else numpy.nan * x.ravel()


A = Op(4)
inv = NeumannInverseLinearOperator(A, num_terms=50)
try:
    inv @ numpy.ones(3)
except ValueError:
    pass
else:
    raise AssertionError("no error")
assert A.count == 4, A.count
A = Op(1000)
res = NeumannInverseLinearOperator(A, num_terms=50) @ numpy.ones(3)
assert A.count == 50 and numpy.allclose(res, 2.0)
'''
