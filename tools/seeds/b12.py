PROPERTY = "C17"
NEEDS = "a re-definition of the submatrix whose rows are valid and whose columns are rejected, followed by a product"
BREAKS = "a rejected re-definition replaces the row indices"
EDITS = [("submatrix.py", '''                raise ValueError("Index lists contain out-of-bounds indices.")
            shape.append(len(idxs))
''', '''                raise ValueError("Index lists contain out-of-bounds indices.")
            shape.append(len(idxs))
            if ax_idx == 0:
                self._row_idxs = idxs
''')]
DEMO = '''
import numpy
from scipy.sparse.linalg import aslinearoperator
from curvlinops import SubmatrixLinearOperator

numpy.random.seed(0)
M = numpy.random.rand(6, 5)
S = SubmatrixLinearOperator(aslinearoperator(M), [4, 1], [0, 3])
for rows, cols in [([0, 9], [1]), ([3, 2], [1, 7])]:
    try:
        S.set_submatrix(rows, cols)
    except ValueError:
        pass
    else:
        raise AssertionError("accepted")
    assert S.shape == (2, 2)
    assert numpy.allclose(S @ numpy.eye(2), M[[4, 1], :][:, [0, 3]])
'''
