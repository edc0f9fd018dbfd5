PROPERTY = "C22"
NEEDS = "the exact values of the first Lanczos node; the deviation vanishes on average and in high dimensions"
BREAKS = "the Lanczos start vector only has unit norm in expectation"
EDITS = [("papyan2020traces/spectrum.py", "            v /= norm(v)\n", "            v /= sqrt(dim)\n")]
DEMO = '''
import numpy
from scipy.sparse.linalg import aslinearoperator
from curvlinops.papyan2020traces.spectrum import fast_lanczos

numpy.random.seed(0)
dim = 5
Q, _ = numpy.linalg.qr(numpy.random.rand(dim, dim))
A = aslinearoperator(Q @ numpy.diag([1.0, 1.1, 1.2, 1.3, 1.4]) @ Q.T)
for _ in range(10):
    evals, evecs = fast_lanczos(A, 2)
    T = evecs @ numpy.diag(evals) @ evecs.T
    # the first diagonal entry is a Rayleigh quotient
    assert 1.0 - 1e-9 <= T[0, 0] <= 1.4 + 1e-9, T[0, 0]
    assert evals.min() >= 1.0 - 1e-9 and evals.max() <= 1.4 + 1e-9
'''
