PROPERTY = "C19"
NEEDS = "a single sample (or few) with normally distributed vectors; averages over many samples stay close"
BREAKS = "entries of normal vectors are rescaled to a fixed norm, hence not independent"
EDITS = [("sampling.py", "    return randn(dim)\n",
          "    v = randn(dim)\n    # reduce the variance of the vector's length\n    return v * (dim / (v @ v)) ** 0.5\n")]
DEMO = '''
import numpy
from curvlinops.sampling import random_vector

# products of independent entries: E[v_i^2 v_j^2] = 1, Var[v_i^2] = 2
numpy.random.seed(0)
dim, num = 3, 20000
V = numpy.stack([random_vector(dim, "normal") for _ in range(num)])
assert V.shape == (num, dim)
fourth = (V**4).mean()
assert abs(fourth - 3) < 0.2, fourth
assert abs((V[:, 0] ** 2 * V[:, 1] ** 2).mean() - 1) < 0.1
assert numpy.linalg.norm(V, axis=1).std() > 0.3
'''
