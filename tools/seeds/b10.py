PROPERTY = "C21"
NEEDS = "a cached spectrum that is evaluated with fewer repeats than in an earlier call"
BREAKS = "the cached plain spectrum with fewer repeats is the sum over fewer runs divided by the number of all cached runs"
EDITS = [("papyan2020traces/spectrum.py", '''                lanczos_iter, self._boundaries, num_points, kappa, margin
            )
            for lanczos_iter in self._get_lanczos_iters(num_repeats)
        ]
        grid = spectra[0][0]
        spectrum = sum(spectrum[1] for spectrum in spectra) / num_repeats
''', '''                lanczos_iter, self._boundaries, num_points, kappa, margin
            )
            for lanczos_iter in self._get_lanczos_iters(num_repeats)
        ]
        grid = spectra[0][0]
        spectrum = sum(spectrum[1] for spectrum in spectra) / len(self._lanczos_iters)
''')]
DEMO = '''
import numpy
from scipy.sparse.linalg import aslinearoperator
from curvlinops import LanczosApproximateSpectrumCached

numpy.random.seed(0)
M = numpy.random.rand(12, 12)
A = aslinearoperator(M + M.T)
spec = LanczosApproximateSpectrumCached(A, 6, boundaries=(-3.0, 14.0))
_, one = spec.approximate_spectrum(num_repeats=1, num_points=64)
_, three = spec.approximate_spectrum(num_repeats=3, num_points=64)
_, one_again = spec.approximate_spectrum(num_repeats=1, num_points=64)
_, three_again = spec.approximate_spectrum(num_repeats=3, num_points=64)
assert numpy.allclose(one, one_again)
assert numpy.allclose(three, three_again)
'''
