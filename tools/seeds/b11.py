PROPERTY = "C26"
NEEDS = "a convolution with different dilations along its two axes"
BREAKS = "averaged patches use the dilation of the other spatial axis"
EDITS = [("kfac_utils.py", '''        (padding, padding) if isinstance(padding, str) else _pair(padding),
        _pair(dilation),
    ):
        pi''', '''        (padding, padding) if isinstance(padding, str) else _pair(padding),
        reversed(_pair(dilation)),
    ):
        pi''')]
DEMO = '''
from torch import allclose, float64, manual_seed, rand
from curvlinops.kfac_utils import extract_averaged_patches, extract_patches

manual_seed(0)
x = rand(2, 4, 9, 8, dtype=float64)
for dilation in [1, (2, 2), (2, 1), (1, 3)]:
    args = (x, (2, 3), (1, 2), (1, 0), dilation, 2)
    assert allclose(extract_patches(*args).mean(1), extract_averaged_patches(*args)), dilation
'''
