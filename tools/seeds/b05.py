PROPERTY = "C10"
NEEDS = "dict-like inputs that contain integer tensors which change between passes without affecting model, loss or gradient"
BREAKS = "determinism check accepts non-deterministic integer entries of dict-like data for fixed-order operators"
EDITS = [("_torch_base.py", '''                if isinstance(v1, Tensor) and not allclose_report(
                    v1, v2, rtol=rtol, atol=atol
                ):
                    raise''', '''                if (
                    isinstance(v1, Tensor)
                    and v1.is_floating_point()
                    and not allclose_report(v1, v2, rtol=rtol, atol=atol)
                ):
                    raise''')]
DEMO = '''
from torch import manual_seed, rand, tensor
from torch.nn import Linear, Module
from curvlinops import JacobianLinearOperator


class Net(Module):
    def __init__(self):
        super().__init__()
        self.lin = Linear(3, 2)

    def forward(self, X):
        return self.lin(X["x"])


class Data:
    def __init__(self, entry, fixed):
        self.x, self.y = rand(4, 3), rand(4, 2)
        self.entry, self.fixed, self.count = entry, fixed, 0

    def __iter__(self):
        self.count += 1
        shift = 0 if self.fixed else self.count
        yield {"x": self.x, "ids": self.entry + shift}, self.y


manual_seed(0)
net = Net()
for entry in [tensor([0.0, 1.0, 2.0, 3.0]), tensor([0, 1, 2, 3])]:
    for fixed in [True, False]:
        try:
            JacobianLinearOperator(net, list(net.parameters()), Data(entry, fixed),
                                   batch_size_fn=lambda X: X["x"].shape[0])
            rejected = False
        except RuntimeError:
            rejected = True
        assert rejected == (not fixed), (entry.dtype, fixed)
'''
