PROPERTY = "C24"
NEEDS = "a forward pass that raises after the context was entered"
BREAKS = "the hook stays on the model if the forward pass fails"
EDITS = [("experimental/activation_hessian.py", '''        for handle in self._hook_handles:
            handle.remove()
''', '''        if __exc_type is not None:
            return
        for handle in self._hook_handles:
            handle.remove()
''')]
DEMO = '''
from torch import manual_seed, rand
from torch.nn import Linear, Module, MSELoss
from curvlinops.experimental import ActivationHessianLinearOperator


class Net(Module):
    def __init__(self):
        super().__init__()
        self.lin = Linear(3, 2)
        self.fail = False

    def forward(self, X):
        out = self.lin(X)
        if self.fail:
            raise ArithmeticError("failing")
        return out


def hooks(net):
    return sum(len(m._forward_hooks) + len(m._forward_pre_hooks) for m in net.modules())


manual_seed(0)
net = Net()
H = ActivationHessianLinearOperator(net, MSELoss(), ("lin", "output", 0),
                                    [(rand(4, 3), rand(4, 2))])
v = rand(H.shape[1])
first = H @ v
assert hooks(net) == 0
net.fail = True
try:
    H @ v
except ArithmeticError:
    pass
else:
    raise AssertionError("exception lost")
assert hooks(net) == 0
net.fail = False
assert (H @ v - first).abs().max() == 0
'''
