PROPERTY = "C15"
NEEDS = "loading a state into an existing inverse that was created with another min_damping, with heuristic damping and no cached inverses"
BREAKS = "load_state_dict keeps the receiving operator's min_damping"
EDITS = [("inverse.py", '''        self._min_damping = state_dict["min_damping"]
''', '')]
DEMO = '''
from torch import allclose, float64, manual_seed, rand
from torch.nn import Linear, MSELoss
from curvlinops import KFACInverseLinearOperator, KFACLinearOperator

manual_seed(0)
net = Linear(3, 2).to(float64)
params = list(net.parameters())
data = [(rand(6, 3, dtype=float64), rand(6, 2, dtype=float64))]
make = lambda: KFACLinearOperator(net, MSELoss(), params, data, fisher_type="empirical")
old = KFACInverseLinearOperator(make(), damping=1e-2, use_heuristic_damping=True, min_damping=0.7)
new = KFACInverseLinearOperator(make(), damping=1.0)
state = old.state_dict()
new.load_state_dict(state)
v = rand(old.shape[1], dtype=float64)
assert allclose(old @ v, new @ v)
assert new.state_dict()["min_damping"] == 0.7
'''
