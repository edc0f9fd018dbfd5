PROPERTY = "C02"
NEEDS = "a user-specified batch_size_fn that differs from the labels' leading dimension and mini-batches (mean reduction) of different sequence lengths"
BREAKS = "mini-batches are weighted with their number of labels instead of their size measured by batch_size_fn"
EDITS = [("_torch_base.py", '''        return {"sum": 1.0, "mean": self._batch_size_fn(X) / self._N_data}[
            self._loss_func.reduction
        ]''', '''        batch_size = y.shape[0]
        return {"sum": 1.0, "mean": batch_size / self._N_data}[
            self._loss_func.reduction
        ]''')]
DEMO = '''
from torch import allclose, float64, manual_seed, rand, eye, zeros
from torch.nn import Linear, MSELoss
from curvlinops import GGNLinearOperator

# sequences whose predictions are flattened over the tokens by the model
manual_seed(0)
net = Linear(3, 2).to(float64)
model = lambda X: net(X).flatten(end_dim=-2)
loss = MSELoss()
data = []
for n, length in [(2, 4), (5, 4), (1, 4)]:
    data.append((rand(n, length, 3, dtype=float64), rand(n * length, 2, dtype=float64)))
params = list(net.parameters())
kw = dict(batch_size_fn=lambda X: X.shape[0])
G = GGNLinearOperator(model, loss, params, data, **kw)
I = eye(G.shape[1], dtype=float64)
truth = zeros(*G.shape, dtype=float64)
for X, y in data:
    truth += X.shape[0] / 8 * (GGNLinearOperator(model, loss, params, [(X, y)], **kw) @ I)
single = GGNLinearOperator(model, loss, params, [(data[0][0], data[0][1])], **kw) @ I
# reference: MSE GGN of a linear layer, computed by hand for the first mini-batch
X0 = data[0][0].flatten(end_dim=-2)
ref = 2 / (X0.shape[0] * 2) * X0.T @ X0
assert allclose(single[:3, :3], ref)
assert allclose(G @ I, truth)
'''
