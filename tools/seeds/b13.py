PROPERTY = "C06"
NEEDS = "cross-entropy loss with at most as many Monte-Carlo samples as classes but more than one"
BREAKS = "labels are drawn without replacement, hence the sampled labels are not drawn from the predictive distribution"
EDITS = [("fisher.py", "                num_samples=num_samples, replacement=True, generator=self._generator\n",
          "                num_samples=num_samples,\n                replacement=num_samples > C,\n                generator=self._generator,\n")]
DEMO = '''
from torch import float64, manual_seed, rand, randint, zeros
from torch.nn import CrossEntropyLoss, Linear
from curvlinops import FisherMCLinearOperator

manual_seed(0)
N, C = 400, 3
net = Linear(2, C).to(float64)
X, y = rand(N, 2, dtype=float64), randint(0, C, (N,))
F = FisherMCLinearOperator(net, CrossEntropyLoss(), list(net.parameters()), [(X, y)],
                           mc_samples=C)
F @ rand(F.shape[1], dtype=float64)  # seed the generator
g = F.sample_grad_output(net(X).detach(), C, y)
prob = net(X).softmax(1)
labels = (prob.unsqueeze(0) - g).argmax(-1)  # [C, N]
same = (labels[0] == labels[1]).double().mean()
# independent labels coincide with probability sum_c p_c^2
assert abs(same - (prob**2).sum(1).mean()) < 0.1, same
'''
