"""Small networks and helpers for checks that compare torch-based agents with a reference computation."""
import copy

import numpy as np
import torch
import torch.nn as nn


class QNet(nn.Module):
    """One hidden layer; all outputs, or the output of the given action."""
    def __init__(self, input_shape, output_shape, n_features=4, **kw):
        super().__init__()
        self.h = nn.Linear(int(np.prod(input_shape)), n_features)
        self.o = nn.Linear(n_features, output_shape[0])

    def forward(self, state, action=None):
        q = self.o(torch.tanh(self.h(state.float())))
        if action is None:
            return q
        return q.gather(1, action.long()).squeeze(1)


class FeatNet(nn.Module):
    def __init__(self, input_shape, output_shape, n_features=4, **kw):
        super().__init__()
        self.h = nn.Linear(int(np.prod(input_shape)), n_features)

    def forward(self, state, action=None):
        return torch.tanh(self.h(state.float()))


def params(net, skip=None):
    return {n: p.detach().clone() for n, p in net.named_parameters() if not (skip and skip in n)}


def randomize(net, seed, scale=.7):
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.randn(p.shape, generator=g) * scale)


def sgd_step(net, loss, lr, skip=None):
    """Parameters after one plain gradient step of the loss, computed on a copy made by the caller."""
    names = [(n, p) for n, p in net.named_parameters()]
    grads = torch.autograd.grad(loss, [p for _, p in names], allow_unused=True)
    out = {}
    for (n, p), g in zip(names, grads):
        if skip and skip in n:
            continue
        out[n] = p.detach() - (lr * g if g is not None else 0.)
    return out


def same_params(a, b, rtol=1e-4, atol=2e-5):
    assert set(a) == set(b), (sorted(a), sorted(b))
    for n in a:
        if not torch.allclose(a[n].double(), b[n].double(), rtol=rtol, atol=atol):
            return False
    return True


def clone(net):
    return copy.deepcopy(net)
