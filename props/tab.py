"""Tabular networks with arbitrary (symbolic) outputs, and an optimizer that only records
gradients.  A table indexed by state id can represent any outputs on the finitely many
states of a batch, so quantifying over its entries quantifies over all networks' outputs;
its gradient is the gradient with respect to those outputs."""
import torch
from torch import nn

from .common import *


def plain_ctx():
    return symtorch.plain()


def param(S, name, shape, lo=None, hi=None):
    """Parameter with symbolic entries; returns (parameter, nested list of entries)."""
    t, flat = real_tensor(S, name, shape, lo, hi)
    return nn.Parameter(t), flat


def index(x):
    """State ids (concrete) of an observation batch."""
    return [int(v) for v in elems(x)]


class Table(nn.Module):
    """forward(x): rows of the table, one per state id in x."""

    def __init__(self, S, name, n, *shape, lo=None, hi=None, head=None):
        super().__init__()
        self.S, self.name, self.shape = S, name, (n,) + shape
        self.w, self.v = param(S, name, self.shape, lo, hi)
        self.head = head

    def row(self, i):
        k = int(np.prod(self.shape[1:], dtype=int))
        return self.v[i * k : (i + 1) * k]

    def forward(self, x):
        y = self.w[index(x)]
        return self.head(y) if self.head is not None else y


class RecTable(Table):
    """Recurrent table: output = table[x] + h, and h is increased by x's second table; h is (1, batch, 1)."""

    def forward(self, x, state):
        data, bs = x.data, [int(b) for b in x.batch_sizes]
        B = bs[0]
        idx = index(data)
        outs, k = [], 0
        for b in bs:
            y = self.w[idx[k : k + b]]
            if state is not None:
                y = y + state[0, :b]
            outs.append(y)
            k += b
        y = torch.cat(outs)
        y = torch.nn.utils.rnn.PackedSequence(y, x.batch_sizes, x.sorted_indices, x.unsorted_indices)
        return (self.head(y) if self.head is not None else y), state


class CapOpt:
    """Records the gradients present at step() and leaves the parameters alone."""

    def __init__(self, module_or_params, log=None, name=""):
        self.params = list(module_or_params.parameters()) if isinstance(module_or_params, nn.Module) else list(module_or_params)
        self.param_groups = [{"params": self.params, "lr": 1.0}]
        self.steps = []
        self.log, self.name = log, name

    def zero_grad(self, set_to_none=True):
        for p in self.params:
            p.grad = None

    def step(self, closure=None):
        self.steps.append([None if p.grad is None else elems(p.grad) for p in self.params])
        if self.log is not None:
            self.log.append((self.name, "step"))

    def state_dict(self):
        return {}

    def load_state_dict(self, d):
        pass


def huber(S, d):
    """forks on the case, which keeps the solver's problems small"""
    if S.lt(d, -1):
        return -d - 0.5
    if S.lt(1, d):
        return d - 0.5
    return d * d / 2


def clip1(S, d):
    if S.lt(d, -1):
        return -1.0
    if S.lt(1, d):
        return 1.0
    return d
