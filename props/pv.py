"""Tabular policy/value models with arbitrary (symbolic) log-probabilities, entropies and values
per state, and a driver that feeds agents arbitrary histories."""
from torch import nn

from .common import *
from . import tab
import pfrl


class Dist:
    """Action distribution of a batch of states: the sampled action is the state's id."""

    def __init__(self, S, ids, lp, ent):
        self.S, self.ids, self.lp, self.ent = S, ids, lp, ent

    def sample(self):
        return torch.tensor([float(i) for i in self.ids])

    def log_prob(self, a):
        self.S.check([int(x) for x in elems(a)] == self.ids, "actions are paired with the states they were taken in")
        return self.lp

    def entropy(self):
        return self.ent


class Norm(nn.Module):
    """Observation normalizer stand-in: shifts observations by OFF and records what it learns."""

    OFF = 64

    def __init__(self, S):
        super().__init__()
        self.S, self.learned = S, []

    def experience(self, x):
        self.learned.append(sorted(tab.index(x)))

    def forward(self, x, update=True):
        if update:
            self.experience(x)
        self.S.check(all(i < self.OFF for i in tab.index(x)), "observations are normalized once")
        return x + float(self.OFF)


class PV(nn.Module):
    """x -> (distribution, value)"""

    offset = 0

    def ids(self, x):
        ids = [i - self.offset for i in tab.index(x)]
        self.S.check(all(i >= 0 for i in ids), "every observation given to the model is normalized")
        return ids

    def __init__(self, S, n, lo=-3, hi=3, value=True):
        super().__init__()
        self.S, self.value = S, value
        self.v, self.vv = tab.param(S, "v", (n, 1), lo, hi)
        self.lp, self.lpv = tab.param(S, "lp", (n,), lo, 0)
        self.ent, self.entv = tab.param(S, "ent", (n,), 0, hi)

    def dist(self, ids):
        return Dist(self.S, ids, self.lp[ids], self.ent[ids])

    def forward(self, x):
        ids = self.ids(x)
        d = self.dist(ids)
        return (d, self.v[ids]) if self.value else d


def hnext(h, i):
    return 3 * h + i + 1


class PVRec(pfrl.nn.Recurrent, PV):
    """value = table[id] + h, log-probability = table[id] + h/8, where h encodes the history of ids."""

    def forward(self, x, state):
        ids = self.ids(x.data)
        bs = [int(b) for b in x.batch_sizes]
        order = list(range(bs[0]))
        if state is None:
            h = [0] * bs[0]
        else:
            assert tuple(state.shape) == (1, bs[0], 1)
            h = [int(v) for v in elems(state)]
            if x.sorted_indices is not None:
                h = [h[int(j)] for j in elems(x.sorted_indices)]
        hs, k = [], 0
        self.seen = getattr(self, "seen", []) + [list(h)]
        for b in bs:
            for j in range(b):
                hs.append(h[j])
                h[j] = hnext(h[j], ids[k + j])
            k += b
        if x.unsorted_indices is not None:
            h = [h[int(j)] for j in elems(x.unsorted_indices)]
        ht = torch.tensor([float(v) for v in hs])
        new = torch.tensor([float(v) for v in h]).reshape(1, -1, 1)
        d = Dist(self.S, ids, self.lp[ids] + ht / 8, self.ent[ids])
        v = torch.nn.utils.rnn.PackedSequence(self.v[ids] + ht[:, None], x.batch_sizes, x.sorted_indices, x.unsorted_indices)
        return ((d, v), new) if self.value else (d, new)


class Driver:
    """Feeds a (batch) agent arbitrary histories; every observation has its own id."""

    evals = 0  # number of evaluation phases that may be inserted before steps

    def __init__(self, S, agent, envs, batch=True, rlo=-3, rhi=3, ends="choice", phi_shape=(1,)):
        self.S, self.agent, self.n, self.batch = S, agent, envs, batch
        self.next_id = 0
        self.ids = [self.fresh() for _ in range(envs)]
        self.hist = [[] for _ in range(envs)]  # current episode piece per env
        self.done_eps = []
        self.h = [0] * envs
        self.t = 0
        self.ends = ends

    def fresh(self):
        i = self.next_id
        self.next_id += 1
        return i

    def ob(self, i):
        return np.array([i], dtype=np.float32)

    def evaluate(self):
        """An evaluation phase of two steps on state 0."""
        self.evals -= 1
        self.S.cover("evaluation between steps")
        with self.agent.eval_mode():
            th = 0
            for e in range(2):
                m = getattr(self.agent, "model", None)
                k = len(getattr(m, "seen", []))
                end = e == 0 and self.S.flag("evend%d" % self.t)
                if self.batch:
                    self.agent.batch_act([self.ob(0)] * self.n)
                    self.agent.batch_observe([self.ob(0)] * self.n, [1.0] * self.n, [end] * self.n, [False] * self.n)
                else:
                    self.agent.act(self.ob(0))
                    self.agent.observe(self.ob(0), 1.0, end, False)
                if isinstance(m, PVRec):
                    self.S.check(m.seen[k:] and all(h == th for hs in m.seen[k:] for h in hs), "evaluation has its own recurrent state, fresh at each episode's start")
                    th = 0 if end else hnext(th, 0)

    def step(self, force=None):
        S = self.S
        if self.evals and S.flag("ev%d" % self.t):
            self.evaluate()
        obs = [self.ob(i) for i in self.ids]
        acts = self.agent.batch_act(obs) if self.batch else [self.agent.act(obs[0])]
        S.check([int(a) for a in acts] == self.ids, "the agent acts by its policy")
        rs, ds, zs, nx = [], [], [], []
        for e in range(self.n):
            r = S.real("r%d_%d" % (self.t, e), -3, 3)
            out = force[e] if force is not None else S.choice("end%d_%d" % (self.t, e), 3)
            n = self.fresh()
            self.hist[e].append(dict(s=self.ids[e], r=r, n=n, done=out == 1, h=self.h[e]))
            self.h[e] = hnext(self.h[e], self.ids[e])
            self.hist[e][-1]["hn"] = self.h[e]
            rs.append(r)
            ds.append(out == 1)
            zs.append(out == 2)
            nx.append(n)
        self.last = [h[-1] for h in self.hist]
        self.outs = [1 if d else 2 if z else 0 for d, z in zip(ds, zs)]
        if self.batch:
            self.agent.batch_observe([self.ob(i) for i in nx], rs, ds, zs)
        else:
            self.agent.observe(self.ob(nx[0]), rs[0], ds[0], zs[0])
        for e in range(self.n):
            if self.outs[e]:
                self.done_eps.append((e, self.hist[e]))
                self.hist[e] = []
                self.h[e] = 0
                self.ids[e] = self.fresh()
                S.cover("terminal" if self.outs[e] == 1 else "reset")
            else:
                self.ids[e] = nx[e]
                S.cover("continues")
        self.t += 1

    def flush(self):
        """episodes (pieces) since the last flush"""
        eps = [ep for _, ep in self.done_eps]
        for e in range(self.n):
            if self.hist[e]:
                eps.append(self.hist[e])
                self.hist[e] = []
        self.done_eps = []
        return eps
