"""Builders of tiny real agents used by several harnesses."""
import numpy as np
import torch
from torch import nn

import pfrl
from pfrl import agents, explorers, policies, q_functions, replay_buffers
from pfrl.action_value import DiscreteActionValue


class VersionedOptimizer:
    """Stand-in optimizer: step() counts and changes every parameter of its module
    to a fresh value, so that copies of the parameters can be identified."""

    def __init__(self, module, log=None, name=""):
        self.module = module
        self.params = list(module.parameters())
        self.param_groups = [{"params": self.params, "lr": 1.0}]
        self.n = 0
        self.log = log
        self.name = name
        with torch.no_grad():
            for p in self.params:
                p.fill_(0.0)

    def zero_grad(self, set_to_none=True):
        for p in self.params:
            p.grad = None

    def step(self, closure=None):
        self.n += 1
        if self.log is not None:
            self.log.append(self.name)
        with torch.no_grad():
            for p in self.params:
                p.fill_(float(self.n))

    def state_dict(self):
        return {"n": self.n}

    def load_state_dict(self, d):
        self.n = d["n"]


def version(module):
    """Value of the first entry of the first parameter."""
    return float(next(module.parameters()).detach().reshape(-1)[0])


class FixedExplorer(pfrl.explorer.Explorer):
    def select_action(self, t, greedy_action_func, action_value=None):
        return greedy_action_func()


def q_net(n_obs=1, n_actions=2):
    return nn.Sequential(nn.Linear(n_obs, n_actions), q_functions.DiscreteActionValueHead())


def rec_q_net(n_obs=1, n_actions=2):
    return pfrl.nn.RecurrentSequential(nn.RNN(n_obs, 1), nn.Linear(1, n_actions), q_functions.DiscreteActionValueHead())


def sa_q(n_obs=1, n_act=1):
    return nn.Sequential(pfrl.nn.ConcatObsAndAction(), nn.Linear(n_obs + n_act, 1))


def det_policy(n_obs=1, n_act=1):
    return nn.Sequential(nn.Linear(n_obs, n_act), policies.DeterministicHead())


class _GaussHead(nn.Module):
    def forward(self, x):
        return torch.distributions.Independent(torch.distributions.Normal(x, torch.ones_like(x)), 1)


def gauss_policy(n_obs=1, n_act=1):
    return nn.Sequential(nn.Linear(n_obs, n_act), _GaussHead())


DQNS = {
    "DQN": agents.DQN, "DoubleDQN": agents.DoubleDQN, "AL": agents.AL, "PAL": agents.PAL,
    "DoublePAL": agents.DoublePAL, "DPP": agents.DPP,
}


def phi(x):
    return np.asarray(x, dtype=np.float32)


def make_dqn(cls, rbuf, opt=None, model=None, explorer=None, **kw):
    model = model or q_net()
    opt = opt or VersionedOptimizer
    o = opt(model)
    a = DQNS.get(cls, cls)(model, o, rbuf, explorer=explorer or FixedExplorer(), phi=kw.pop("phi", phi), **kw)
    return a, dict(model=model, optimizer=o)


def make_ddpg(rbuf, explorer=None, log=None, **kw):
    p, q = det_policy(), sa_q()
    po, qo = VersionedOptimizer(p, log, "policy"), VersionedOptimizer(q, log, "q")
    a = agents.DDPG(p, q, po, qo, rbuf, explorer=explorer or FixedExplorer(), phi=kw.pop("phi", phi), **kw)
    return a, dict(policy=p, q=q, po=po, qo=qo)


def make_td3(rbuf, explorer=None, log=None, **kw):
    p, q1, q2 = det_policy(), sa_q(), sa_q()
    po, o1, o2 = (VersionedOptimizer(m, log, n) for m, n in ((p, "policy"), (q1, "q1"), (q2, "q2")))
    a = agents.TD3(p, q1, q2, po, o1, o2, rbuf, explorer=explorer or FixedExplorer(), phi=kw.pop("phi", phi), **kw)
    return a, dict(policy=p, q1=q1, q2=q2, po=po, o1=o1, o2=o2)


def make_sac(rbuf, log=None, **kw):
    p, q1, q2 = gauss_policy(), sa_q(), sa_q()
    po, o1, o2 = (VersionedOptimizer(m, log, n) for m, n in ((p, "policy"), (q1, "q1"), (q2, "q2")))
    a = agents.SoftActorCritic(p, q1, q2, po, o1, o2, rbuf, phi=kw.pop("phi", phi), **kw)
    return a, dict(policy=p, q1=q1, q2=q2, po=po, o1=o1, o2=o2)
