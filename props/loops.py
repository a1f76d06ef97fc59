"""Recording environment and agent stubs for the training and evaluation loops.
Everything an environment may decide (rewards, done, needs_reset, failures) is symbolic."""
import contextlib

import numpy as np

from .common import *


class Boom(Exception):
    pass


class RecEnv:
    """Single environment; logs its calls; observations are unique tokens."""

    observation_space = None
    action_space = None
    spec = None

    def __init__(self, S, name, log, symbolic_reward=True, flags=("done", "reset"), fail=None, obs_base=0):
        self.S, self.name, self.log = S, name, log
        self.k = 0
        self.n_obs = obs_base
        self.symbolic_reward = symbolic_reward
        self.flags = flags
        self.fail = fail or (lambda where: None)

    def _obs(self):
        self.n_obs += 1
        return (self.name, self.n_obs)

    def reset(self):
        self.fail(self.name + ".reset")
        o = self._obs()
        self.log.append((self.name + ".reset", o))
        return o

    def step(self, action):
        self.fail(self.name + ".step")
        S, k = self.S, self.k
        self.k += 1
        r = S.real("%s_r%d" % (self.name, k), -3, 3) if self.symbolic_reward else float(k + 1)
        done = S.flag("%s_done%d" % (self.name, k)) if "done" in self.flags else False
        need = S.flag("%s_reset%d" % (self.name, k)) if "reset" in self.flags else False
        info = {"needs_reset": True} if need else {}
        o = self._obs()
        self.log.append((self.name + ".step", action, o, r, done, need))
        return o, r, done, info

    def close(self):
        self.log.append((self.name + ".close",))

    def seed(self, s=None):
        pass


class RecAgent:
    """Agent stub: unique action tokens, logs act/observe/save with its mode."""

    def __init__(self, log, fail=None, with_t=False):
        self.log = log
        self.training = True
        self.n = 0
        self.fail = fail or (lambda where: None)
        self.stats = [("s", 0.5)]
        if with_t:
            self.t = 0

    def act(self, obs):
        self.fail("agent.act")
        self.n += 1
        a = ("a", self.n)
        self.log.append(("act", obs, a, self.training))
        return a

    def observe(self, obs, reward, done, reset):
        self.fail("agent.observe")
        self.log.append(("observe", obs, reward, done, reset, self.training))

    def batch_act(self, obss):
        self.fail("agent.act")
        self.n += 1
        acts = [("a", self.n, i) for i in range(len(obss))]
        self.log.append(("batch_act", list(obss), acts, self.training))
        return acts

    def batch_observe(self, obss, rs, dones, resets):
        self.fail("agent.observe")
        self.log.append(("batch_observe", list(obss), list(rs), list(dones), list(resets), self.training))

    def get_statistics(self):
        return list(self.stats)

    def save(self, dirname):
        self.log.append(("save", dirname, self.n, self.training))

    def load(self, dirname):
        pass

    @contextlib.contextmanager
    def eval_mode(self):
        orig = self.training
        try:
            self.training = False
            yield
        finally:
            self.training = orig


class RecVectorEnv:
    """Vector environment of n independent recorded streams."""

    def __init__(self, S, name, n, log, symbolic_reward=True, flags=("done", "reset"), fail=None):
        self.S, self.name, self.num_envs, self.log = S, name, n, log
        self.k = 0
        self.symbolic_reward = symbolic_reward
        self.flags = flags
        self.cur = [None] * n
        self.cnt = 0
        self.fail = fail or (lambda where: None)

    def _new(self, i):
        self.cnt += 1
        self.cur[i] = (self.name, i, self.cnt)

    def reset(self, mask=None):
        self.fail(self.name + ".reset")
        if mask is None:
            mask = [False] * self.num_envs
        mask = [bool(m) for m in mask]
        for i in range(self.num_envs):
            if not mask[i]:
                self._new(i)
        self.log.append((self.name + ".reset", mask, list(self.cur)))
        return list(self.cur)

    def step(self, actions):
        self.fail(self.name + ".step")
        S, k = self.S, self.k
        self.k += 1
        rs, dones, needs = [], [], []
        for i in range(self.num_envs):
            rs.append(S.real("%s_r%d_%d" % (self.name, k, i), -3, 3) if self.symbolic_reward else float(k + 1))
            dones.append(S.flag("%s_done%d_%d" % (self.name, k, i)) if "done" in self.flags else False)
            needs.append(S.flag("%s_reset%d_%d" % (self.name, k, i)) if "reset" in self.flags else False)
            self._new(i)
        self.log.append((self.name + ".step", list(actions), list(self.cur), list(rs), list(dones), list(needs)))
        rr = senv.obj_array(rs) if S.symbolic and self.symbolic_reward else np.array(rs)
        return list(self.cur), tuple(rr), tuple(dones), tuple({"needs_reset": True} if x else {} for x in needs)

    def close(self):
        self.log.append((self.name + ".close",))

    def seed(self, s=None):
        pass


def stream(log, *kinds):
    return [e for e in log if e[0] in kinds]
