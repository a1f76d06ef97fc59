"""P28: saving and loading agents."""
import copy

from torch import nn

from .common import *
from . import tab
import pfrl
from pfrl.agent import AttributeSavingMixin


def clone(x):
    if isinstance(x, torch.Tensor):
        return x.detach().clone()
    if isinstance(x, dict):
        return type(x)((k, clone(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return type(x)(clone(v) for v in x)
    return x


class FS:
    """torch.save/torch.load on an in-memory file system that stores values (symbolic ones too)."""

    def __init__(self, S, P):
        self.S, self.files = S, {}
        P.set(torch, "save", self.save)
        P.set(torch, "load", self.load)

    def save(self, obj, f, *a, **k):
        d = os.path.dirname(f)
        if not os.path.isdir(d):
            raise RuntimeError("Parent directory %s does not exist." % d)
        self.files[os.path.normpath(f)] = clone(obj)

    def load(self, f, *a, **k):
        f = os.path.normpath(f)
        if f not in self.files:
            raise FileNotFoundError(f)
        return clone(self.files[f])


class Fresh:
    def __init__(self, S):
        self.S, self.n = S, 0

    def __call__(self):
        self.n += 1
        return self.S.real("x%d" % self.n, -2, 2)

    def fill(self, t):
        with torch.no_grad():
            t.copy_(tensor(self.S, [self() for _ in range(t.numel())]).reshape(t.shape))


class Net(nn.Module):
    """Two entries of parameters and one of buffer."""

    def __init__(self, fresh):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(2))
        self.register_buffer("b", torch.zeros(1))
        fresh.fill(self.w)
        fresh.fill(self.b)


class Opt:
    """Optimizer stand-in with arbitrary state."""

    def __init__(self, fresh, module):
        self.param_groups = [dict(params=list(module.parameters()), lr=1.0)]
        self.st = fresh()

    def state_dict(self):
        return {"m": self.st}

    def load_state_dict(self, d):
        self.st = d["m"]

    def zero_grad(self, *a, **k):
        pass


def values(x):
    """Values of a component, by name."""
    if isinstance(x, Opt):
        return {"m": x.st}
    if isinstance(x, torch.optim.Optimizer):
        return {}
    if isinstance(x, (nn.DataParallel,)):
        x = x.module
    out = {}
    for k, v in x.state_dict().items():
        for i, e in enumerate(elems(v)):
            out["%s.%d" % (k, i)] = e
    return out


def make(S, fresh, kind, norm=True, temp=True):
    """An agent and its named components that carry learned state."""
    N = lambda: Net(fresh)
    O = lambda m: Opt(fresh, m)
    A = pfrl.agents
    from .p23 import Buf

    kw = dict(gamma=0.9)
    rb = dict(replay_start_size=10, minibatch_size=1)
    if kind in ("DQN", "DoubleDQN", "CategoricalDQN", "IQN"):
        m = N()
        a = getattr(A, kind)(m, O(m), Buf(), explorer=pfrl.explorers.Greedy(), target_update_interval=1000, **kw, **rb)
        fresh.fill(a.target_model.w)
        fresh.fill(a.target_model.b)
        comps = ["model", "target_model", "optimizer"]
    elif kind == "DDPG":
        p, q = N(), N()
        a = A.DDPG(p, q, O(p), O(q), Buf(), explorer=pfrl.explorers.Greedy(), **kw, **rb)
        for m in (a.target_policy, a.target_q_function):
            fresh.fill(m.w)
            fresh.fill(m.b)
        comps = ["policy", "q_function", "target_policy", "target_q_function", "actor_optimizer", "critic_optimizer"]
    elif kind in ("TD3", "SAC"):
        p, q, q2 = N(), N(), N()
        if kind == "TD3":
            a = A.TD3(p, q, q2, O(p), O(q), O(q2), Buf(), explorer=pfrl.explorers.Greedy(), **kw, **rb)
            fresh.fill(a.target_policy.w)
            fresh.fill(a.target_policy.b)
            comps = ["policy", "q_func1", "q_func2", "target_policy", "target_q_func1", "target_q_func2", "policy_optimizer", "q_func1_optimizer", "q_func2_optimizer"]
        else:
            a = A.SoftActorCritic(p, q, q2, O(p), O(q), O(q2), Buf(), entropy_target=-1.0 if temp else None, **kw, **rb)
            comps = ["policy", "q_func1", "q_func2", "target_q_func1", "target_q_func2", "policy_optimizer", "q_func1_optimizer", "q_func2_optimizer"]
            if temp:
                comps += ["temperature_holder", "temperature_optimizer"]
                fresh.fill(a.temperature_holder.log_temperature)
                a.temperature_optimizer = Opt(fresh, a.temperature_holder)
        for m in (a.target_q_func1, a.target_q_func2):
            fresh.fill(m.w)
            fresh.fill(m.b)
    elif kind == "PPO":
        m = N()
        a = A.PPO(m, O(m), obs_normalizer=N() if norm else None)
        comps = ["model", "optimizer"] + (["obs_normalizer"] if norm else [])
    elif kind == "TRPO":
        p, v = N(), N()
        a = A.TRPO(p, v, O(v), obs_normalizer=N() if norm else None)
        comps = ["policy", "vf", "vf_optimizer"] + (["obs_normalizer"] if norm else [])
    elif kind == "A2C":
        m = N()
        a = A.A2C(m, O(m), gamma=0.9, num_processes=1)
        comps = ["model", "optimizer"]
    elif kind == "REINFORCE":
        m = N()
        a = A.REINFORCE(m, O(m))
        comps = ["model", "optimizer"]
    elif kind in ("A3C", "ACER"):
        m = N()
        a = A.A3C(m, O(m), t_max=1, gamma=0.9) if kind == "A3C" else A.ACER(m, O(m), t_max=1, gamma=0.9, replay_buffer=None)
        comps = ["model", "optimizer", "shared_model"]
        with torch.no_grad():
            a.model.w.copy_(a.shared_model.w)
            a.model.b.copy_(a.shared_model.b)
    return a, comps


def snap(a, comps):
    return {c: values(getattr(a, c)) for c in comps}


def check_same(S, got, want, msg):
    S.check(got.keys() == want.keys(), msg)
    for c in want:
        S.check(got[c].keys() == want[c].keys(), "%s: %s" % (msg, c))
        for k in want[c]:
            S.check_eq(got[c][k], want[c][k], "%s: %s.%s" % (msg, c, k))


def scramble(S, fresh, a, comps):
    """Arbitrary further training of the saved agent."""
    for c in comps:
        x = getattr(a, c)
        if isinstance(x, Opt):
            x.st = fresh()
        else:
            for t in list(x.parameters()) + list(x.buffers()):
                fresh.fill(t)


def roundtrip(S, kind, norm=True, temp=True):
    with sym_env(S) as P, scratch_dir() as d:
        fs, fresh = FS(S, P), Fresh(S)
        a, comps = make(S, fresh, kind, norm, temp)
        b, _ = make(S, fresh, kind, norm, temp)
        before = snap(a, comps)
        dst = os.path.join(d, "sub", "agent")
        a.save(dst)
        check_same(S, snap(a, comps), before, "saving does not alter the agent")
        S.check(all(f.startswith(os.path.normpath(dst) + os.sep) for f in fs.files), "saving writes only under the given directory")
        S.cover("saved")
        if S.flag("lost file"):
            S.cover("missing component")
            f = sorted(fs.files)[S.choice("which", len(fs.files))]
            del fs.files[f]
            try:
                b.load(dst)
                S.check(False, "a missing component is reported: %s" % os.path.basename(f))
            except FileNotFoundError:
                pass
            return
        scramble(S, fresh, a, comps)
        b.load(dst)
        check_same(S, snap(b, comps), before, "loading restores")
        scramble(S, fresh, a, comps)
        check_same(S, snap(b, comps), before, "the loaded agent is independent of the saved one")
        if kind in ("A3C", "ACER"):
            b.sync_parameters()
            check_same(S, snap(b, comps), before, "synchronizing with the shared model keeps the loaded parameters")
            S.cover("shared model")


class Node(AttributeSavingMixin):
    saved_attributes = ()

    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.saved_attributes = tuple(kw)


def nested(S, shape):
    """Composite objects: nesting, shared children, absent components, wrapped modules, cycles."""
    with sym_env(S) as P, scratch_dir() as d:
        fs, fresh = FS(S, P), Fresh(S)
        N = lambda: Net(fresh)

        def build():
            if shape == "tree":
                leaves = dict(x=N(), y=N(), z=N())
                root = Node(x=leaves["x"], none=None, kid=Node(x=leaves["y"], kid=Node(x=leaves["z"])))
            elif shape == "siblings":
                leaves = dict(x=N(), y=N(), z=N())
                root = Node(a=Node(x=leaves["x"]), b=Node(x=leaves["y"]), x=leaves["z"])
            elif shape == "shared":
                leaves = dict(x=N(), y=N())
                s = Node(x=leaves["x"])
                root = Node(a=s, b=Node(a=s, x=leaves["y"]))
            else:
                leaves = dict(x=N())
                root = Node(x=leaves["x"])
            return root, leaves

        (a, la), (b, lb) = build(), build()
        if shape == "parallel":
            wrap = S.choice("wrapped", 4)
            if wrap & 1:
                a.x = nn.DataParallel(a.x)
            if wrap & 2:
                b.x = nn.DataParallel(b.x)
        if shape == "cycle":
            a = Node(x=la["x"])
            a.kid = Node(x=N(), kid=a)
            a.saved_attributes = ("x", "kid")
            try:
                a.save(os.path.join(d, "a"))
                S.check(False, "a cycle is refused")
            except AssertionError:
                S.cover("cycle refused")
            return
        before = {k: values(v) for k, v in la.items()}
        a.save(os.path.join(d, "a"))
        for v in la.values():
            fresh.fill(v.w)
            fresh.fill(v.b)
        b.load(os.path.join(d, "a"))
        check_same(S, {k: values(v) for k, v in lb.items()}, before, "loading restores every part")
        S.cover(shape)


def snapshot(S, n):
    """DQN snapshots: counters and replay buffer."""
    from pfrl.replay_buffers import ReplayBuffer

    with sym_env(S) as P, scratch_dir() as d:
        fs, fresh = FS(S, P), Fresh(S)

        def mk():
            m = Net(fresh)
            a = pfrl.agents.DQN(m, Opt(fresh, m), ReplayBuffer(100), explorer=pfrl.explorers.Greedy(), gamma=0.9, replay_start_size=10, minibatch_size=1, target_update_interval=1000)
            return a

        a, b = mk(), mk()
        a.t, a.optim_t, a._cumulative_steps = S.int("t", 0), S.int("optim_t", 0), S.int("cumulative_steps", 0)
        t, o, c = a.t, a.optim_t, a.cumulative_steps
        tr = []
        for i in range(n):
            tr.append(dict(state=i, action=i, reward=i * 0.5, next_state=i + 1, is_state_terminal=S.flag("done%d" % i)))
            a.replay_buffer.append(**tr[-1])
        if S.flag("stale"):
            b.replay_buffer.append(state=9, action=9, reward=9.0, next_state=9)
        comps = ["model", "target_model", "optimizer"]
        before = snap(a, comps)
        dst = os.path.join(d, "s")
        a.save_snapshot(dst)
        scramble(S, fresh, a, comps)
        b.load_snapshot(dst)
        check_same(S, snap(b, comps), before, "loading restores")
        S.check_eq(b.t, t, "step count")
        S.check_eq(b.optim_t, o, "update count")
        S.check_eq(b.cumulative_steps, c, "cumulative steps")
        S.check(len(b.replay_buffer) == n, "the replay buffer is restored")
        got = [e[0] for e in b.replay_buffer.memory]
        for w, g in zip(tr, got):
            S.check(all(g[k] == v for k, v in w.items()), "the replay buffer is restored")
        st = dict(b.get_statistics())
        S.check_eq(st["n_updates"], o, "statistics continue")
        S.cover("snapshot")


KINDS = [dict(kind=k) for k in ("DQN", "CategoricalDQN", "IQN", "DDPG", "TD3", "SAC", "PPO", "TRPO", "A2C", "A3C", "ACER", "REINFORCE")] + [dict(kind="PPO", norm=False), dict(kind="TRPO", norm=False), dict(kind="SAC", temp=False)]
ASSUMPTIONS = ["torch.save/torch.load are replaced by an in-memory store of values that fails for absent files and missing directories", "networks, buffers and optimizer states are arbitrary values; optimizers are stand-ins with state_dict/load_state_dict",
               "only the components listed in the statement are claimed (ACER's averaged policy is not saved by pfrl)"]
FN = ["AttributeSavingMixin.save/load (recursive)", "saved_attributes of every agent", "A3C.load", "ACER.load", "DQN.save_snapshot", "DQN.load_snapshot"]
O = dict(timeout_ms=20000)
HARNESSES = [
    Harness(roundtrip, quick=KINDS, covers=["saved", "missing component", "shared model"], functions=FN, opts=O, bounds="every agent class, two parameters and one buffer entry per network, all values, each single missing file"),
    Harness(nested, quick=[dict(shape=s) for s in ("tree", "siblings", "shared", "parallel", "cycle")], covers=["tree", "siblings", "shared", "parallel", "cycle refused"], functions=FN, opts=O, bounds="nesting depth 3"),
    Harness(snapshot, quick=[dict(n=2)], thorough=[dict(n=4)], covers=["snapshot"], functions=FN, opts=O, bounds="2 (4) transitions, arbitrary counters"),
]
