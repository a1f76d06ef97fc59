"""P23: what agents record, and the isolation of training from evaluation."""
from torch import nn

from .common import *
from . import tab, pv, p17, p18
import pfrl


class Buf(pfrl.replay_buffer.AbstractReplayBuffer):
    """Replay buffer stand-in that records its calls and never has enough data to update."""

    capacity = None

    def __init__(self):
        self.log = []

    def append(self, *a, **k):
        self.log.append(("append", a, k))

    def stop_current_episode(self, env_id=0):
        self.log.append(("stop", env_id))

    def __len__(self):
        return 0

    def sample(self, n):
        raise AssertionError("sampled an empty buffer")

    def save(self, f):
        pass

    def load(self, f):
        pass


class EpBuf(Buf, pfrl.replay_buffer.AbstractEpisodicReplayBuffer):
    n_episodes = 0

    def sample_episodes(self, n, max_len=None):
        raise AssertionError("sampled an empty buffer")


class BufPipe:
    """An actor's pipe to a learner that stores what it is sent."""

    def __init__(self, S, buf):
        self.S, self.buf, self.pending = S, buf, 0

    def send(self, m):
        cmd, data = m
        if cmd == "transition":
            self.buf.append(**dict(data, env_id=data.get("env_id", 0)))
        elif cmd == "stop_episode":
            self.buf.stop_current_episode(env_id=data or 0)
            self.pending += 1
        else:
            raise RuntimeError("unknown command %s" % cmd)

    def recv(self):
        self.S.check(self.pending > 0, "the actor waits only for replies to its requests")
        self.pending -= 1
        return []


class QNet(nn.Module):
    def __init__(self, S, n):
        super().__init__()
        # distinct concrete values: the greedy action and the values identify the observation
        self.q = [[i + (0.25 if j == i % 2 else 0.0) for j in range(2)] for i in range(n)]
        self.w = nn.Parameter(torch.tensor(self.q))
        self.drop = nn.Dropout(0.5)
        self.modes = []

    def head(self, ids):
        return pfrl.action_value.DiscreteActionValue(self.w[ids])

    def forward(self, x):
        self.modes.append((self.training, self.drop.training))
        return self.head(tab.index(x))


class RecQ(pfrl.nn.Recurrent, QNet):
    """Recurrent state = code of the episode's observation history (0 at its start)."""

    def forward(self, x, state):
        self.modes.append((self.training, self.drop.training))
        ids = tab.index(x.data)
        assert list(map(int, x.batch_sizes)) == [len(ids)]
        h = [0] * len(ids) if state is None else [int(v) for v in elems(state)]
        if x.sorted_indices is not None:
            h = [h[int(j)] for j in elems(x.sorted_indices)]
        self.seen = list(h)
        h = [pv.hnext(a, i) for a, i in zip(h, ids)]
        if x.unsorted_indices is not None:
            h = [h[int(j)] for j in elems(x.unsorted_indices)]
        return torch.nn.utils.rnn.PackedSequence(self.w[ids], x.batch_sizes, x.sorted_indices, x.unsorted_indices), torch.tensor([float(v) for v in h]).reshape(1, -1, 1)


class PolDist(torch.distributions.Normal):
    """Always yields the code of the observation."""

    def __init__(self, ids):
        super().__init__(torch.tensor([[i + 0.5] for i in ids]), torch.ones(len(ids), 1), validate_args=False)

    def sample(self, sample_shape=torch.Size()):
        return self.loc

    rsample = sample


class Pol(nn.Module):
    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(1))
        self.drop = nn.Dropout(0.5)
        self.modes = []

    def forward(self, x):
        self.modes.append((self.training, self.drop.training))
        return PolDist(tab.index(x))


class Expl(pfrl.explorer.Explorer):
    def __init__(self, S, mk):
        self.S, self.mk, self.calls = S, mk, []

    def select_action(self, t, greedy_action_func, action_value=None):
        g = greedy_action_func()
        a = self.mk(len(self.calls))
        self.calls.append((t, g, a, action_value))
        return a


def same(a, b):
    return [float(x) for x in np.ravel(a)] == [float(x) for x in np.ravel(b)]


def code(st):
    """Recurrent state of one environment as stored with a transition; None is the initial state."""
    return 0 if st is None else int(elems(torch.as_tensor(st))[0])


def offpolicy(S, kind, envs, T, evals=2, single=False, fixed=None, outs=4):
    with sym_env(S) as P:
        RngStub(S, P)
        n = envs * T + envs * T + envs + 2
        rec = kind.startswith("rec")
        buf = EpBuf() if rec else Buf()
        actor = kind.endswith("Actor")
        dqn = actor or kind in ("DQN", "recDQN")
        ex = Expl(S, lambda k: np.int64(k % 2) if dqn else np.array([100.0 + k], dtype=np.float32))
        kw = dict(gamma=0.9, replay_start_size=10, minibatch_size=1)
        if rec:
            m = RecQ(S, n)
            core_m = m
            model = pfrl.nn.RecurrentSequential(m, pfrl.q_functions.DiscreteActionValueHead())
            agent = pfrl.agents.StateQFunctionActor(BufPipe(S, buf), model, ex, recurrent=True) if actor else pfrl.agents.DQN(model, tab.CapOpt(model), buf, explorer=ex, recurrent=True, target_update_interval=1000, **kw)
        elif dqn:
            model = m = QNet(S, n)
            agent = pfrl.agents.StateQFunctionActor(BufPipe(S, buf), model, ex) if actor else pfrl.agents.DQN(model, tab.CapOpt(model), buf, explorer=ex, target_update_interval=1000, **kw)
        else:
            model = m = Pol()
            q1, q2 = Pol(), Pol()
            if kind == "DDPG":
                agent = pfrl.agents.DDPG(m, q1, tab.CapOpt(m), tab.CapOpt(q1), buf, explorer=ex, target_update_interval=1000, **kw)
            elif kind == "TD3":
                agent = pfrl.agents.TD3(m, q1, q2, tab.CapOpt(m), tab.CapOpt(q1), tab.CapOpt(q2), buf, explorer=ex, **kw)
            else:
                agent = pfrl.agents.SoftActorCritic(m, q1, q2, tab.CapOpt(m), tab.CapOpt(q1), tab.CapOpt(q2), buf, **kw)
        fresh = iter(range(n - 1))
        ids = [next(fresh) for _ in range(envs)]
        h = [0] * envs
        want, used = [], 0
        ob = lambda i: np.array([i], dtype=np.float32)
        steps = 0
        evalid = n - 1
        for t in range(T):
            if used < evals and S.flag("eval%d" % t):
                used += 1
                S.cover("evaluation")
                L, tt, nc, tr = len(buf.log), agent.t, len(ex.calls), agent.training
                th = 0
                with agent.eval_mode():
                    for e in range(2):
                        nm = len(m.modes)
                        a = agent.act(ob(evalid)) if single else agent.batch_act([ob(evalid)] * envs)[0]
                        S.check(m.modes[nm:] and all(x == (False, False) for x in m.modes[nm:]), "the network acts in evaluation mode")
                        if rec:
                            S.check(all(x == th for x in m.seen), "evaluation has its own recurrent state, fresh at each episode's start")
                            th = pv.hnext(th, evalid)
                        if dqn:
                            S.check(S.le(m.q[evalid][1 - int(a)], m.q[evalid][int(a)]), "evaluation acts greedily")
                        else:
                            S.check_eq(elems(torch.as_tensor(a))[0], evalid + 0.5, "evaluation acts by the policy alone")
                        end = S.choice("eend%d" % t, 3) if e == 0 else 0
                        if end:
                            th = 0
                        if single:
                            agent.observe(ob(evalid), 1.0, end == 1, end == 2)
                        else:
                            agent.batch_observe([ob(evalid)] * envs, [1.0] * envs, [end == 1] * envs, [end == 2] * envs)
                S.check(len(buf.log) == L and agent.t == tt and len(ex.calls) == nc, "evaluation stores nothing, does not count steps and does not explore")
                S.check(agent.training == tr, "training mode is restored")
            nc = len(ex.calls)
            nm = len(m.modes)
            acts = [agent.act(ob(ids[0]))] if single else agent.batch_act([ob(i) for i in ids])
            if m.modes[nm:]:
                S.check(all(x == (False, False) for x in m.modes[nm:]), "the network acts in evaluation mode")
            S.check(m.training and m.drop.training, "the network is left in training mode")
            S.check(len(acts) == envs, "one action per environment")
            for e in range(envs):
                if kind == "SAC":
                    S.check_eq(elems(torch.as_tensor(acts[e]))[0], ids[e] + 0.5, "each action is the policy's for its own observation")
                    continue
                ct, g, a, av = ex.calls[nc + e]
                S.check(same(acts[e], a), "the explorer's action is taken")
                S.check(ct == steps, "the explorer is given the number of training steps so far")
                if dqn:
                    S.check(S.le(m.q[ids[e]][1 - int(g)], m.q[ids[e]][int(g)]), "the explorer is offered the greedy action of its own observation")
                    qs = elems(av.q_values)
                    S.check(len(qs) == 2, "the explorer sees its own action values")
                    for j in range(2):
                        S.check_eq(qs[j], m.q[ids[e]][j], "the explorer sees its own action values")
                else:
                    S.check_eq(elems(torch.as_tensor(g))[0], ids[e] + 0.5, "the explorer is offered the policy's action of its own observation")
            rs, ds, zs, nx = [], [], [], []
            for e in range(envs):
                out = fixed[t][e] if fixed else S.choice("end%d_%d" % (t, e), outs)
                r = S.real("r%d_%d" % (t, e), -3, 3)
                i2 = next(fresh)
                h2 = pv.hnext(h[e], ids[e])
                want.append(("append", dict(state=ids[e], action=acts[e], reward=r, next_state=i2, is_state_terminal=bool(out & 1), env_id=e), h[e], h2))
                h[e] = h2
                rs.append(r)
                ds.append(bool(out & 1))
                zs.append(bool(out & 2))
                nx.append(i2)
                if out:
                    want.append(("stop", e))
                    h[e] = 0
                    S.cover("ended")
                else:
                    S.cover("continues")
            if single:
                agent.observe(ob(nx[0]), rs[0], ds[0], zs[0])
            else:
                agent.batch_observe([ob(i) for i in nx], rs, ds, zs)
            steps += envs
            S.check(agent.t == steps, "every environment step is counted once")
            ids = [next(fresh) if (ds[e] or zs[e]) else nx[e] for e in range(envs)]
        # per environment, in order
        for e in range(envs):
            w = [x for x in want if (x[1]["env_id"] if x[0] == "append" else x[1]) == e]
            g = [x for x in buf.log if (x[2]["env_id"] if x[0] == "append" else x[1]) == e]
            S.check([x[0] for x in w] == [x[0] for x in g], "each transition is stored once and each episode end closes its environment's episode")
            for a, b in zip(w, g):
                if a[0] != "append":
                    continue
                d = b[2]
                S.check(int(d["state"][0]) == a[1]["state"] and int(d["next_state"][0]) == a[1]["next_state"] and same(d["action"], a[1]["action"]) and bool(d["is_state_terminal"]) == a[1]["is_state_terminal"], "the transition is stored as it happened: %s" % (a[1],))
                S.check_eq(d["reward"], a[1]["reward"], "the reward is stored as observed")
                S.check(d.get("next_action") is None, "no next action is claimed")
                if rec:
                    S.check(code(d["recurrent_state"]) == a[2], "the recurrent state before the step is stored")
                    S.check(code(d["next_recurrent_state"]) == a[3], "the recurrent state after the step is stored")
                    S.cover("recurrent states")
        S.check(len(want) == len(buf.log), "nothing else is stored")


def onpolicy(S, which, **kw):
    """The oracles of P17/P18 still hold when evaluation phases are inserted anywhere between steps."""
    f = dict(a2c=p18.a2c, a3c=p18.a3c, reinforce=p18.reinforce, ppo=p17.ppo, trpo=p17.trpo)[which]
    pv.Driver.evals = 1
    try:
        f(S, **kw)
    finally:
        pv.Driver.evals = 0


def modes(S):
    """eval_mode and evaluating restore whatever mode was set, on every exit."""
    from pfrl.utils.contexts import evaluating

    class A(pfrl.agent.Agent):
        def act(self, o):
            pass

        observe = save = load = get_statistics = act

    a = A()
    a.training = orig = S.flag("training")
    boom, nested = S.flag("raises"), S.flag("nested")
    try:
        with a.eval_mode():
            S.check(a.training is False, "evaluation mode")
            if nested:
                with a.eval_mode():
                    S.check(a.training is False, "evaluation mode")
                S.check(a.training is False, "still evaluation mode")
            if boom:
                raise KeyError("x")
        S.check(not boom, "exceptions are not swallowed")
    except KeyError:
        S.check(boom, "no spurious exception")
    S.check(a.training is orig, "the agent's mode is restored")
    net = nn.Sequential(nn.Dropout(), nn.Linear(1, 1))
    net.train(S.flag("net training"))
    o = net.training
    try:
        with evaluating(net) as m:
            S.check(m is net and not net.training and not net[0].training, "evaluation mode")
            if boom:
                raise KeyError("x")
        S.check(not boom, "exceptions are not swallowed")
    except KeyError:
        pass
    S.check(net.training is o and net[0].training is o, "the network's mode is restored")
    S.cover("modes")


O = dict(timeout_ms=20000, fork_ite=True)
ASSUMPTIONS = ["networks, policies and explorers are stand-ins whose outputs identify the observation they were computed from", "evaluation phases lie between training steps, on the same number of environments", "the replay buffer is a recorder (its own behaviour is P01-P06)"]
C = ["ended", "continues"]
FN = ["DQN.batch_act/batch_observe", "DDPG.batch_act/batch_observe", "TD3.batch_act/batch_observe", "SoftActorCritic.batch_act/batch_observe", "Agent.eval_mode", "BatchAgent.act/observe", "evaluating"]
HARNESSES = [
    Harness(offpolicy, quick=[dict(kind=k, envs=1, T=3, evals=1) for k in ("DQN", "recDQN")] + [dict(kind=k, envs=2, T=2, evals=1, outs=3) for k in ("DQN", "recDQN", "DDPG", "TD3", "SAC")] + [dict(kind=k, envs=1, T=3, evals=1, single=True) for k in ("DQN", "DDPG", "TD3", "SAC")],
            thorough=[dict(kind=k, envs=1, T=4, evals=2) for k in ("DQN", "recDQN", "DDPG", "TD3", "SAC")] + [dict(kind=k, envs=3, T=2, evals=1) for k in ("DQN", "recDQN", "DDPG", "TD3", "SAC")] + [dict(kind="recDQN", envs=2, T=3, evals=1)],
            covers=C + ["evaluation", "recurrent states"], functions=FN, opts=O, bounds="1-2 (3) environments, 2-3 (4) steps, every pattern of done/reset flags, one (two) evaluation phases of two steps anywhere"),
    Harness(onpolicy, quick=[dict(which="a2c", envs=1, k=2), dict(which="a3c", steps=3, t_max=2), dict(which="a3c", steps=3, t_max=2, recurrent=True), dict(which="reinforce", steps=3, batchsize=1), dict(which="reinforce", steps=3, batchsize=1, recurrent=True), dict(which="ppo", envs=1, k=2, norm=True), dict(which="ppo", envs=1, k=2, recurrent=True, norm=True), dict(which="trpo", envs=1, k=2, norm=True)],
            thorough=[dict(which="a2c", envs=2, k=2), dict(which="a3c", steps=4, t_max=2, recurrent=True), dict(which="reinforce", steps=4, batchsize=2, recurrent=True), dict(which="ppo", envs=2, k=2, recurrent=True), dict(which="trpo", envs=1, k=3)],
            covers=["evaluation between steps"], functions=["A2C/A3C/REINFORCE/PPO/TRPO act/observe in evaluation mode"], opts=O, bounds="2-3 (4) steps, one evaluation phase anywhere"),
    Harness(modes, quick=[{}], covers=["modes"], functions=FN, bounds="all"),
]
