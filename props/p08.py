"""P08: update and synchronization schedule."""
from .common import *


class _Buf:
    def __init__(self, n, eps):
        self.n, self.eps, self.log = n, eps, []
        self.capacity = None

    def __len__(self):
        return self.n

    @property
    def n_episodes(self):
        return self.eps

    def sample(self, n):
        self.log.append(("sample", n))
        return ("t", len(self.log))

    def sample_episodes(self, n_episodes, max_len=None):
        self.log.append(("episodes", n_episodes, max_len))
        return ("e", len(self.log))


def updater(S, episodic, max_len):
    from pfrl.replay_buffer import ReplayUpdater

    with sym_env(S, use_torch=False):
        n = S.choice("len", 5)
        eps = S.choice("n_episodes", 4)
        start = S.int("replay_start_size", 1, 6)
        batch = S.int("batchsize", 1, 4)
        S.assume(S.le(batch, start))
        interval = S.int("update_interval", 1, 50)
        it = S.int("iteration", 0, 10000)
        times = S.choice("n_times", 4)
        buf = _Buf(n, eps)
        calls = []
        u = ReplayUpdater(buf, lambda b, *a, **k: calls.append(b), batchsize=batch, episodic_update=episodic, n_times_update=times,
                          replay_start_size=start, update_interval=interval, episodic_update_len=max_len)
        r = u.update_if_necessary(it)
        k = S.int("quotient", 0, 10000)
        ok = S.le(start, n)
        if episodic:
            ok = and_(ok, S.le(batch, eps))
        ok = and_(ok, S.eq(it % interval, 0))
        if ok:
            S.cover("update")
            S.check(len(calls) == times, "number of updates")
            S.check(len(buf.log) == times, "one sample per update")
            for i, e in enumerate(buf.log):
                S.check(e[0] == ("episodes" if episodic else "sample"), "kind of sample")
                S.check_eq(e[1], batch, "batch size")
                if episodic:
                    S.check(e[2] == max_len, "subsequence length")
                S.check(calls[i] == ("e" if episodic else "t", i + 1), "the update receives the sampled batch")
            S.check(bool(r), "an update is reported")
        else:
            S.cover("no update")
            S.check(not calls and not buf.log, "no update before the start size or off the interval")
            S.check(not r, "no update is reported")


def _rbuf(log, episodic=False):
    from pfrl.replay_buffers import ReplayBuffer, EpisodicReplayBuffer

    class B(ReplayBuffer):
        def sample(self, n):
            log.append(("sample", n))
            return [self.memory[0] for _ in range(n)]

    class E(EpisodicReplayBuffer):
        def sample_episodes(self, n, max_len=None):
            log.append(("sample", n))
            return [self.episodic_memory[0] for _ in range(n)]

    return E() if episodic else B(10)


def agent_schedule(S, kind, T, n_envs, symbolic_t0):
    from . import zoo

    with sym_env(S, use_torch=False) as P:
        ui = S.int("update_interval", 1, 3)
        recurrent = kind == "recurrentDQN"
        bs = 1 if recurrent else 2
        start = S.int("replay_start_size", bs, 4)
        times = 1 if kind == "SAC" else 1 + S.choice("n_times", 2)
        smp, steps = [], []
        rbuf = _rbuf(smp, recurrent)
        kw = dict(gamma=0.9, replay_start_size=start, minibatch_size=bs, update_interval=ui)
        targets = []
        if kind != "SAC":
            kw["n_times_update"] = times
        if kind in ("DQN", "DDPG", "recurrentDQN"):
            ti = S.int("target_update_interval", 1, 4)
            if "DQN" in kind:
                S.assume(S.eq(ti % ui, 0))
            kw["target_update_interval"] = ti
        if kind == "DQN":
            a, z = zoo.make_dqn("DQN", rbuf, **kw)
            opts = [z["optimizer"]]
            nets = [(z["model"], a.target_model)]
        elif kind == "recurrentDQN":
            a, z = zoo.make_dqn("DQN", rbuf, model=zoo.rec_q_net(), recurrent=True, **kw)
            opts = [z["optimizer"]]
            nets = [(z["model"], a.target_model)]
        elif kind == "DDPG":
            a, z = zoo.make_ddpg(rbuf, **kw)
            opts = [z["qo"], z["po"]]
            nets = [(z["policy"], a.target_policy), (z["q"], a.target_q_function)]
        elif kind == "TD3":
            delay = S.int("policy_update_delay", 1, 3)
            a, z = zoo.make_td3(rbuf, policy_update_delay=delay, soft_update_tau=1.0, **kw)
            opts = [z["o1"], z["o2"]]
            nets = [(z["policy"], a.target_policy), (z["q1"], a.target_q_func1), (z["q2"], a.target_q_func2)]
        else:
            a, z = zoo.make_sac(rbuf, soft_update_tau=1.0, **kw)
            opts = [z["o1"], z["o2"], z["po"]]
            nets = [(z["q1"], a.target_q_func1), (z["q2"], a.target_q_func2)]
        t = 0
        if symbolic_t0:
            t = S.int("t0", 0, 1000)
            a.t = t
        n_upd = 0
        obs = [0.5]
        for s in range(T):
            done = [S.flag("done%d_%d" % (s, e)) if s < T - 1 or recurrent else False for e in range(n_envs)]
            a.batch_act([obs] * n_envs)
            before_tgt = [zoo.version(b) for _, b in nets]
            before_src = [zoo.version(m) for m, _ in nets]
            n0 = [o.n for o in opts]
            po0 = z["po"].n if kind == "TD3" else 0
            del smp[:]
            # expectation: replay the configured schedule
            exp, sync, synced_at = 0, False, None
            pol = 0
            size_before = len(rbuf)
            a.batch_observe([obs] * n_envs, [0.0] * n_envs, done, [False] * n_envs)
            added = len(rbuf) - size_before
            if not recurrent:
                S.check(added == n_envs, "every transition is stored")
            size = size_before
            for e in range(n_envs):
                t = t + 1
                if recurrent:
                    size = len(rbuf)  # one environment: the size after this step
                    enough = rbuf.n_episodes >= bs
                else:
                    size += 1
                    enough = True
                if enough and and_(S.le(start, size), S.eq(t % ui, 0)):
                    exp += times
                    for _ in range(times):
                        n_upd += 1
                        if kind == "TD3" and S.eq(n_upd % delay, 0):
                            pol += 1
                            sync = True
                            synced_at = n_upd
                        if kind == "SAC":
                            sync = True
                            synced_at = n_upd
                if kind in ("DQN", "DDPG", "recurrentDQN") and S.eq(t % ti, 0):
                    sync = True
            S.check(len(smp) == exp, "number of batches sampled at a step")
            S.check(all(x == ("sample", bs) for x in smp), "batch size")
            for o, k in zip(opts, n0):
                S.check(o.n - k == exp, "number of optimizer steps at a step")
            if kind == "TD3":
                S.check(z["po"].n - po0 == pol, "delayed policy updates")
                if pol:
                    S.cover("policy update")
            for (m, b), v0, s0 in zip(nets, before_tgt, before_src):
                v = zoo.version(b)
                if not sync:
                    S.check(v == v0, "target network unchanged between synchronizations")
                    continue
                S.cover("sync")
                if kind in ("TD3", "SAC"):
                    # soft synchronization (here with tau = 1) right after the update
                    want = zoo.version(m) if m is z["policy"] else synced_at
                    S.check(v == want, "target network follows the update it is due after")
                else:
                    S.check(s0 <= v <= zoo.version(m), "target network synchronized on schedule")
            if exp:
                S.cover("update")
            else:
                S.cover("no update")


FN = ["ReplayUpdater.update_if_necessary", "DQN._batch_observe_train", "DQN.update", "DQN.update_from_episodes", "DQN.sync_target_network",
      "DDPG._batch_observe_train", "DDPG.update", "DDPG.sync_target_network", "TD3._batch_observe_train", "TD3.update",
      "TD3.sync_target_network", "SoftActorCritic._batch_observe_train", "SoftActorCritic.update", "synchronize_parameters"]
ASSUMPTIONS = ["optimizers are stand-ins whose step() writes a fresh value into their parameters, so synchronization is observed through the parameters; network outputs are concrete",
               "the two order variants (target sync before or after the update of the same step) are both accepted"]

HARNESSES = [
    Harness(updater, quick=[dict(episodic=False, max_len=None), dict(episodic=True, max_len=None), dict(episodic=True, max_len=7)],
            covers=["update", "no update"], functions=FN[:1],
            bounds="buffer length 0..4, episodes 0..3, start size 1..6, interval 1..50, iteration 0..10000, repetitions 0..3"),
    Harness(agent_schedule,
            quick=[dict(kind=k, T=3 if b else 4, n_envs=1, symbolic_t0=b) for k in ("DQN", "DDPG", "TD3", "SAC", "recurrentDQN") for b in (True, False)]
            + [dict(kind=k, T=2, n_envs=2, symbolic_t0=False) for k in ("DQN", "DDPG", "TD3", "SAC")],
            thorough=[dict(kind=k, T=6, n_envs=1, symbolic_t0=b) for k in ("DQN", "DDPG", "TD3", "SAC", "recurrentDQN") for b in (True, False)]
            + [dict(kind=k, T=4, n_envs=2, symbolic_t0=b) for k in ("DQN", "DDPG", "TD3", "SAC") for b in (True, False)],
            covers=["update", "no update", "sync", "policy update"], functions=FN,
            bounds="<= 4 (6) steps from any step number 0..1000, <= 2 environments, update interval 1..3, target interval 1..4, start size 1..4, delay 1..3, 1-2 repetitions, every episode-end pattern"),
]
