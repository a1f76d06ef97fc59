"""P16: objectives of the continuous-control actor-critic agents (DDPG, TD3, SAC)."""
from .common import *
from . import zoo, tab
from .p14 import _uexp
import math
import pfrl
from torch import nn

TAU = 0.25


class QTab(nn.Module):
    """Q(s, a) = base[s] + slope[s] * a + a^2 / 2 (one-dimensional actions); base is arbitrary."""

    def __init__(self, S, name, n, k):
        super().__init__()
        self.v = []
        for i in range(n):
            self.v += [S.real("%s_%d" % (name, i), -3, 3), (-1) ** (i + k) * 0.5 * (1 + (i + 2 * k) % 3)]
        self.w = nn.Parameter(tensor(S, self.v).reshape(n, 2))

    def forward(self, sa):
        s, a = sa
        assert a.ndim == 2 and a.shape[1] == 1
        r = self.w[tab.index(s)]
        return r[:, :1] + r[:, 1:] * a + a * a * 0.5


def qv(v, s, a):
    return v[2 * s] + v[2 * s + 1] * a + a * a * 0.5


class MuTab(nn.Module):
    """Deterministic policy with arbitrary actions"""

    def __init__(self, S, name, n, bound=2):
        super().__init__()
        self.w, self.v = tab.param(S, name, (n, 1), -bound, bound)
        self.head = pfrl.policies.DeterministicHead()

    def forward(self, x):
        return self.head(self.w[tab.index(x)])


class NormTab(nn.Module):
    """Gaussian policy: arbitrary mean, fixed standard deviation per state"""

    def __init__(self, S, name, n):
        super().__init__()
        self.v = []
        for i in range(n):
            self.v += [S.real("%s_%d" % (name, i), -2, 2), [1.0, 0.5, 2.0][i % 3]]
        self.w = nn.Parameter(tensor(S, self.v).reshape(n, 2))

    def forward(self, x):
        r = self.w[tab.index(x)]
        return torch.distributions.Independent(torch.distributions.Normal(r[:, :1], r[:, 1:], validate_args=False), 1, validate_args=False)




def clamp(S, x, lo, hi):
    if x < lo:
        return lo
    if hi < x:
        return hi
    return x


def make_batch(S, windows, gamma, term, sym_disc=False):
    exps, info = [], []
    for b, L in enumerate(windows):
        w, R, g = [], 0, 1
        fl = term if term is not None else S.flag("term%d" % b)
        a0 = S.real("act%d" % b, -2, 2)
        for i in range(L):
            r = S.real("r%d_%d" % (b, i), -3, 3)
            a = a0 if i == 0 else S.real("actx%d_%d" % (b, i), -2, 2)
            w.append(dict(state=np.array([2 * b if i == 0 else 0], dtype=np.float32), action=senv.obj_array([a]) if S.symbolic else np.array([a], dtype=np.float32), reward=r,
                          next_state=np.array([2 * b + 1 if i == L - 1 else 0], dtype=np.float32), next_action=None, is_state_terminal=fl and i == L - 1))
            R = R + g * r
            g = g * gamma
        exps.append(w)
        info.append((a0, R, g, fl))
    return exps, info


def mix(t, m):
    return [x * (1 - TAU) + y * TAU for x, y in zip(t, m)]


def critic_check(S, grad, loss_rec, v, targets, info, scale, what):
    B = len(info)
    tot = 0
    for b, (a0, R, g, fl) in enumerate(info):
        d = qv(v, 2 * b, a0) - targets[b]
        tot = tot + d * d * scale / B
        S.check_eq(grad[4 * b], 2 * scale * d / B, what + " regresses to its target")
        S.check_eq(grad[4 * b + 1], 2 * scale * d * a0 / B, what + " is evaluated at the stored action")
        S.check_eq(grad[4 * b + 2], 0, what + ": no gradient through the target")
        S.check_eq(grad[4 * b + 3], 0, what + ": no gradient through the target")
    S.check_eq(loss_rec, tot, what + " loss")


def ddpg(S, windows, term=None, rounds=2, sym_gamma=False):
    B = len(windows)
    with sym_env(S) as P:
        gamma = S.real("gamma", 0, 1) if sym_gamma else 0.5
        pol, q = MuTab(S, "mu", 2 * B), QTab(S, "q", 2 * B, 0)
        log = []
        po, qo = tab.CapOpt(pol, log, "pi"), tab.CapOpt(q, log, "q")
        agent = pfrl.agents.DDPG(pol, q, po, qo, pfrl.replay_buffers.ReplayBuffer(100), gamma, zoo.FixedExplorer(), phi=zoo.phi, replay_start_size=100, minibatch_size=1,
                                 target_update_method="soft", soft_update_tau=TAU)
        tp, tq = MuTab(S, "tmu", 2 * B), QTab(S, "tq", 2 * B, 1)
        agent.target_policy.w, agent.target_q_function.w = tp.w, tq.w
        exps, info = make_batch(S, windows, gamma, term)
        for k in range(rounds):
            agent.update(exps)
            targets = []
            for b, (a0, R, g, fl) in enumerate(info):
                targets.append(R if fl else R + g * qv(tq.v, 2 * b + 1, tp.v[2 * b + 1]))
                if not fl:
                    S.cover("bootstrapped")
            critic_check(S, qo.steps[k][0], agent.critic_loss_record[k], q.v, targets, info, 1, "critic")
            lo = 0
            for b in range(B):
                a = pol.v[2 * b]
                lo = lo - qv(q.v, 2 * b, a) / B
                S.check_eq(po.steps[k][0][2 * b], -(q.v[4 * b + 1] + a) / B, "the actor ascends its critic")
                S.check_eq(po.steps[k][0][2 * b + 1], 0, "the actor gradient touches only the visited states")
            S.check_eq(agent.actor_loss_record[k], lo, "actor loss")
        S.check(len(qo.steps) == rounds and len(po.steps) == rounds, "one step of each optimizer per update")
        S.check(agent.target_policy.w.grad is None and agent.target_q_function.w.grad is None, "no gradient into target networks")
        S.cover("ran")


def td3(S, windows, term=None, rounds=2, delay=1, smooth="default", sym_gamma=False):
    B = len(windows)
    with sym_env(S) as P:
        rng = TorchRng(S, P, z=4)
        gamma = S.real("gamma", 0, 1) if sym_gamma else 0.5
        pol, q1, q2 = MuTab(S, "mu", 2 * B), QTab(S, "q1", 2 * B, 0), QTab(S, "q2", 2 * B, 1)
        log = []
        po, o1, o2 = tab.CapOpt(pol, log, "pi"), tab.CapOpt(q1, log, "q1"), tab.CapOpt(q2, log, "q2")
        kw = {} if smooth == "default" else dict(target_policy_smoothing_func=lambda a: a + 0.25)
        agent = pfrl.agents.TD3(pol, q1, q2, po, o1, o2, pfrl.replay_buffers.ReplayBuffer(100), gamma, zoo.FixedExplorer(), phi=zoo.phi, replay_start_size=100, minibatch_size=1,
                                policy_update_delay=delay, soft_update_tau=TAU, **kw)
        tp, t1, t2 = MuTab(S, "tmu", 2 * B), QTab(S, "tq1", 2 * B, 0), QTab(S, "tq2", 2 * B, 1)
        for dst, src in ((agent.target_policy, tp), (agent.target_q_func1, t1), (agent.target_q_func2, t2)):
            dst.w = src.w
            dst.requires_grad_(False)
        T = [tp.v, t1.v, t2.v]
        exps, info = make_batch(S, windows, gamma, term)
        np_ = 0
        for k in range(rounds):
            rng.log.clear()
            agent.update(exps)
            noise = None
            if smooth == "default":
                S.check(len(rng.log) == 1 and rng.log[0][1] == (B, 1), "one noise value per action")
                noise = rng.log[0][2]
            targets = []
            for b, (a0, R, g, fl) in enumerate(info):
                a = T[0][2 * b + 1]
                if smooth == "default":
                    a = clamp(S, a + clamp(S, noise[b] * 0.2, -0.5, 0.5), -1, 1)
                else:
                    a = a + 0.25
                x, y = qv(T[1], 2 * b + 1, a), qv(T[2], 2 * b + 1, a)
                m = x if x < y else y
                targets.append(R if fl else R + g * m)
                if not fl:
                    S.cover("bootstrapped")
            critic_check(S, o1.steps[k][0], agent.q_func1_loss_record[k], q1.v, targets, info, 1, "critic 1")
            critic_check(S, o2.steps[k][0], agent.q_func2_loss_record[k], q2.v, targets, info, 1, "critic 2")
            if (k + 1) % delay == 0:
                S.check(len(po.steps) == np_ + 1, "the actor is updated every policy_update_delay critic updates")
                lo = 0
                for b in range(B):
                    a = pol.v[2 * b]
                    lo = lo - qv(q1.v, 2 * b, a) / B
                    S.check_eq(po.steps[np_][0][2 * b], -(q1.v[4 * b + 1] + a) / B, "the actor ascends critic 1")
                    S.check_eq(po.steps[np_][0][2 * b + 1], 0, "the actor gradient touches only the visited states")
                S.check_eq(agent.policy_loss_record[np_], lo, "actor loss")
                np_ += 1
                T = [mix(T[0], pol.v), mix(T[1], q1.v), mix(T[2], q2.v)]
                S.cover("actor updated")
            else:
                S.check(len(po.steps) == np_, "the actor is not updated in between")
        S.cover("ran")


def sac(S, windows, term=None, rounds=1, temp=None, target=None, sym_gamma=False):
    """temp: fixed temperature, or None for a learned one with an arbitrary value and entropy target"""
    B = len(windows)
    with sym_env(S) as P:
        rng = TorchRng(S, P)
        gamma = S.real("gamma", 0, 1) if sym_gamma else 0.5
        pol, q1, q2 = NormTab(S, "mu", 2 * B), QTab(S, "q1", 2 * B, 0), QTab(S, "q2", 2 * B, 1)
        log = []
        po, o1, o2 = tab.CapOpt(pol, log, "pi"), tab.CapOpt(q1, log, "q1"), tab.CapOpt(q2, log, "q2")
        kw = dict(initial_temperature=temp) if temp is not None else dict(initial_temperature=1.0, entropy_target=-1.0)
        agent = pfrl.agents.SoftActorCritic(pol, q1, q2, po, o1, o2, pfrl.replay_buffers.ReplayBuffer(100), gamma, phi=zoo.phi, replay_start_size=100, minibatch_size=1,
                                            soft_update_tau=TAU, **kw)
        if temp is None:
            lt = S.real("log_temp", -2, 1)
            agent.temperature_holder.log_temperature = nn.Parameter(tensor(S, [lt]).reshape(()))
            to = agent.temperature_optimizer = tab.CapOpt(agent.temperature_holder, log, "temp")
            agent.entropy_target = ent = S.real("entropy_target", -3, 3)
            T = _uexp(S, lt)
        else:
            T = temp
        t1, t2 = QTab(S, "tq1", 2 * B, 0), QTab(S, "tq2", 2 * B, 1)
        for dst, src in ((agent.target_q_func1, t1), (agent.target_q_func2, t2)):
            dst.w = src.w
            dst.requires_grad_(False)
        V = [t1.v, t2.v]
        exps, info = make_batch(S, windows, gamma, term)
        half_log_2pi = math.log(math.sqrt(2 * math.pi))

        def logp(s, z):
            sd = pol.v[2 * s + 1]
            lsd = elems(torch.log(tensor(S, [sd])))[0]
            return -(z * z) / 2 - lsd - half_log_2pi

        for k in range(rounds):
            rng.log.clear()
            agent.update(exps)
            S.check(len(rng.log) == 2, "one sample for the target, one for the actor")
            zn, zc = rng.log[0][2], rng.log[1][2]
            targets = []
            for b, (a0, R, g, fl) in enumerate(info):
                s = 2 * b + 1
                a = pol.v[2 * s] + pol.v[2 * s + 1] * zn[b]
                x, y = qv(V[0], s, a), qv(V[1], s, a)
                m = x if x < y else y
                targets.append(R if fl else R + g * (m - T * logp(s, zn[b])))
                if not fl:
                    S.cover("bootstrapped")
            critic_check(S, o1.steps[k][0], agent.q_func1_loss_record[k], q1.v, targets, info, 0.5, "critic 1")
            critic_check(S, o2.steps[k][0], agent.q_func2_loss_record[k], q2.v, targets, info, 0.5, "critic 2")
            gp = po.steps[k][0]
            mean_lp = 0
            for b in range(B):
                s = 2 * b
                sd, z = pol.v[2 * s + 1], zc[b]
                a = pol.v[2 * s] + sd * z
                x, y = qv(q1.v, s, a), qv(q2.v, s, a)
                S.assume(not_(S.eq(x, y)))  # the minimum is not differentiable where the critics agree
                dq = (q1 if x < y else q2).v[2 * s + 1] + a
                S.check_eq(gp[4 * b] * B, -dq, "the actor ascends the smaller critic (entropy does not depend on the mean)")
                S.check_eq(gp[4 * b + 1] * B, -T / sd - dq * z, "the actor ascends the smaller critic plus temperature times entropy")
                S.check_eq(gp[4 * b + 2], 0, "the actor gradient touches only the visited states")
                S.check_eq(gp[4 * b + 3], 0, "the actor gradient touches only the visited states")
                mean_lp = mean_lp + logp(s, z) / B
            if temp is None:
                S.check_eq(to.steps[k][0][0], -T * (mean_lp + ent), "the temperature falls exactly when the entropy exceeds its target")
            V = [mix(V[0], q1.v), mix(V[1], q2.v)]
        S.check(len(o1.steps) == len(o2.steps) == len(po.steps) == rounds, "one step of each optimizer per update")
        S.cover("ran")


O = dict(timeout_ms=20000, fork_ite=True)
ASSUMPTIONS = ["critics are Q(s, a) = base[s] + slope[s] a + a^2/2 with arbitrary base per state and network (fixed distinct slopes): values are arbitrary and gradients in the action depend on state, network and action",
               "deterministic policies output arbitrary actions, Gaussian policies have arbitrary means and fixed standard deviations; noise is arbitrary in a bounded range",
               "floats are reals; exp and log are uninterpreted"]
FN = ["DDPG.update", "DDPG.compute_critic_loss", "DDPG.compute_actor_loss", "TD3.update", "TD3.update_q_func", "TD3.update_policy", "default_target_policy_smoothing_func",
      "SoftActorCritic.update", "SoftActorCritic.update_q_func", "SoftActorCritic.update_policy_and_temperature", "SoftActorCritic.update_temperature", "TemperatureHolder", "batch_experiences", "synchronize_parameters"]
HARNESSES = [
    Harness(ddpg, quick=[dict(windows=[1]), dict(windows=[2], sym_gamma=True), dict(windows=[2, 1], rounds=1), dict(windows=[1, 1], rounds=1, sym_gamma=True)],
            thorough=[dict(windows=[3, 1, 2], rounds=2, sym_gamma=True), dict(windows=[2, 2], rounds=3, sym_gamma=True)],
            covers=["ran", "bootstrapped"], functions=FN[:3] + ["batch_experiences"], opts=O, bounds="batches of 1-2 (3) windows of 1-2 (3) transitions, 1-3 consecutive updates"),
    Harness(td3, quick=[dict(windows=[1], rounds=1), dict(windows=[2], rounds=2, delay=2, smooth="fn"), dict(windows=[1], rounds=2, delay=1, smooth="fn", term=False), dict(windows=[1, 2], rounds=1, smooth="fn")],
            thorough=[dict(windows=[1, 2], rounds=1), dict(windows=[1], rounds=4, delay=2, smooth="fn"), dict(windows=[1], rounds=3, delay=3, smooth="fn"), dict(windows=[1], rounds=2)],
            covers=["ran", "bootstrapped", "actor updated"], functions=FN[3:7] + ["batch_experiences", "synchronize_parameters"], opts=O, bounds="batches of 1-2 windows of 1-2 transitions, 1-2 (4) consecutive updates, delays 1-2 (3)"),
    Harness(sac, quick=[dict(windows=[1], temp=0.25), dict(windows=[1]), dict(windows=[2], temp=0.5), dict(windows=[1], rounds=2, temp=0.25, term=False), dict(windows=[1, 1], term=True)],
            thorough=[dict(windows=[2, 1], temp=0.5), dict(windows=[2], rounds=2, temp=0.25, term=False), dict(windows=[2, 1], rounds=2), dict(windows=[1], rounds=3, temp=0.5), dict(windows=[1, 1], sym_gamma=True)],
            covers=["ran", "bootstrapped"], functions=FN[7:], opts=O, bounds="batches of 1-2 windows of 1-2 transitions, 1-2 (3) consecutive updates, fixed and learned temperatures"),
]
