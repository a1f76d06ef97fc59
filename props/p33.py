"""P33: ACER - Retrace targets, truncated importance weights with bias correction, trust region."""
import math

import torch
from torch import nn

from .common import *
from . import tab
import pfrl


def probs(S, name, A):
    """Probabilities of A actions (each at least 1/16) and their logarithms.  The probabilities are
    the inputs, so that replay is exact."""
    ps = [S.real("%s%d" % (name, i), 0.0625, 1) for i in range(A - 1)]
    last = 1 - sum(ps[1:], ps[0])
    S.assume(last >= 0.0625)
    ps.append(last)
    return ps, [blog(S, p) for p in ps]


def blog(S, x):
    if not S.symbolic:
        return math.log(x)
    import z3

    l = core.slog(x)
    S.lemma(core.toreal(l), z3.And(core.toreal(l) >= -3, core.toreal(l) <= 0))
    return l


class PiTable(nn.Module):
    def __init__(self, S, name, n, A, scale=1):
        super().__init__()
        rows = [probs(S, "%s%d_" % (name, i), A) for i in range(n)]
        self.P = [r[0] for r in rows]
        self.L = [r[1] for r in rows]
        self.w = nn.Parameter(tensor(S, [l for r in rows for l in r[1]]).reshape(n, A))

    def forward(self, x):
        return torch.distributions.Categorical(logits=self.w[tab.index(x)])

    def p(self, s):
        return self.P[s]


class QTable(nn.Module):
    def __init__(self, S, n, A):
        super().__init__()
        self.w, v = tab.param(S, "q", (n, A), -3, 3)
        self.v = [v[i * A : (i + 1) * A] for i in range(n)]

    def forward(self, x):
        return pfrl.action_value.DiscreteActionValue(self.w[tab.index(x)])


class Replay:
    """Replay buffer stand-in: records appends, hands out a given episode."""

    def __init__(self, episode):
        self.episode, self.log, self.asked = episode, [], []

    def append(self, **kw):
        self.log.append(("append", kw))

    def stop_current_episode(self, env_id=0):
        self.log.append(("stop",))

    def __len__(self):
        return 100

    def sample_episodes(self, n, max_len=None):
        self.asked.append((n, max_len))
        return [self.episode]


def gmin(S, a, b):
    return a if S.le(a, b) else b


def gpos(S, a):
    return a if S.le(0, a) else 0.0


class Agent(pfrl.agents.ACER):
    def assert_shared_memory(self):
        pass


def oracle(S, steps, R, p, q, A, gamma, trunc, delta, avg, opc, beta=0.0, logp=None):
    """steps: list of (state, action, reward, mu or None). Returns (d/dlogits, d/dq) per state, summed losses."""
    gx = {}
    gq = {}
    Qret = Qopc = R
    for s, a, r, mu in reversed(steps):
        ps, qs = p(s), q(s)
        v = sum((ps[j] * qs[j] for j in range(A)), 0.0)
        Qret = r + gamma * Qret
        Qopc = r + gamma * Qopc
        adv = (Qopc if opc else Qret) - v
        g = [0.0] * A
        if mu is None:
            g[a] = g[a] - adv
            c = 1.0
        else:
            rho = ps[a] / mu[a]
            w = rho if trunc is None else gmin(S, rho, trunc)
            g[a] = g[a] - w * adv
            if trunc is not None:
                for b in range(A):
                    wb = gpos(S, 1 - trunc * mu[b] / ps[b])
                    g[b] = g[b] - wb * ps[b] * (qs[b] - v)
            c = gmin(S, rho, 1.0)
        if delta is not None:
            k = avg(s)
            kg = sum((k[j] * g[j] for j in range(A)), 0.0)
            kk = sum((k[j] * k[j] for j in range(A)), 0.0)
            if S.lt(delta, kg):
                S.cover("trust region active")
                g = [g[j] - (kg - delta) / kk * k[j] for j in range(A)]
            else:
                S.cover("trust region inactive")
        tot = sum(g, 0.0)
        gx[s] = [g[j] - ps[j] * tot for j in range(A)]
        if beta:
            lp = logp(s)
            H = -sum((ps[j] * lp[j] for j in range(A)), 0.0)
            gx[s] = [gx[s][j] + beta * ps[j] * (lp[j] + H) for j in range(A)]
        gq[s] = [0.0] * A
        gq[s][a] = qs[a] - Qret
        Qret = c * (Qret - qs[a]) + v
        Qopc = Qopc - qs[a] + v
    return gx, gq


def discrete(S, T, mode, trunc=2.0, delta=None, opc=False, norm=True, beta=0.0, end=None, A=2, acts_=None):
    """Online update after T steps, or replay of a T-step episode with other behaviour probabilities."""
    with sym_env(S) as P:
        gamma = 0.5 if T > 1 else S.real("gamma", 0, 1)
        n = T + 1
        pi, qf = PiTable(S, "E", n, A), QTable(S, n, A)
        model = pfrl.agents.acer.ACERDiscreteActionHead(pi, qf)
        opt = tab.CapOpt(model)
        acts, mus, ep = [], [], []
        replay = mode == "replay"
        end = end if end is not None else S.choice("end", 3 if not replay else 2)  # 1: terminal, 2: reset
        rs = [S.real("r%d" % t, -3, 3) for t in range(T)]
        if replay:
            for t in range(T):
                mu = PiTable(S, "M%d_" % t, 1, A)
                with torch.no_grad():
                    d = torch.distributions.Categorical(logits=mu.w.detach())
                a = acts_[t] if acts_ else S.choice("a%d" % t, A)
                acts.append(a)
                mus.append(mu.p(0))
                ep.append(dict(state=np.array([t], dtype=np.float32), action=np.int64(a), reward=rs[t], next_state=np.array([t + 1], dtype=np.float32), is_state_terminal=end == 1 and t == T - 1, mu=d))
        buf = Replay(ep)
        agent = Agent(model, opt, t_max=T, gamma=gamma, replay_buffer=buf, beta=beta, pi_loss_coef=2.0, Q_loss_coef=0.25, use_trust_region=delta is not None, trust_region_delta=delta if delta is not None else 1.0,
                      trust_region_alpha=0.5, truncation_threshold=trunc, disable_online_update=replay, n_times_replay=1 if replay else 0, replay_start_size=1, normalize_loss_by_steps=norm, use_Q_opc=opc)
        avgp = pi.p
        if delta is not None:
            bar = PiTable(S, "B", n, A)
            with torch.no_grad():
                agent.shared_average_model.pi.w.copy_(bar.w.detach())
            avgp = bar.p
        sampled = []

        def sample(self, sample_shape=torch.Size()):
            sampled.append(S.choice("s%d" % len(sampled), A))
            return torch.tensor([sampled[-1]])

        P.set(torch.distributions.Categorical, "sample", sample)
        if replay:
            # one step triggers the replay
            agent.act(np.array([0], dtype=np.float32))
            agent.observe(np.array([1], dtype=np.float32), 0.5, True, False)
            S.check(len(opt.steps) == 1, "one replay update")
            S.check(buf.asked == [(1, T)], "one stored episode of at most t_max steps is drawn")
            S.cover("replayed")
        else:
            for t in range(T):
                S.check(len(opt.steps) == 0, "no update before t_max")
                a = int(agent.act(np.array([t], dtype=np.float32)))
                S.check(a == sampled[-1], "the sampled action is taken")
                acts.append(a)
                mus.append(None)
                last = t == T - 1
                agent.observe(np.array([t + 1], dtype=np.float32), rs[t], last and end == 1, last and end == 2)
                kw = buf.log[t][1]
                S.check(int(kw["state"][0]) == t and int(kw["action"]) == a and int(kw["next_state"][0]) == t + 1 and bool(kw["is_state_terminal"]) == (last and end == 1), "the transition is stored as it happened")
                S.check_eq(kw["reward"], rs[t], "the reward is stored")
                pp = elems(kw["mu"].probs)
                for j in range(A):
                    S.check_eq(pp[j], pi.p(t)[j], "the behaviour distribution is stored with the transition")
            S.check(len(opt.steps) == 1, "one update after t_max steps or at an episode's end")
            S.check([x[0] for x in buf.log] == ["append"] * T + (["stop"] if end else []), "an episode's end closes the stored episode")
            S.cover("online")
        q = lambda s: qf.v[s]
        if end == 1:
            R = 0.0
            S.cover("terminal")
        else:
            R = sum((pi.p(T)[j] * q(T)[j] for j in range(A)), 0.0)
            S.cover("bootstrapped")
        if delta is not None:
            got, want = elems(agent.shared_average_model.pi.w), [0.5 * bar.L[i][j] + 0.5 * pi.L[i][j] for i in range(n) for j in range(A)]
            for g, w in zip(got, want):
                S.check_eq(g, w, "the average policy moves towards the policy by 1 - alpha per update")
        gx, gq = oracle(S, [(t, acts[t], rs[t], mus[t]) for t in range(T)], R, pi.p, q, A, gamma, trunc, delta, avgp, opc, beta, lambda s: pi.L[s])
        names = [k for k, _ in model.named_parameters()]
        grads = dict(zip(names, opt.steps[0]))
        den = T if norm else 1
        for s in range(n):
            for j in range(A):
                want = gx[s][j] * 2.0 / den if s in gx else 0.0
                S.check_eq(grads["pi.w"][s * A + j], want, "policy gradient")
                want = gq[s][j] * 0.25 / den if s in gq else 0.0
                S.check_eq(grads["q.w"][s * A + j], want, "value gradient (Retrace target)")


class CD(torch.distributions.Normal):
    """Continuous policy stand-in: log-probabilities of K actions from a table; sampling is the
    solver's choice."""

    def __init__(self, row, draw, s):
        one = torch.ones(1, 1)
        super().__init__(one * s, one, validate_args=False)
        self.row, self.draw = row, draw

    def log_prob(self, a):
        return self.row[tab.index(a[:, :1])].reshape(1)

    def sample(self, sample_shape=torch.Size()):
        return self.draw()

    def entropy(self):
        return torch.zeros(1)


def cdens(S, name):
    e = S.real(name, 0.0625, 4)
    if not S.symbolic:
        return e, math.log(e)
    return e, core.slog(e)


def continuous(S, T, mode, trunc=2.0, opc=False, dim=1, nadv=1, end=None, K=2, acts_=None):
    """ACER with a continuous action space: densities of K actions are arbitrary."""
    with sym_env(S) as P:
        gamma = 0.5
        n = T + 1
        replay = mode == "replay"
        end = end if end is not None else S.choice("end", 2)
        draws = {}

        def pick(key):
            if key not in draws:
                draws[key] = S.choice("d%s_%s" % key, K)
            return draws[key]

        def av(i):
            return torch.tensor([[float(i)] + [0.0] * (dim - 1)])

        dens = [[cdens(S, "E%d_%d" % (i, j)) for j in range(K)] for i in range(n)]

        class Pi(nn.Module):
            def __init__(self):
                super().__init__()
                self.w = nn.Parameter(tensor(S, [d[1] for r in dens for d in r]).reshape(n, K))

            def forward(self, x):
                s = int(x.reshape(-1)[0])
                cnt = [0]

                def draw():
                    cnt[0] += 1
                    return av(pick((s, 0 if replay or cnt[0] == 1 else 1)))

                return CD(self.w[s], draw, s)

        wv, vv = tab.param(S, "v", (n, 1), -3, 3)
        wa, va = tab.param(S, "adv", (n, K), -3, 3)

        class V(nn.Module):
            def __init__(self):
                super().__init__()
                self.w = wv

            def forward(self, x):
                return self.w[tab.index(x)]

        class Adv(nn.Module):
            def __init__(self):
                super().__init__()
                self.w = wa

            def forward(self, x):
                s, a = x
                return self.w[int(s.reshape(-1)[0]), int(a.reshape(-1)[0])].reshape(1, 1)

        model = pfrl.agents.acer.ACERContinuousActionHead(Pi(), V(), Adv(), n=nadv)
        opt = tab.CapOpt(model)
        rs = [S.real("r%d" % t, -3, 3) for t in range(T)]
        acts, mus, ep = [], [], []
        if replay:
            for t in range(T):
                m = [cdens(S, "M%d_%d" % (t, j)) for j in range(K)]
                mus.append([x[0] for x in m])
                acts.append(acts_[t] if acts_ else S.choice("a%d" % t, K))
                ep.append(dict(state=np.array([t], dtype=np.float32), action=av(acts[t])[0].numpy(), reward=rs[t], next_state=np.array([t + 1], dtype=np.float32), is_state_terminal=end == 1 and t == T - 1, mu=CD(tensor(S, [x[1] for x in m]), None, 0)))
        buf = Replay(ep)
        agent = Agent(model, opt, t_max=T, gamma=gamma, replay_buffer=buf, beta=0, pi_loss_coef=2.0, Q_loss_coef=0.25, use_trust_region=False, truncation_threshold=trunc, disable_online_update=replay,
                      n_times_replay=1 if replay else 0, replay_start_size=1, use_Q_opc=opc)
        P.set(copy_mod(), "soft_copy_param", lambda **k: None)
        if replay:
            agent.act(np.array([0], dtype=np.float32))
            agent.observe(np.array([1], dtype=np.float32), 0.5, True, False)
            S.cover("continuous replay")
        else:
            for t in range(T):
                a = agent.act(np.array([t], dtype=np.float32))
                acts.append(int(a[0]))
                mus.append(None)
                agent.observe(np.array([t + 1], dtype=np.float32), rs[t], t == T - 1 and end == 1, False)
            S.cover("continuous online")
        S.check(len(opt.steps) == 1, "one update")
        gpi = [[0.0] * K for _ in range(n)]
        gv = [0.0] * n
        ga = [[0.0] * K for _ in range(n)]
        Qret = Qopc = 0.0 if end == 1 else vv[T]
        for t in reversed(range(T)):
            a = acts[t]
            base = draws.get((t, 0 if replay else 1), 0)  # the action(s) drawn to centre the advantage
            q = lambda b: vv[t] + va[t * K + b] - va[t * K + base]
            Qret = rs[t] + gamma * Qret
            Qopc = rs[t] + gamma * Qopc
            adv = (Qopc if opc else Qret) - vv[t]
            rho = 1.0 if mus[t] is None else dens[t][a][0] / mus[t][a]
            if mus[t] is None or trunc is None:
                gpi[t][a] = gpi[t][a] - rho * adv
            else:
                gpi[t][a] = gpi[t][a] - gmin(S, rho, trunc) * adv
                d = draws[(t, 0)]
                w = gpos(S, 1 - trunc * mus[t][d] / dens[t][d][0])
                gpi[t][d] = gpi[t][d] - w * (q(d) - vv[t])
            clip = gmin(S, rho, 1.0)
            vt = clip * (Qret - q(a)) + vv[t]
            gv[t] = (q(a) - Qret) + (vv[t] - vt)
            ga[t][a] = ga[t][a] + (q(a) - Qret)
            ga[t][base] = ga[t][base] - (q(a) - Qret)
            if dim == 2 and t > 0 and mus[t] is not None:
                root = core.ssqrt(rho) if S.symbolic else math.sqrt(rho)
                clip = gmin(S, root, 1.0)
            Qret = clip * (Qret - q(a)) + vv[t]
            Qopc = Qopc - q(a) + vv[t]
        names = [k for k, _ in model.named_parameters()]
        grads = dict(zip(names, opt.steps[0]))
        for s in range(n):
            for j in range(K):
                S.check_eq(grads["pi.w"][s * K + j], gpi[s][j] * 2.0 / T, "policy gradient (continuous)")
                S.check_eq(grads["adv.w"][s * K + j], ga[s][j] * 0.25 / T, "advantage gradient (Retrace target)")
            S.check_eq(grads["v.w"][s], gv[s] * 0.25 / T, "state value gradient (truncated Retrace target)")


def trust(S, dim, indep):
    """compute_loss_with_kl_constraint on Gaussian policies."""
    import pfrl.agents.acer as M

    with sym_env(S):
        loc, lv = tab.param(S, "m", (1, dim), -2, 2)
        sc, sv = tab.param(S, "s", (1, dim), 0.25, 2)
        m2 = [S.real("M%d" % i, -2, 2) for i in range(dim)]
        s2 = [0.5, 1.0][:dim]
        d, o = torch.distributions.Normal(loc * 1.0, sc * 1.0), torch.distributions.Normal(tensor(S, m2).reshape(1, dim), tensor(S, s2).reshape(1, dim))
        if indep:
            wd, wo = torch.distributions.Independent(d, 1), torch.distributions.Independent(o, 1)
        else:
            wd, wo = d, o
        g1 = [S.real("g%d" % i, -2, 2) for i in range(dim)]
        g2 = [S.real("h%d" % i, -2, 2) for i in range(dim)]
        loss0 = (d.loc * tensor(S, g1).reshape(1, dim)).sum() + (d.scale * tensor(S, g2).reshape(1, dim)).sum()
        delta = S.real("delta", 0, 2)
        loss, kl = M.compute_loss_with_kl_constraint(wd, wo, loss0.reshape(1), delta)
        S.check(tuple(loss.shape) == (1,), "the loss keeps its shape")
        got = torch.autograd.grad([loss.sum()], [loc, sc])
        got = [elems(g) for g in got]
        km = [-(lv[i] - m2[i]) / (sv[i] * sv[i]) for i in range(dim)]
        ks = [-(1 / sv[i] - (s2[i] * s2[i] + (m2[i] - lv[i]) * (m2[i] - lv[i])) / (sv[i] * sv[i] * sv[i])) for i in range(dim)]
        kg = sum((km[i] * g1[i] + ks[i] * g2[i] for i in range(dim)), 0.0)
        kk = sum((km[i] * km[i] + ks[i] * ks[i] for i in range(dim)), 0.0)
        f = 0.0
        if S.lt(0, kk) and S.lt(delta, kg):
            S.cover("gaussian trust region active")
            f = (kg - delta) / kk
        else:
            S.cover("gaussian trust region inactive")
        for i in range(dim):
            S.check_eq(got[0][i], g1[i] - f * km[i], "mean gradient projected on the trust region")
            S.check_eq(got[1][i], g2[i] - f * ks[i], "scale gradient projected on the trust region")


def copy_mod():
    from pfrl.utils import copy_param

    return copy_param


FN = ["ACER.act/observe", "ACER.update_on_policy", "ACER.update_from_replay", "ACER.compute_loss", "compute_policy_gradient_loss", "compute_policy_gradient_full_correction", "compute_policy_gradient_sample_correction", "compute_importance", "compute_loss_with_kl_constraint", "ACERDiscreteActionHead.forward", "ACERContinuousActionHead.forward"]
ASSUMPTIONS = ["policy and critic are tables of arbitrary probabilities (each at least 1/16, logits normalized) and values", "the optimizer only records gradients; assert_shared_memory is off", "the replay buffer is a stand-in that hands out one arbitrary episode", "real arithmetic; exp/log related by exp(log x) = x and exp(a+b) = exp(a)exp(b)"]
O = dict(timeout_ms=60000, cancel=True, expsplit=True, fork_ite=True)
HARNESSES = [
    Harness(discrete, quick=[dict(T=1, mode="online"), dict(T=2, mode="online", norm=False, end=0), dict(T=2, mode="online", end=1, opc=True), dict(T=2, mode="online", end=2), dict(T=1, mode="replay", end=0), dict(T=1, mode="replay", end=1), dict(T=1, mode="replay", trunc=None), dict(T=2, mode="replay", trunc=None, end=1, acts_=(1, 0)), dict(T=2, mode="replay", trunc=None, end=0, acts_=(0, 0)), dict(T=1, mode="online", delta=0.5, end=0), dict(T=1, mode="online", delta=0.5, end=1), dict(T=1, mode="replay", trunc=None, delta=0.5, end=1, acts_=(0,)), dict(T=1, mode="online", beta=0.5)],
            thorough=[dict(T=2, mode="replay", end=0), dict(T=2, mode="replay", end=1), dict(T=2, mode="replay", trunc=None), dict(T=1, mode="replay", delta=0.5, end=1), dict(T=1, mode="replay", delta=0.5, end=0), dict(T=2, mode="online", delta=0.5, end=0), dict(T=3, mode="online", end=0), dict(T=2, mode="replay", trunc=None, opc=True)],
            covers=["online", "replayed", "terminal", "bootstrapped", "trust region active", "trust region inactive"], functions=FN, opts=O, bounds="1-2 steps (3 online), 2 actions, truncation 2 or none"),
    Harness(continuous, quick=[dict(T=1, mode="online"), dict(T=2, mode="online", opc=True), dict(T=1, mode="replay", end=0), dict(T=1, mode="replay", trunc=None), dict(T=2, mode="replay", trunc=None, dim=2, end=1, acts_=(1, 0)), dict(T=1, mode="replay", nadv=2, end=1)],
            thorough=[dict(T=2, mode="replay", end=0), dict(T=2, mode="replay", trunc=None, end=0, opc=True), dict(T=2, mode="replay", trunc=None, dim=2)], covers=["continuous online", "continuous replay"], functions=FN, opts=O, bounds="1-2 steps, 2 actions with arbitrary densities"),
    Harness(trust, quick=[dict(dim=1, indep=False)], thorough=[dict(dim=1, indep=True), dict(dim=2, indep=True)], covers=["gaussian trust region active", "gaussian trust region inactive"], functions=FN, opts=O, bounds="1-2 dimensions"),
]
