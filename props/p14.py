"""P14: losses of the discrete value-based agents."""
from .common import *
from . import zoo, tab
import pfrl
from pfrl.action_value import DiscreteActionValue


def _uexp(S, x):
    import math

    return core.sexp(x) if S.symbolic else math.exp(x)


def _softexp(S, q, eta):
    """sum softmax(eta q) q"""
    es = [_uexp(S, x * eta) for x in q]
    z = sum(es[1:], es[0])
    return sum((e / z * x for e, x in zip(es[1:], q[1:])), es[0] / z * q[0])


def amax(S, xs):
    """index of the first maximum (forks)"""
    for i in range(len(xs)):
        if all(bool(S.lt(xs[j], xs[i])) for j in range(i)) and all(bool(S.le(xs[j], xs[i])) for j in range(i + 1, len(xs))):
            return i
    return None


def target(S, cls, q_on_next, q_t, q_t_next, a, r, disc, term, alpha, eta):
    live = ite(S, term, 0, 1)
    mx = lambda xs: smax(S, xs)
    if cls in ("DoubleDQN", "DoublePAL"):
        # value of the target network at the online network's greedy action
        v = None
        m = mx(q_on_next)
        for on, tg in reversed(list(zip(q_on_next, q_t_next))):
            v = tg if v is None else ite(S, S.eq(on, m), tg, v)
    elif cls == "DPP":
        v = _softexp(S, q_t_next, eta)
    else:
        v = mx(q_t_next)
    t = r + disc * live * v
    if cls == "AL":
        t = t + alpha * (q_t[a] - mx(q_t))
    elif cls in ("PAL", "DoublePAL"):
        t = t + alpha * mx([q_t[a] - mx(q_t), q_t_next[a] - mx(q_t_next)])
    elif cls == "DPP":
        t = q_t[a] + t - _softexp(S, q_t, eta)
    elif cls == "DPPGreedy":
        t = q_t[a] + t - mx(q_t)
    return t


class _Prio(pfrl.replay_buffers.PrioritizedReplayBuffer):
    def update_errors(self, errors):
        self.got = list(errors)


def loss(S, cls, batch, n_actions, clip, acc, weights, windows=None, recurrent=False, fixed_gamma=False, all_terminal=False):
    """update() on a batch of windows of arbitrary lengths, with arbitrary network outputs."""
    from pfrl import agents

    with sym_env(S) as P:
        windows = windows or [1] * batch
        n_states = (sum(windows) + len(windows)) if recurrent else 2 * len(windows)
        with tab.plain_ctx():
            pass
        model = (tab.RecTable if recurrent else tab.Table)(S, "q", n_states, n_actions, head=zoo.q_functions.DiscreteActionValueHead() if not recurrent else None)
        if recurrent:
            model = _rec_head(model)
        opt = tab.CapOpt(model)
        gamma = 0.5 if fixed_gamma else S.real("gamma", 0, 1)
        alpha, eta = 0.9, 1.0
        kw = {}
        if cls in ("AL", "PAL", "DoublePAL"):
            alpha = 0.75 if fixed_gamma else S.real("alpha", 0, 1)
            kw["alpha"] = alpha
        if cls == "DPP":
            eta = 0.5
            kw["eta"] = eta
        buf = _Prio(1000) if weights else (pfrl.replay_buffers.EpisodicReplayBuffer() if recurrent else pfrl.replay_buffers.ReplayBuffer(1000))
        C = {"DPPGreedy": agents.dpp.DPPGreedy}.get(cls) or zoo.DQNS[cls]
        agent = C(model, opt, buf, gamma, zoo.FixedExplorer(), replay_start_size=100, minibatch_size=1, clip_delta=clip, batch_accumulator=acc,
                  phi=zoo.phi, recurrent=recurrent, episodic_update_len=None, **kw)
        base = model.table if recurrent else model
        tm = agent.target_model.table if recurrent else agent.target_model
        tw, tv = tab.param(S, "tq", (n_states, n_actions))
        tm.w = tw
        tm.v = tv
        rows = lambda v, i: v[i * n_actions : (i + 1) * n_actions]
        exps, want = [], []
        sid = 0
        for b, L in enumerate(windows):
            w = []
            if recurrent:
                h = [S.real("h%d_%d" % (b, i), -2, 2) for i in range(2)]
            for i in range(L):
                s = sid if (i == 0 or not recurrent) else sid
                a = (S.choice("a%d_%d" % (b, i), n_actions) if sum(windows) < 3 and not all_terminal else (b + i) % n_actions) if (i == 0 or recurrent) else 0
                r = S.real("r%d_%d" % (b, i), -3, 3)
                term = (all_terminal or S.flag("term%d_%d" % (b, i))) if i == L - 1 else False
                st = np.array([s if (i == 0 or recurrent) else 0], dtype=np.float32)
                ns = np.array([s + 1], dtype=np.float32)
                t = dict(state=st, action=np.int64(a), reward=r, next_state=ns, next_action=None, is_state_terminal=term)
                if recurrent:
                    for kk, hv in (("recurrent_state", h[0] if i == 0 else None), ("next_recurrent_state", h[1] if i == 0 else None)):
                        t[kk] = hv if hv is None else (senv.obj_array([hv]).reshape(1, 1) if S.symbolic else np.array([[hv]], dtype=np.float32))
                    want.append(dict(s=s, ns=s + 1, a=a, r=r, disc=gamma, term=term, h=h[0], nh=h[1], b=b, i=i))
                    sid += 1
                w.append(t)
            if not recurrent:
                R, g = 0, 1
                for i in range(L):
                    R = R + g * w[i]["reward"]
                    g = g * gamma
                want.append(dict(s=sid, ns=sid + 1, a=int(w[0]["action"]), r=R, disc=g, term=w[-1]["is_state_terminal"], h=0, nh=0))
                sid += 2
            else:
                sid += 1
            exps.append(w)
        ws = [S.real("w%d" % b, 0, 2) for b in range(len(windows))] if weights else None
        if not recurrent:
            # states actually used: 2b for the window's first state, 2b+1 for its last next state
            for b, w in enumerate(exps):
                for i, t in enumerate(w):
                    t["state"] = np.array([2 * b if i == 0 else 0], dtype=np.float32)
                    t["next_state"] = np.array([2 * b + 1 if i == len(w) - 1 else 0], dtype=np.float32)
                if ws:
                    w[0]["weight"] = ws[b]
        errs = [] if not weights and not recurrent else None
        if recurrent:
            agent.update_from_episodes(exps)
        else:
            agent.update(exps, errors_out=errs)
        # ---- oracle
        tot, n = 0, len(want)
        grads = {}
        ds = []
        for j, x in enumerate(want):
            q = [v + x["h"] for v in rows(base.v, x["s"])]
            qn = [v + x["nh"] for v in rows(base.v, x["ns"])]
            tq = [v + x["h"] for v in rows(tv, x["s"])]
            tqn = [v + x["nh"] for v in rows(tv, x["ns"])]
            t = target(S, cls, qn, tq, tqn, x["a"], x["r"], x["disc"], x["term"], alpha, eta)
            d = q[x["a"]] - t
            ds.append(d)
            wgt = ws[j] if ws else 1
            tot = tot + wgt * (tab.huber(S, d) if clip else d * d / 2)
            g = wgt * (tab.clip1(S, d) if clip else d)
            key = (x["s"], x["a"])
            grads[key] = grads.get(key, 0) + g / (n if acc == "mean" else 1)
        if acc == "mean":
            tot = tot / n
        S.check(len(agent.loss_record) == 1, "one loss record per update")
        S.check_eq(agent.loss_record[0], tot, "the loss is the (weighted, clipped) error to the published target")
        S.check(len(opt.steps) == 1, "one optimizer step per update")
        g = opt.steps[0][0]
        for s in range(n_states):
            for a in range(n_actions):
                S.check_eq(g[s * n_actions + a], grads.get((s, a), 0), "gradients reach exactly the chosen action values and never the target")
        S.check(tm.w.grad is None, "no gradient flows into the target network")
        e = buf.got if weights else errs
        if e is not None:
            S.check(len(e) == n, "one error per experience")
            for x, d in zip(e, ds):
                S.check_eq(x, abs(d), "reported errors are the absolute differences")
        for x, y in zip(elems(tm.w), tv):
            S.check_eq(x, y, "the target network is unchanged")
        S.check(agent.optim_t == 1, "one update is counted")
        S.cover("ran")


def _rec_head(table):
    from torch import nn

    class R(nn.Module):
        def __init__(self):
            super().__init__()
            self.table = table

        def forward(self, x, state):
            y, st = self.table(x, state)
            return DiscreteActionValue(y.data), st

    return R()


ASSUMPTIONS = ["networks are tables with arbitrary real outputs per state (any outputs on the states of a batch)",
               "the persistent advantage of PAL and DoublePAL uses the next state's advantage also at terminal transitions, as the code documents no exception; only the Bellman part is cut",
               "floats are reals"]
FN = ["DQN.update", "DQN.update_from_episodes", "DQN._compute_loss", "DQN._compute_y_and_t", "DQN._compute_target_values", "DoubleDQN._compute_target_values", "AL._compute_y_and_t", "PAL._compute_y_and_t",
      "DoublePAL._compute_y_and_t", "AbstractDPP._compute_y_and_t", "compute_value_loss", "compute_weighted_value_loss", "batch_experiences", "batch_recurrent_experiences", "DiscreteActionValue"]
CL = ("DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "DPPGreedy")
def k(cls, windows, clip=False, acc="mean", weights=False, n_actions=2, **kw):
    return dict(cls=cls, batch=len(windows), n_actions=n_actions, clip=clip, acc=acc, weights=weights, windows=windows, **kw)


Q = [k(c, [1], cl) for c in CL for cl in (True, False)]
Q += [k(c, [2, 1], acc=a, weights=w, fixed_gamma=True) for c in ("DQN", "DoubleDQN") for a, w in (("mean", True), ("sum", False))]
Q += [k(c, [2], weights=True, fixed_gamma=True) for c in CL if c != "DPP"]
Q += [k(c, [1, 1], weights=c != "AL", fixed_gamma=True, all_terminal=True) for c in ("AL", "PAL", "DoublePAL", "DPPGreedy", "DPP")]
Q += [k("DQN", [1, 1], True, acc=a, weights=w, fixed_gamma=True, all_terminal=True) for a in ("mean", "sum") for w in (True, False)]
Q += [k("DQN", [3], True, weights=True, n_actions=3)]
Q += [k(c, w, recurrent=True, fixed_gamma=True) for c in ("DQN", "DoubleDQN", "AL", "DPPGreedy") for w in ([1, 1], [2])]
Q += [k(c, w, recurrent=True, fixed_gamma=True) for c in ("PAL", "DoublePAL") for w in ([1],)]
Q += [k(c, [2], recurrent=True, fixed_gamma=True, all_terminal=True) for c in ("PAL", "DoublePAL")]
HARNESSES = [
    Harness(loss, quick=Q,
            thorough=Q + [k(c, [2], cl, "sum", w, 3) for c in CL if c != "DPP" for cl in (True, False) for w in (True, False)]
            + [k(c, [1, 3, 2], weights=True, fixed_gamma=True) for c in ("DQN", "DoubleDQN", "AL", "DPPGreedy")]
            + [k(c, [1, 1], True, weights=True, fixed_gamma=True) for c in ("DQN", "DoubleDQN")]
            + [k(c, [1, 2], acc=a, recurrent=True, fixed_gamma=True) for c in CL if c != "DPP" for a in ("mean", "sum")],
            covers=["ran"], functions=FN,
            bounds="batches of 1-2 (3) experiences of 1-3 transitions (sequences of 1-2 for recurrent models), 2-3 actions, all network outputs, rewards, discount rates, terminal flags, importance weights; 7 agents",
            opts=dict(timeout_ms=20000, fork_ite=True)),
]
