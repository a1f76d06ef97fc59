"""P17: generalized advantages, value targets and the bookkeeping of on-policy datasets (PPO, TRPO)."""
from .common import *
from . import tab, pv
import pfrl


def gae(eps, val, gamma, lam):
    """adv of every transition, by state id"""
    out = {}
    for ep in eps:
        for i in range(len(ep)):
            a, c = 0, 1
            for j in range(i, len(ep)):
                t = ep[j]
                td = t["r"] - val(t["s"], t["h"])
                if not t["done"]:
                    td = td + gamma * val(t["n"], t["hn"])
                a = a + c * td
                c = c * gamma * lam
            out[ep[i]["s"]] = a
    return out


def learned(S, nz, adv, r):
    if nz is not None:
        S.cover("normalizer learned")
        S.check(nz.learned[r:] == [sorted(adv)], "the normalizer learns the states of each update exactly once and nothing else")


def ppo(S, envs, k, rounds=1, recurrent=False, max_len=None, fixed=None, vc=0.5, ec=0.25, mb=None, norm=False):
    """The gradients of one full-batch pass expose each transition's advantage and value target."""
    from pfrl.agents import ppo as pm

    with sym_env(S) as P:
        RngStub(S, P)
        if hasattr(pm, "_compute_explained_variance"):
            P.set(pm, "_compute_explained_variance", lambda *a, **kw: float("nan"))
        P.set(pm.random, "sample", lambda xs, k: list(xs)[:k])
        P.set(pm.random, "shuffle", lambda xs: None)
        gamma, lam = S.real("gamma", 0, 1), S.real("lambda", 0, 1)
        n = envs * k * rounds * 2 + envs
        model = (pv.PVRec if recurrent else pv.PV)(S, n)
        opt = tab.CapOpt([model.v, model.lp, model.ent])
        nz = pv.Norm(S) if norm else None
        model.offset = nz.OFF if norm else 0
        N = envs * k
        agent = pfrl.agents.PPO(model, opt, obs_normalizer=nz, gamma=gamma, lambd=lam, value_func_coef=vc, entropy_coef=ec, update_interval=N, minibatch_size=mb or N, epochs=1,
                                standardize_advantages=False, recurrent=recurrent, max_recurrent_sequence_len=max_len)
        d = pv.Driver(S, agent, envs)
        for r in range(rounds):
            for i in range(k):
                S.check(len(opt.steps) == r, "no update before the interval is reached")
                d.step(force=fixed and fixed[r * k + i])
            S.check(len(opt.steps) == r + 1, "one update of the whole dataset")
            gv, gl, ge = opt.steps[r]
            val = (lambda s, h: model.vv[s] + h) if recurrent else (lambda s, h: model.vv[s])
            adv = gae(d.flush(), val, gamma, lam)
            learned(S, nz, adv, r)
            for s in range(n):
                if s in adv:
                    S.check_eq(gv[s] * N, -2 * vc * adv[s], "value target")
                    S.check_eq(gl[s] * N, -adv[s], "advantage")
                    S.check_eq(ge[s] * N, -ec, "each transition is used once")
                else:
                    S.check_eq(gv[s], 0, "only this round's transitions are used")
                    S.check_eq(gl[s], 0, "only this round's transitions are used")
        S.cover("ran")


def trpo(S, envs, k, rounds=1, fixed=None, norm=False):
    from pfrl.agents import trpo as tm
    from torch import nn

    with sym_env(S) as P:
        RngStub(S, P)
        for m in (tm, sys.modules["pfrl.agents.ppo"]):
            if hasattr(m, "_compute_explained_variance"):
                P.set(m, "_compute_explained_variance", lambda *a, **kw: float("nan"))
        P.set(tm.random, "sample", lambda xs, k: list(xs)[:k])
        gamma, lam = S.real("gamma", 0, 1), S.real("lambda", 0, 1)
        n = envs * k * rounds * 2 + envs
        table = pv.PV(S, n)

        class Pol(nn.Module):
            def forward(self, x):
                return table(x)[0]

        class Vf(nn.Module):
            def __init__(self):
                super().__init__()
                self.v = table.v

            def forward(self, x):
                return table(x)[1]

        pol, vf = Pol(), Vf()
        pol.lp = table.lp
        opt = tab.CapOpt(vf)
        nz = pv.Norm(S) if norm else None
        table.offset = nz.OFF if norm else 0
        N = envs * k

        got = []

        class T(pfrl.agents.TRPO):
            def _update_policy(self, dataset):
                got.append([(int(b["state"][0]), b["adv"]) for b in dataset])

        if not hasattr(pfrl.agents.TRPO, "_update_policy"):
            raise core.Unsupported("TRPO has no _update_policy to observe")
        agent = T(pol, vf, opt, obs_normalizer=nz, gamma=gamma, lambd=lam, update_interval=N, vf_epochs=1, vf_batch_size=N, standardize_advantages=False)
        d = pv.Driver(S, agent, envs)
        for r in range(rounds):
            for i in range(k):
                S.check(len(opt.steps) == r, "no update before the interval is reached")
                d.step(force=fixed and fixed[r * k + i])
            S.check(len(opt.steps) == r + 1 and len(got) == r + 1, "one update of the whole dataset")
            gv = opt.steps[r][0]
            adv = gae(d.flush(), lambda s, h: table.vv[s], gamma, lam)
            learned(S, nz, adv, r)
            S.check(sorted(s for s, _ in got[r]) == sorted(adv), "each transition is used once")
            for s, a in got[r]:
                S.check_eq(a, adv[s], "advantage")
            for s in range(n):
                S.check_eq(gv[s] * N, -2 * adv[s] if s in adv else 0, "value target")
        S.cover("ran")


O = dict(timeout_ms=20000, fork_ite=True)
ASSUMPTIONS = ["the model is a table of arbitrary values, log-probabilities and entropies per state (recurrent: plus an encoding of the history), and the optimizer only records gradients",
               "a single full-batch pass is used, so that gradients expose every transition's advantage and target", "TRPO's policy step is replaced by a recorder (see P30)", "floats are reals"]
FN = ["PPO._batch_observe_train", "PPO._update_if_dataset_is_ready", "PPO._flush_last_episode", "_make_dataset", "_make_dataset_recurrent", "_add_advantage_and_value_target_to_episode",
      "_add_log_prob_and_value_to_episodes", "_add_log_prob_and_value_to_episodes_recurrent", "_limit_sequence_length", "PPO._update", "PPO._update_recurrent"]
HARNESSES = [
    Harness(ppo, quick=[dict(envs=1, k=3), dict(envs=2, k=2), dict(envs=1, k=2, rounds=2), dict(envs=1, k=3, recurrent=True), dict(envs=1, k=3, recurrent=True, max_len=2),
                        dict(envs=2, k=2, recurrent=True, max_len=1), dict(envs=1, k=2, rounds=2, recurrent=True), dict(envs=1, k=2, rounds=2, norm=True, fixed=[(0,), (1,), (0,), (2,)]), dict(envs=1, k=3, recurrent=True, max_len=2, norm=True),
                        dict(envs=3, k=2, fixed=[(0, 1, 0), (0, 0, 2)]), dict(envs=2, k=4, recurrent=True, max_len=3, fixed=[(0, 0), (1, 0), (0, 0), (0, 2)])],
            thorough=[dict(envs=1, k=5), dict(envs=2, k=3), dict(envs=3, k=2), dict(envs=1, k=2, rounds=3), dict(envs=2, k=2, rounds=2, recurrent=True, max_len=1), dict(envs=1, k=5, recurrent=True, max_len=2), dict(envs=2, k=3, recurrent=True, max_len=2)],
            covers=["ran", "terminal", "reset", "continues", "normalizer learned"], functions=FN, opts=O, bounds="1-3 environments, up to 4 (6) transitions per update, 1-2 (3) updates, every pattern of terminal/reset/continue"),
    Harness(trpo, quick=[dict(envs=1, k=3), dict(envs=1, k=3, norm=True), dict(envs=2, k=2), dict(envs=1, k=2, rounds=2)], thorough=[dict(envs=1, k=5), dict(envs=2, k=3), dict(envs=1, k=2, rounds=3)],
            covers=["ran", "terminal", "reset", "continues"], functions=["TRPO._batch_observe_train", "TRPO._update_if_dataset_is_ready", "TRPO._flush_last_episode", "TRPO._update_vf"], opts=O,
            bounds="1-2 environments, up to 4 (6) transitions per update, 1-2 (3) updates"),
]
