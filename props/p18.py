"""P18: returns and losses of A2C, A3C and REINFORCE."""
from .common import *
from . import tab, pv
import pfrl
import warnings


def a2c(S, envs, k, rounds=1, use_gae=False, fixed=None, pc=1.0, vc=0.5, ec=0.25):
    with sym_env(S) as P:
        RngStub(S, P)
        warnings.simplefilter("ignore")
        gamma, lam = S.real("gamma", 0, 1), S.real("lambda", 0, 1)
        n = envs * k * rounds * 2 + envs
        model = pv.PV(S, n)
        opt = tab.CapOpt([model.v, model.lp, model.ent])
        N = envs * k
        agent = pfrl.agents.A2C(model, opt, gamma=gamma, num_processes=envs, update_steps=k, use_gae=use_gae, tau=lam, pi_loss_coef=pc, v_loss_coef=vc, entropy_coeff=ec)
        d = pv.Driver(S, agent, envs)
        for r in range(rounds):
            hist = [[] for _ in range(envs)]
            for i in range(k):
                S.check(len(opt.steps) == r, "no update before the rollout is complete")
                d.step(force=fixed and fixed[r * k + i])
                S.check(len(opt.steps) == r + (i == k - 1), "one update per rollout")
                for e in range(envs):
                    hist[e].append((d.last[e], bool(d.outs[e])))
            gv, gl, ge = opt.steps[r]
            used = set()
            for e in range(envs):
                R = model.vv[hist[e][-1][0]["n"]]
                A = 0
                for t, end in reversed(hist[e]):
                    v = model.vv[t["s"]]
                    vn = model.vv[t["n"]]
                    if use_gae:
                        A = t["r"] - v + (0 if end else gamma * vn + gamma * lam * A)
                        adv = A
                    else:
                        R = t["r"] + (0 if end else gamma * R)
                        adv = R - v
                    s = t["s"]
                    used.add(s)
                    S.check_eq(gv[s] * N, -2 * vc * adv, "value error of the return")
                    S.check_eq(gl[s] * N, -pc * adv, "policy gradient weighted by the advantage")
                    S.check_eq(ge[s] * N, -ec, "entropy bonus")
            for s in range(n):
                if s not in used:
                    S.check_eq(gv[s], 0, "only the rollout's states get gradients")
                    S.check_eq(gl[s], 0, "only the rollout's states get gradients")
        S.cover("ran")


def a3c(S, steps, t_max, recurrent=False, keep=False, norm=False, pc=0.75, vc=0.5, beta=0.25, fixed=None):
    with sym_env(S) as P:
        RngStub(S, P)
        gamma = S.real("gamma", 0, 1)
        n = steps * 2 + 1
        model = (pv.PVRec if recurrent else pv.PV)(S, n)
        opt = tab.CapOpt([model.v, model.lp, model.ent])
        agent = pfrl.agents.A3C(model, opt, t_max=t_max, gamma=gamma, beta=beta, pi_loss_coef=pc, v_loss_coef=vc, keep_loss_scale_same=keep, normalize_grad_by_t_max=norm, recurrent=recurrent)
        agent.assert_shared_memory = lambda: None
        d = pv.Driver(S, agent, 1, batch=False)
        roll, nu = [], 0
        val = (lambda s, h: model.vv[s] + h) if recurrent else (lambda s, h: model.vv[s])
        for i in range(steps):
            d.step(force=fixed and fixed[i])
            roll.append(d.last[0])
            out = d.outs[0]
            if out or len(roll) == t_max:
                nu += 1
                S.check(len(opt.steps) == nu, "an update at every t_max steps and episode end")
                gv, gl, ge = opt.steps[-1]
                L = len(roll)
                f = 1.0
                if keep and L < t_max:
                    f = f * t_max / L
                if norm:
                    f = f / L
                lt = roll[-1]
                R = 0 if out == 1 else val(lt["n"], lt["hn"])
                used = set()
                for t in reversed(roll):
                    R = t["r"] + gamma * R
                    s = t["s"]
                    used.add(s)
                    adv = R - val(s, t["h"])
                    S.check_eq(gv[s], -vc * f * adv, "value error of the bootstrapped return")
                    S.check_eq(gl[s], -pc * f * adv, "policy gradient weighted by the advantage")
                    S.check_eq(ge[s], -pc * f * beta, "entropy bonus")
                for s in range(n):
                    if s not in used:
                        S.check_eq(gv[s], 0, "only the rollout's states get gradients")
                        S.check_eq(gl[s], 0, "only the rollout's states get gradients")
                roll = []
            else:
                S.check(len(opt.steps) == nu, "no other updates")
        S.cover("ran")


def reinforce(S, steps, batchsize, sep=False, recurrent=False, beta=0.25, fixed=None):
    with sym_env(S) as P:
        RngStub(S, P)
        warnings.simplefilter("ignore")
        n = steps * 2 + 1
        model = (pv.PVRec if recurrent else pv.PV)(S, n, value=False)
        opt = tab.CapOpt([model.lp, model.ent])
        agent = pfrl.agents.REINFORCE(model, opt, beta=beta, batchsize=batchsize, backward_separately=sep, recurrent=recurrent)
        d = pv.Driver(S, agent, 1, batch=False)
        ep, eps, nu = [], [], 0
        for i in range(steps):
            d.step(force=fixed and fixed[i])
            ep.append(d.last[0])
            out = d.outs[0]
            if out:
                if out == 1:
                    eps.append(ep)
                ep = []
            if len(eps) == batchsize:
                nu += 1
                S.check(len(opt.steps) == nu, "one update per batchsize complete episodes")
                gl, ge = opt.steps[-1]
                used = set()
                for e in eps:
                    R = 0
                    for t in reversed(e):
                        R = R + t["r"]
                        s = t["s"]
                        used.add(s)
                        S.check_eq(gl[s] * batchsize, -R, "the log-probability of each action is weighted by the rewards that follow it")
                        S.check_eq(ge[s] * batchsize, -beta, "entropy bonus")
                for s in range(n):
                    if s not in used:
                        S.check_eq(gl[s], 0, "incomplete episodes are not used")
                eps = []
                S.cover("updated")
            else:
                S.check(len(opt.steps) == nu, "no other updates")
        S.cover("ran")


O = dict(timeout_ms=20000, fork_ite=True)
ASSUMPTIONS = ["the model is a table of arbitrary values, log-probabilities and entropies per state (recurrent: plus an encoding of the history), and the optimizer only records gradients",
               "A2C treats a reset as an episode end and REINFORCE discards episodes cut by a reset, as their warnings document", "A3C's shared-memory assertion is switched off", "floats are reals"]
C = ["ran", "terminal", "reset", "continues"]
HARNESSES = [
    Harness(a2c, quick=[dict(envs=1, k=3, use_gae=g) for g in (False, True)] + [dict(envs=2, k=2, use_gae=g) for g in (False, True)] + [dict(envs=1, k=2, rounds=2, use_gae=g) for g in (False, True)],
            thorough=[dict(envs=e, k=k, rounds=r, use_gae=g) for e, k, r in ((1, 5, 1), (2, 3, 1), (3, 2, 1), (1, 2, 3), (2, 1, 3)) for g in (False, True)],
            covers=C, functions=["A2C._compute_returns", "A2C.update", "A2C._batch_act_train", "A2C._batch_observe_train", "A2C._flush_storage"], opts=O,
            bounds="1-2 (3) environments, rollouts of 2-3 (5) steps, 1-2 (3) updates, every pattern of episode ends"),
    Harness(a3c, quick=[dict(steps=4, t_max=3), dict(steps=4, t_max=2, keep=True), dict(steps=3, t_max=4, norm=True), dict(steps=4, t_max=2, recurrent=True), dict(steps=3, t_max=3, recurrent=True, keep=True, norm=True)],
            thorough=[dict(steps=6, t_max=t, recurrent=r, keep=k) for t in (1, 2, 3, 5) for r in (False, True) for k in (False, True)],
            covers=C, functions=["A3C.update", "A3C._act_train", "A3C._observe_train", "copy_grad", "copy_param"], opts=O, bounds="up to 4 (6) steps, t_max 2-4 (5), every pattern of episode ends"),
    Harness(reinforce, quick=[dict(steps=4, batchsize=1), dict(steps=4, batchsize=2), dict(steps=4, batchsize=1, sep=True), dict(steps=4, batchsize=2, sep=True), dict(steps=4, batchsize=2, recurrent=True)],
            thorough=[dict(steps=6, batchsize=b, sep=s, recurrent=r) for b in (1, 2, 3) for s in (False, True) for r in (False, True)],
            covers=C + ["updated"], functions=["REINFORCE._act_train", "REINFORCE._observe_train", "REINFORCE.accumulate_grad", "REINFORCE.batch_update", "REINFORCE.update_with_accumulated_grad"], opts=O,
            bounds="up to 4 (6) steps, batches of 1-2 (3) episodes, every pattern of episode ends"),
]
