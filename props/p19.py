"""P19: PPO's objective and its passes over the data."""
from .common import *
from . import tab, pv
from .p14 import _uexp
from .p17 import gae
import pfrl

EPS = 0.25


class MutOpt(tab.CapOpt):
    """An arbitrary optimizer: every step moves the parameters to fresh arbitrary values."""

    def __init__(self, S, model, lp=True, v=True):
        super().__init__([model.v, model.lp, model.ent])
        self.S, self.model, self.on = S, model, (v, lp)
        self.vals = [(list(model.vv), list(model.lpv))]

    def step(self, closure=None):
        super().step()
        k = len(self.steps)
        vv, lv = self.vals[-1]
        with torch.no_grad():
            if self.on[0]:
                t, vv = real_tensor(self.S, "v_%d_" % k, tuple(self.model.v.shape), -3, 3)
                self.model.v.copy_(t)
            if self.on[1]:
                t, lv = real_tensor(self.S, "lp_%d_" % k, tuple(self.model.lp.shape), -3, 0)
                self.model.lp.copy_(t)
        self.vals.append((vv, lv))


def _prep(S, P):
    from pfrl.agents import ppo as pm

    RngStub(S, P)
    if hasattr(pm, "_compute_explained_variance"):
        P.set(pm, "_compute_explained_variance", lambda *a, **kw: float("nan"))
    return pm


def objective(S, N, clip_vf=False, recurrent=False, vary="lp", ends=1, vc=0.5, ec=0.25):
    """Second pass over the same data after an arbitrary parameter change: arbitrary probability ratios and values."""
    with sym_env(S) as P:
        pm = _prep(S, P)
        P.set(pm.random, "sample", lambda xs, k: list(xs)[:k])
        P.set(pm.random, "shuffle", lambda xs: None)
        n = 2 * N + 1
        model = (pv.PVRec if recurrent else pv.PV)(S, n)
        opt = MutOpt(S, model, lp=vary == "lp", v=vary == "v")
        gamma = 0.5
        agent = pfrl.agents.PPO(model, opt, gamma=gamma, lambd=0.5, value_func_coef=vc, entropy_coef=ec, update_interval=N, minibatch_size=N, epochs=2, clip_eps=EPS,
                                clip_eps_vf=EPS if clip_vf else None, standardize_advantages=False, recurrent=recurrent)
        d = pv.Driver(S, agent, 1)
        for i in range(N):
            d.step(force=[ends])
        S.check(len(opt.steps) == 2, "one step per epoch")
        (v0, l0), (v1, l1) = opt.vals[0], opt.vals[1]
        val = (lambda s, h: v0[s] + h) if recurrent else (lambda s, h: v0[s])
        eps = d.flush()
        adv = gae(eps, val, gamma, 0.5)
        gv, gl, ge = opt.steps[1]
        tot_p, tot_v, tot_e = 0, 0, 0
        hs = {t["s"]: (t["h"] if recurrent else 0) for ep in eps for t in ep}
        for s, a in adv.items():
            r = _uexp(S, l1[s] - l0[s])
            S.assume(and_(not_(S.eq(r, 1 + EPS)), not_(S.eq(r, 1 - EPS))))  # not differentiable there
            if 1 + EPS < r:
                rc = 1 + EPS
                S.cover("ratio above")
            elif r < 1 - EPS:
                rc = 1 - EPS
                S.cover("ratio below")
            else:
                rc = r
            if rc * a < r * a:
                tot_p = tot_p - rc * a
                want = 0
                S.cover("clipped")
            else:
                tot_p = tot_p - r * a
                want = -r * a
            S.check_eq(gl[s] * N, want, "gradient of the clipped surrogate")
            t = a + v0[s]
            dv = v1[s] - t
            if clip_vf:
                c = v1[s]
                S.assume(and_(not_(S.eq(c, v0[s] + EPS)), not_(S.eq(c, v0[s] - EPS))))  # not differentiable there
                if v0[s] + EPS < c:
                    c = v0[s] + EPS
                elif c < v0[s] - EPS:
                    c = v0[s] - EPS
                dc = c - t
                if dc * dc <= dv * dv:
                    lv, want = dv * dv, 2 * dv
                    S.assume(or_(S.eq(c, v1[s]), not_(S.eq(dc * dc, dv * dv))))  # the maximum is not differentiable there
                else:
                    lv, want = dc * dc, 0
                    S.cover("value clipped")
            else:
                lv, want = dv * dv, 2 * dv
            tot_v = tot_v + lv
            S.check_eq(gv[s] * N, vc * want, "gradient of the value loss")
            S.check_eq(ge[s] * N, -ec, "gradient of the entropy bonus")
        S.check_eq(agent.policy_loss_record[1] * N, tot_p, "policy loss")
        S.check_eq(agent.value_loss_record[1] * N, tot_v, "value loss")
        S.cover("ran")


def standardized(S, recurrent=False):
    """Two transitions: standardized advantages are +-1 up to the stabilizer, whatever the rewards."""
    with sym_env(S) as P:
        pm = _prep(S, P)
        P.set(pm.random, "sample", lambda xs, k: list(xs)[:k])
        P.set(pm.random, "shuffle", lambda xs: None)
        model = (pv.PVRec if recurrent else pv.PV)(S, 5)
        opt = tab.CapOpt([model.v, model.lp, model.ent])
        agent = pfrl.agents.PPO(model, opt, gamma=0.5, lambd=0.5, update_interval=2, minibatch_size=2, epochs=1, standardize_advantages=True, recurrent=recurrent)
        d = pv.Driver(S, agent, 1)
        if recurrent:
            S.assume(True)
        r = []
        try:
            for i in range(2):
                d.step(force=[1])
        except AssertionError:
            # documented by an assertion: recurrent PPO refuses constant advantages
            eps = d.hist if not d.done_eps else [e for _, e in d.done_eps] + d.hist
            a = [t["r"] - model.vv[t["s"]] for ep in eps for t in ep]
            S.check(recurrent and len(a) == 2 and bool(S.eq(a[0], a[1])), "standardization fails only on constant advantages")
            return
        eps = d.flush()
        adv = gae(eps, lambda s, h: model.vv[s], 0.5, 0.5)
        (s0, a0), (s1, a1) = sorted(adv.items())
        diff = (a0 - a1) / 2
        gl = opt.steps[0][1]
        g0, g1 = -2 * gl[s0], -2 * gl[s1]
        S.check_eq(g0, -g1, "standardized advantages have zero mean")
        S.check(or_(S.le(0, g0 * diff), False), "standardization keeps the sign")
        ad = diff if 0 <= diff else -diff
        if S.lt(0.01, ad):
            S.check(S.le(0.999, g0 * g0), "standardized advantages have unit scale")
            S.check(S.le(g0 * g0, 1.001), "standardized advantages have unit scale")
            S.cover("scaled")
        S.cover("ran")


def passes(S, D, mb, epochs, fixed=None, recurrent=False, max_len=None):
    """Which transitions each optimizer step uses, for every shuffle."""
    with sym_env(S) as P:
        _prep(S, P)
        n = 2 * D + 1
        model = (pv.PVRec if recurrent else pv.PV)(S, n)
        opt = tab.CapOpt([model.v, model.lp, model.ent])
        agent = pfrl.agents.PPO(model, opt, gamma=0.5, lambd=0.5, entropy_coef=1.0, update_interval=D, minibatch_size=mb, epochs=epochs, standardize_advantages=False,
                                recurrent=recurrent, max_recurrent_sequence_len=max_len)
        d = pv.Driver(S, agent, 1)
        for i in range(D):
            d.step(force=[fixed[i] if fixed else 0])
        eps = d.flush()
        ids = [t["s"] for ep in eps for t in ep]
        val = (lambda s, h: model.vv[s] + h) if recurrent else (lambda s, h: model.vv[s])
        adv = gae(eps, val, 0.5, 0.5)
        count = {s: 0 for s in ids}
        used = 0
        steps = opt.steps
        if recurrent:
            per = D // mb
            S.check(len(steps) == per * epochs, "as many full minibatches per epoch as fit")
        else:
            S.check(len(steps) == -(-D * epochs // mb), "as many minibatches as needed")
        epoch = None
        for k, (gv, gl, ge) in enumerate(steps):
            if recurrent and k % (D // mb) == 0:
                epoch = {s: 0 for s in ids}
            tot = 0
            for s in range(n):
                m = -scalar(ge[s]) * mb if not core.is_sym(ge[s]) else -(ge[s] * mb)
                m = core.as_value(core.term(m)) if core.is_sym(m) else m
                mi = int(round(float(m)))
                S.check(abs(float(m) - mi) < 1e-4 and mi >= 0, "minibatches hold whole transitions, averaged over the configured size")
                if mi and s not in count:
                    S.check(False, "a minibatch holds only collected transitions")
                tot += mi
                if s in count:
                    count[s] += mi
                    S.check_eq(gl[s] * mb, -adv[s] * mi, "with their advantages")
                    if recurrent:
                        epoch[s] += mi
                        S.check(epoch[s] <= 1, "no transition is visited twice in an epoch")
            S.check(tot == mb, "every minibatch has the configured size")
            used += mb
            if not recurrent:
                lo, hi = used // D, -(-used // D)
                S.check(all(lo <= c <= hi for c in count.values()), "every pass visits every transition exactly once")
        if not recurrent:
            S.check(all(c >= epochs for c in count.values()), "every transition is visited in every epoch")
        S.cover("ran")


O = dict(timeout_ms=20000, fork_ite=True)
ASSUMPTIONS = ["the model is a table of arbitrary values, log-probabilities and entropies per state; the optimizer moves the parameters to arbitrary values", "exp is uninterpreted but positive",
               "gradients where a maximum/minimum is not differentiable are left open", "recurrent PPO refuses to standardize constant advantages (an explicit assertion)", "floats are reals"]
FN = ["PPO._lossfun", "PPO._update", "PPO._update_recurrent", "PPO._update_once_recurrent", "_yield_minibatches", "_yield_subset_of_sequences_with_fixed_number_of_items", "_elementwise_clip"]
HARNESSES = [
    Harness(objective, quick=[dict(N=1), dict(N=2), dict(N=1, vary="v"), dict(N=1, vary="v", clip_vf=True), dict(N=2, vary="v", clip_vf=True), dict(N=1, recurrent=True), dict(N=2, recurrent=True, vary="v", clip_vf=True)],
            thorough=[dict(N=2, ends=0), dict(N=3), dict(N=2, vary="v", clip_vf=True, ends=0), dict(N=2, recurrent=True, ends=0)],
            covers=["ran", "ratio above", "ratio below", "clipped", "value clipped"], functions=FN, opts=O, bounds="minibatches of 1-2 (3) transitions, every ratio, advantage, value, target"),
    Harness(standardized, quick=[dict(), dict(recurrent=True)], covers=["ran", "scaled"], functions=FN[1:4], opts=O, bounds="datasets of 2 transitions"),
    Harness(passes, quick=[dict(D=D, mb=m, epochs=e) for D, m, e in ((2, 1, 2), (2, 3, 2), (3, 2, 1), (3, 2, 2), (3, 3, 2), (1, 2, 3))]
            + [dict(D=4, mb=m, epochs=1, recurrent=True, max_len=l, fixed=f) for m, l, f in ((2, None, [0, 1, 0, 0]), (3, 1, None), (2, 2, [0, 0, 0, 1]), (3, 2, [1, 0, 0, 0]))] + [dict(D=3, mb=2, epochs=2, recurrent=True, max_len=2)],
            thorough=[dict(D=4, mb=3, epochs=2), dict(D=4, mb=5, epochs=2), dict(D=3, mb=2, epochs=3), dict(D=5, mb=2, epochs=1)] + [dict(D=6, mb=m, epochs=1, recurrent=True, max_len=2, fixed=[0, 0, 1, 0, 2, 0]) for m in (2, 3, 4, 5)],
            covers=["ran"], functions=FN, opts=O, bounds="datasets of 1-4 (6) transitions, minibatches of 1-3 (5), 1-3 epochs, every shuffle"),
]
