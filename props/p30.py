"""P30: trust-region policy step (TRPO) and conjugate gradient."""
import torch
from torch import nn

from .common import *
from . import tab, pv
import pfrl

OFFSET = 100  # the agent's batch function shifts ids, so that bypassing it is noticed


class D:
    """Action distribution at the policy's current parameters.  With gradients enabled its quantities
    are smooth functions of the parameters; otherwise, when a candidate is judged, they are arbitrary."""

    def __init__(self, pol, ids):
        self.pol, self.ids = pol, ids
        self.grad = torch.is_grad_enabled()
        self.th = pol.theta() if self.grad else pol.theta().detach().clone()
        self.at = elems(self.th)
        if self.grad:
            pol.updating = True
        self.judged = pol.updating and not self.grad
        self._ent = self._kl = None

    def sample(self):
        return torch.tensor([float(i) for i in self.ids])

    def _lin(self, base, coef):
        out = []
        for i in self.ids:
            v = torch.zeros(()) + base[i]
            if self.grad:
                d = self.th - self.th.detach()
                v = v + sum(d[j] * coef[i][j] for j in range(len(self.at)))
            out.append(v)
        return torch.stack(out)

    def log_prob(self, a):
        S = self.pol.S
        S.check([int(x) for x in elems(a)] == self.ids, "actions are paired with the states they were taken in")
        self._judge()
        return self._lin(self.pol.lp, self.pol.c)

    def _judge(self):
        if self.judged and self not in self.pol.judged:
            self.pol.judged.append(self)

    def entropy(self):
        S, p = self.pol.S, self.pol
        if not self.judged:
            return self._lin(p.ent, p.d)
        self._judge()
        if self._ent is None:
            i = p.judged.index(self)
            kind = S.choice("gain%d" % i, 3 if p.bad == "gain" else 1)
            self._ent = [1.0] * len(self.ids) if not p.judge else [S.real("e%d_%d" % (i, j), -4, 4) for j in self.ids]
            if kind:
                self._ent[0] = [None, float("inf"), float("nan")][kind]
        return tensor(S, self._ent)

    @property
    def gain_finite(self):
        return all(core.is_sym(e) or abs(e) < float("inf") for e in self._ent)

    def kl(self):
        S, p = self.pol.S, self.pol
        self._judge()
        if self._kl is None:
            i = p.judged.index(self)
            kind = S.choice("kl%d" % i, 3 if p.bad == "kl" else 1)
            self._kl = [0.25] * len(self.ids) if not p.judge else [S.real("k%d_%d" % (i, j), 0, 2) for j in self.ids]
            if kind:
                self._kl[-1] = [None, float("inf"), float("nan")][kind]
        return tensor(S, self._kl)

    @property
    def kl_finite(self):
        return all(core.is_sym(e) or abs(e) < float("inf") for e in self._kl)


@torch.distributions.kl.register_kl(D, D)
def _kl(p, q):
    if not q.grad:
        return q.kl()
    pol = q.pol
    d = q.th - p.th.detach()
    k = len(q.at)
    quad = sum(d[i] * d[j] * pol.M[i][j] for i in range(k) for j in range(k)) / 2
    n = len(q.ids)
    return torch.stack([quad * ((2.0 * i + 1) / n) for i in range(n)])  # mean: quad


class Pol(nn.Module):
    def __init__(self, S, M, n, bad, judge):
        super().__init__()
        k = len(M)
        self.S, self.M, self.bad, self.judge = S, M, bad, judge
        self.a, av = tab.param(S, "a", (1,), -2, 2)
        vals = list(av)
        if k == 2:
            self.b, bv = tab.param(S, "b", (1, 1), -2, 2)
            vals += list(bv)
        self.vals = vals
        self.lp = [-0.5] * n
        self.ent = [0.25] * n
        self.c = [[1.0 + (i % 2), 0.5 - i][:k] for i in range(n)]
        self.d = [[0.5, 1.0 - i][:k] for i in range(n)]
        self.updating = False
        self.judged = []

    def theta(self):
        return torch.cat([p.reshape(-1) for p in self.parameters()])

    def dist(self, x):
        ids = [i - OFFSET for i in tab.index(x)]
        self.S.check(all(i >= 0 for i in ids), "observations go through the agent's batch_states")
        return D(self, ids)

    def forward(self, x):
        return self.dist(x)


class RecPol(pfrl.nn.Recurrent, Pol):
    def forward(self, x, state):
        return self.dist(x.data), state


class Vf(nn.Module):
    def __init__(self, S, k=1):
        super().__init__()
        self.S = S
        self.w = nn.Parameter(torch.zeros(1))

    def forward(self, x):
        self.S.check(all(i >= OFFSET for i in tab.index(x)), "observations go through the agent's batch_states")
        return torch.zeros((len(tab.index(x)), 1)) + 0 * self.w


class RecVf(pfrl.nn.Recurrent, Vf):
    def forward(self, x, state):
        return torch.nn.utils.rnn.PackedSequence(Vf.forward(self, x.data), x.batch_sizes, x.sorted_indices, x.unsorted_indices), state


def shifted(obs, device, phi):
    return torch.tensor(np.array([phi(o) for o in obs])) + OFFSET


def step(S, M, n, backtrack, coef, bad, recurrent=False, std=False, ends=None, judge=True, iters=None, known=()):
    """One real update through batch_act/batch_observe; all rewards, parameters and candidate outcomes."""
    k = len(M)
    with sym_env(S):
        ends = ends or [0] * n
        pol = (RecPol if recurrent else Pol)(S, M, n * 3, bad, judge)
        vf = (RecVf if recurrent else Vf)(S)
        lam, mkl = 0.5, 0.5
        agent = pfrl.agents.TRPO(pol, vf, tab.CapOpt(vf), gamma=0.0, lambd=0.5, entropy_coef=coef, update_interval=n, max_kl=mkl, vf_epochs=1, vf_batch_size=n,
                                 standardize_advantages=std, batch_states=shifted, recurrent=recurrent, line_search_max_backtrack=backtrack,
                                 conjugate_gradient_max_iter=iters or k, conjugate_gradient_damping=lam, logger=CountingLogger())
        ids = list(range(0, 3 * n))
        cur = ids.pop(0)
        rs, acted = [], []
        for t in range(n):
            a = agent.batch_act([np.array([cur], dtype=np.float32)])
            S.check(int(a[0]) == cur, "the agent acts by its policy")
            r = S.real("r%d" % t, -3, 3) if t not in known else 1.5 - t
            rs.append(r)
            acted.append(cur)
            nxt = ids.pop(0)
            agent.batch_observe([np.array([nxt], dtype=np.float32)], [r], [ends[t] == 1], [ends[t] == 2])
            cur = nxt if not ends[t] else ids.pop(0)
        S.check(pol.updating, "the policy is updated once enough was collected")
        # advantages: gamma = 0 and a zero critic leave the reward itself
        adv = list(rs)
        if std:
            mean = sum(adv, 0.0) / n
            var = sum(((x - mean) * (x - mean) for x in adv), 0.0) / n
            sd = core.ssqrt(var) if S.symbolic else float(var) ** 0.5
            adv = [(x - mean) / (sd + 1e-8) for x in adv]
        old = pol.vals
        g = [sum((adv[t] * pol.c[i][j] + coef * pol.d[i][j] for t, i in enumerate(acted)), 0.0) for j in range(k)]  # n * gradient
        new = [v for p in pol.parameters() for v in elems(p)]
        cand = pol.judged
        S.check(1 <= len(cand) <= backtrack + 1, "number of candidates")
        f = [cand[0].at[j] - old[j] for j in range(k)]
        # direction
        H = [[M[i][j] + (lam if i == j else 0.0) for j in range(k)] for i in range(k)]
        Hf = [sum((H[i][j] * f[j] for j in range(k)), 0.0) for i in range(k)]
        S.cover("stepped")
        if not std:
            if k == 2:
                e = Hf[0] * g[1] - Hf[1] * g[0]
                tol = 1e-6 if S.symbolic else 1e-3  # early stop of the solver
                S.check(and_(e <= tol, e >= -tol), "the direction solves the damped curvature system")
            S.check(sum((Hf[j] * g[j] for j in range(k)), 0.0) >= (0 if S.symbolic else -1e-3), "the step is an ascent direction")
            q = sum((f[j] * Hf[j] for j in range(k)), 0.0)
            S.check(S.le(q, 2 * mkl), "the quadratic divergence of the full step is at most the limit")
            big = g[0] * g[0] if k == 1 else g[0] * g[0] + g[1] * g[1]
            if S.le(0.25, big):
                S.check(S.le(2 * mkl * (0.99999 if S.symbolic else 0.999), q), "the full step uses up the limit")
        # backtracking
        base = sum(adv, 0.0) / n + coef * 0.25
        won = None
        for i, c in enumerate(cand):
            for j in range(k):
                S.check_eq(c.at[j] * 2**i, old[j] * 2**i + f[j], "step sizes 1, 1/2, 1/4, ...")
            S.check(won is None, "the search stops at the first acceptable candidate")
            if c._ent is None or not c.gain_finite:
                S.cover("not finite")
                continue
            gain = sum(adv, 0.0) / n + coef * (sum(c._ent, 0.0) / n)
            if not S.le(base, gain):
                S.cover("worse")
                continue
            S.check(c._kl is not None, "the divergence of a candidate is examined")
            if not c.kl_finite:
                S.cover("not finite")
                continue
            if not S.le(sum(c._kl, 0.0) / n, mkl):
                S.cover("too far")
                continue
            won = c
        if won is None:
            S.check(len(cand) == backtrack + 1, "all step sizes are tried")
            S.cover("rejected")
            for j in range(k):
                S.check_eq(new[j], old[j], "without acceptable candidate the parameters stay exactly as they were")
        else:
            S.cover("accepted")
            for j in range(k):
                S.check_eq(new[j], won.at[j], "the policy ends at the first acceptable candidate")


def cg(S, A, iters, zero, free=False):
    """conjugate_gradient solves A x = b within dim(A) iterations."""
    from pfrl.utils.conjugate_gradient import conjugate_gradient

    k = len(A)
    with sym_env(S):
        if zero:
            b, bv = torch.zeros(k), [0.0] * k
        elif free:
            b, bv = real_tensor(S, "b", (k,), -3, 3)
            S.assume(or_(*[abs(v) >= 0.125 for v in bv]))
        else:  # the method commutes with scaling, so one entry is fixed
            bv = [S.real("b%d" % j, -3, 3) for j in range(k)]
            i = S.choice("unit", k)
            bv[i] = [1.0, -2.0][S.choice("unit value", 2)]
            b = tensor(S, bv)
        calls = []
        At = torch.tensor(A)

        def prod(v):
            calls.append(1)
            return torch.mv(At, v)

        x = elems(conjugate_gradient(prod, b, max_iter=iters))
        S.check(len(x) == k, "shape")
        S.cover("solved")
        for i in range(k):
            res = sum((A[i][j] * x[j] for j in range(k)), 0.0) - bv[i]
            S.check(and_(res <= (1e-9 if S.symbolic else 1e-4), res >= (-1e-9 if S.symbolic else -1e-4)), "A x = b")
        for u, v in zip(elems(b), bv):
            S.check_eq(u, v, "the right-hand side is not modified")


FN = ["TRPO._update_policy", "TRPO._update_policy_recurrent", "TRPO._compute_kl_constrained_step", "TRPO._line_search", "TRPO._update_vf", "conjugate_gradient", "_hessian_vector_product"]
ASSUMPTIONS = ["policies with 1-2 parameters whose divergence is quadratic near the old parameters; outcomes at candidates arbitrary (finite or not)", "curvature matrices and damping from a fixed set; gradients, advantages and parameters arbitrary", "real arithmetic (CG's early stop at 1e-10 included)"]
M1, M2, M3 = [[2.0]], [[2.0, 0.5], [0.5, 1.0]], [[1.0, 0.0], [0.0, 4.0]]
O = dict(timeout_ms=60000)
HARNESSES = [
    Harness(step, quick=[dict(M=M1, n=2, backtrack=1, coef=0.5, bad="gain", known=[0, 1]), dict(M=M1, n=2, backtrack=1, coef=0.5, bad="kl", known=[0, 1]), dict(M=M1, n=2, backtrack=2, coef=0.5, bad=False, known=[0]), dict(M=M1, n=2, backtrack=1, coef=0.5, bad=False, std=True), dict(M=M2, n=2, backtrack=0, coef=0.5, bad=False, known=[0], judge=False), dict(M=M1, n=2, backtrack=1, coef=0.5, bad=False, recurrent=True), dict(M=M1, n=3, backtrack=0, coef=0.5, bad=False, recurrent=True, ends=[1, 0, 0], known=[0, 2])],
            thorough=[dict(M=M1, n=2, backtrack=2, coef=0.5, bad="gain", known=[0]), dict(M=M1, n=2, backtrack=2, coef=0.5, bad="kl", known=[0]), dict(M=M1, n=2, backtrack=2, coef=0.5, bad=False), dict(M=M3, n=2, backtrack=0, coef=0.5, bad=False, judge=False), dict(M=M2, n=2, backtrack=0, coef=0.5, bad=False, recurrent=True, judge=False, known=[1])],
            covers=["stepped", "accepted", "rejected", "not finite", "worse", "too far"], functions=FN, opts=dict(O, cancel=True), bounds="2-3 transitions, 1-2 policy parameters, up to 3 (4) candidates with any outcome"),
    Harness(cg, quick=[dict(A=A, iters=len(A), zero=z) for A in (M1, M2, M3) for z in (False, True)] + [dict(A=M1, iters=3, zero=False, free=True)],
            thorough=[dict(A=[[1.0, 0.5], [0.5, 3.0]], iters=3, zero=False), dict(A=[[2.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 2.0]], iters=3, zero=False)], covers=["solved"], functions=FN, opts=dict(O, cancel=True), bounds="1-2 (3) dimensions, any right-hand side with an entry of size >= 1/8, or zero"),
]
