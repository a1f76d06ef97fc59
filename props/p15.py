"""P15: distributional agents."""
from .common import *
from . import zoo, tab
from .p14 import _Prio
import pfrl
from torch import nn
from pfrl.action_value import DistributionalDiscreteActionValue


class _Head(nn.Module):
    def __init__(self, z):
        super().__init__()
        self.z = z

    def forward(self, q):
        return DistributionalDiscreteActionValue(q, self.z)


def _probs(S, name, rows, n):
    """rows of arbitrary probability vectors"""
    out = []
    for i in range(rows):
        p = [S.real("%s%d_%d" % (name, i, j), 0, 1) for j in range(n)]
        tot = p[0]
        for x in p[1:]:
            tot = tot + x
        if S.symbolic:
            S.assume(core.eq(tot, 1))
        else:
            S.assume(tot > 0)
            p = [x / tot for x in p]
        out.append(p)
    return out


# exactly representable positive vectors (a table network is not asked to be normalised)
Y = [[0.5, 0.25, 0.125, 0.0625], [0.25, 0.5, 0.125, 0.5], [0.125, 0.5, 0.25, 0.25]]


def _log(S, v):
    return elems(torch.log(tensor(S, [v])))[0]


def categorical(S, cls, windows, zs, n_actions, acc="mean", weights=False, sym_gamma=False, term=None):
    """update() of categorical agents: the projected target of each sample and atom is read off the gradient."""
    from pfrl import agents

    n = len(zs)
    B = len(windows)
    with sym_env(S) as P:
        z = tensor(S, list(zs))
        model = tab.Table(S, "dummy", 2 * B, n_actions, n, head=_Head(z))
        # current states: fixed distributions; next states: arbitrary probabilities
        rows, on_next = [], []
        for b in range(B):
            cur = []
            for a in range(n_actions):
                y = Y[(b + a) % 3][:n]
                cur.append(list(y))
            on_next.append(_probs(S, "p_on%d_" % b, n_actions, n) if cls == "CategoricalDoubleDQN" else cur)
            rows += cur + on_next[b]
        flat = [v for r in rows for v in r]
        model.w = nn.Parameter(tensor(S, flat).reshape(2 * B, n_actions, n))
        opt = tab.CapOpt(model)
        gamma = S.real("gamma", 0, 1) if sym_gamma else 0.5
        buf = _Prio(1000) if weights else pfrl.replay_buffers.ReplayBuffer(1000)
        agent = getattr(agents, cls)(model, opt, buf, gamma, zoo.FixedExplorer(), replay_start_size=100, minibatch_size=1, batch_accumulator=acc, phi=zoo.phi)
        tp = [_probs(S, "p%d_" % b, n_actions, n) for b in range(B)]
        tflat = [v for b in range(B) for r in ([[0.0] * n] * n_actions + tp[b]) for v in r]
        agent.target_model.w = nn.Parameter(tensor(S, tflat).reshape(2 * B, n_actions, n))
        exps, want = [], []
        ws = [S.real("w%d" % b, 0, 2) for b in range(B)] if weights else None
        for b, L in enumerate(windows):
            w, R, g = [], 0, 1
            fl = term if term is not None else S.flag("term%d" % b)
            a = S.choice("a%d" % b, n_actions)
            for i in range(L):
                r = S.real("r%d_%d" % (b, i), -3, 3)
                w.append(dict(state=np.array([2 * b if i == 0 else 0], dtype=np.float32), action=np.int64(a), reward=r,
                              next_state=np.array([2 * b + 1 if i == L - 1 else 0], dtype=np.float32), next_action=None, is_state_terminal=fl and i == L - 1))
                R = R + g * r
                g = g * gamma
            if ws:
                w[0]["weight"] = ws[b]
            exps.append(w)
            want.append((a, R, g, fl))
        errs = None if weights else []
        agent.update(exps, errors_out=errs)
        grad = opt.steps[0][0]
        lo, hi, dz = zs[0], zs[-1], zs[1] - zs[0]
        tot = 0
        got_e = buf.got if weights else errs
        S.check(len(got_e) == B, "one error per experience")
        for b, (a, R, g, fl) in enumerate(want):
            # greedy action
            ev = lambda d: sum((d[j] * zs[j] for j in range(1, n)), d[0] * zs[0])
            sel = on_next[b] if cls == "CategoricalDoubleDQN" else tp[b]
            q = [ev(d) for d in sel]
            ga = 0
            for k in range(1, n_actions):
                if S.lt(q[ga], q[k]):
                    ga = k
            t = [0] * n
            mean = 0
            for i in range(n):
                x = R + (0 if fl else g * zs[i])
                if x <= lo:
                    x = lo
                    S.cover("clipped below")
                elif hi <= x:
                    x = hi
                    S.cover("clipped above")
                p = tp[b][ga][i]
                mean = mean + p * x
                for j in range(n):
                    d = x - zs[j]
                    if S.lt(-dz, d) and S.lt(d, 0):
                        t[j] = t[j] + p * (1 + d / dz)
                    elif 0 <= d and S.lt(d, dz):
                        t[j] = t[j] + p * (1 - d / dz)
            y = rows[2 * b * n_actions + a]
            wgt = ws[b] if ws else 1
            div = B if acc == "mean" else 1
            gt = []
            for aa in range(n_actions):
                for j in range(n):
                    gv = grad[(2 * b * n_actions + aa) * n + j]
                    if aa != a:
                        S.check_eq(gv, 0, "no gradient to other actions")
                    else:
                        S.check_eq(gv, -(t[j] * wgt / div) / y[j], "the target is the projected distribution of the greedy next action")
                        gt.append(-gv * y[j] * div)
                    S.check_eq(grad[((2 * b + 1) * n_actions + aa) * n + j], 0, "no gradient through the target")
            s, m = sum(gt[1:], gt[0]), sum((gt[j] * zs[j] for j in range(1, n)), gt[0] * zs[0])
            S.check_eq(s, wgt, "the projection conserves probability")
            S.check_eq(m, mean * wgt, "the projection preserves the mean of the clipped atoms")
            e = 0
            for j in range(n):
                e = e - t[j] * _log(S, y[j])
            S.check_eq(got_e[b], e, "the reported error is the cross entropy")
            tot = tot + e * wgt
        S.check_eq(agent.loss_record[0], tot / B if acc == "mean" else tot, "the loss is the (weighted) cross entropy")
        S.check(agent.target_model.w.grad is None, "no gradient into the target network")
        S.cover("ran")


class _Phi(nn.Module):
    def __init__(self, A):
        super().__init__()
        self.A = A

    def forward(self, taus):
        one = torch.ones_like(taus)
        return torch.stack([one] * self.A + [taus] * self.A, dim=-1)


class _F(nn.Module):
    def __init__(self, A):
        super().__init__()
        self.A = A

    def forward(self, h):
        return h[:, : self.A] + h[:, self.A :]


def _affine(S, name, ns, A):
    """[base (arbitrary) * A, slope (fixed) * A] per state"""
    out = []
    for i in range(ns):
        out += [S.real("%s%d_%d" % (name, i, k), -3, 3) for k in range(A)] + [0.5 + 0.25 * ((i + k) % 3) for k in range(A)]
    return out


def iqn(S, windows, N, Np, K, n_actions=2, acc="mean", weights=False, term=None, recurrent=False, act=None):
    """update() of IQN: quantile(s, tau, a) = base[s, a] + slope[s, a] * tau with arbitrary base and tau."""
    from pfrl import agents
    from pfrl.agents import iqn as im

    A, B = n_actions, len(windows)
    with sym_env(S) as P:
        rng = TorchRng(S, P)
        ns = 2 * B
        psi = (tab.RecTable if recurrent else tab.Table)(S, "dummy", ns, 2 * A)
        mv = _affine(S, "m", ns, A)
        psi.w = nn.Parameter(tensor(S, mv).reshape(ns, 2 * A))
        Q = im.RecurrentImplicitQuantileQFunction if recurrent else im.ImplicitQuantileQFunction
        model = Q(psi, _Phi(A), _F(A))
        opt = tab.CapOpt(model)
        gamma = 0.5
        buf = _Prio(1000) if weights else (pfrl.replay_buffers.EpisodicReplayBuffer() if recurrent else pfrl.replay_buffers.ReplayBuffer(1000))
        agent = agents.IQN(model, opt, buf, gamma, zoo.FixedExplorer(), replay_start_size=100, minibatch_size=1, batch_accumulator=acc, phi=zoo.phi,
                           quantile_thresholds_N=N, quantile_thresholds_N_prime=Np, quantile_thresholds_K=K, recurrent=recurrent)
        tv = _affine(S, "t", ns, A)
        agent.target_model.psi.w = nn.Parameter(tensor(S, tv).reshape(ns, 2 * A))
        exps, want = [], []
        ws = [S.real("w%d" % b, 0, 2) for b in range(B)] if weights else None
        for b, L in enumerate(windows):
            w, R, g = [], 0, 1
            fl = term if term is not None else S.flag("term%d" % b)
            a = act if act is not None else S.choice("a%d" % b, A)
            for i in range(L):
                r = S.real("r%d_%d" % (b, i), -3, 3)
                t = dict(state=np.array([2 * b if i == 0 else 0], dtype=np.float32), action=np.int64(a), reward=r,
                         next_state=np.array([2 * b + 1 if i == L - 1 else 0], dtype=np.float32), next_action=None, is_state_terminal=fl and i == L - 1)
                if recurrent:
                    t["recurrent_state"] = t["next_recurrent_state"] = None
                w.append(t)
                R = R + g * r
                g = g * gamma
            if ws:
                w[0]["weight"] = ws[b]
            exps.append(w)
            want.append((a, R, g, fl))
        errs = None if weights or recurrent else []
        if recurrent:
            agent.update_from_episodes(exps)
        else:
            agent.update(exps, errors_out=errs)
        # the thresholds, by role (their shapes tell them apart)
        pick = lambda n: [l for l in rng.log if l[1] == (B, n)]
        S.check(len(rng.log) == 3 and all(len(pick(n)) == 1 for n in (N, Np, K)), "one set of thresholds per role")
        taus, tprime, tk = (pick(n)[0][2] for n in (N, Np, K))
        qv = lambda v, s, a, tau: v[s * 2 * A + a] + v[s * 2 * A + A + a] * tau
        grad = opt.steps[0][0]
        tot = 0
        exp_g = [0] * (ns * 2 * A)
        es = []
        for b, (a, R, g, fl) in enumerate(want):
            sums = []
            for aa in range(A):
                m = 0
                for k in range(K):
                    m = m + qv(tv, 2 * b + 1, aa, tk[b * K + k])
                sums.append(m)
            ga = 0
            for k in range(1, A):
                if S.lt(sums[ga], sums[k]):
                    ga = k
            ts = [R + (0 if fl else g * qv(tv, 2 * b + 1, ga, tprime[b * Np + j])) for j in range(Np)]
            e = 0
            wgt = (ws[b] if ws else 1)
            div = Np * (B if acc == "mean" else 1)
            for i in range(N):
                tau = taus[b * N + i]
                y = qv(mv, 2 * b, a, tau)
                for j in range(Np):
                    d = y - ts[j]
                    lev = (1 - tau) if S.lt(0, d) else tau
                    e = e + lev * tab.huber(S, d)
                    gd = lev * tab.clip1(S, d) * wgt / div
                    exp_g[(2 * b) * 2 * A + a] = exp_g[(2 * b) * 2 * A + a] + gd
                    exp_g[(2 * b) * 2 * A + A + a] = exp_g[(2 * b) * 2 * A + A + a] + gd * tau
            es.append(e / (N * Np))
            tot = tot + e / Np * wgt
        S.check_eq(agent.loss_record[0], tot / B if acc == "mean" else tot, "the loss is the quantile Huber loss over all pairs")
        for x, y in zip(grad, exp_g):
            S.check_eq(x, y, "gradients reach exactly the predicted quantiles")
        S.check(agent.target_model.psi.w.grad is None, "no gradient into the target network")
        ge = buf.got if weights else errs
        if ge is not None:
            S.check(len(ge) == B, "one error per experience")
            for x, y in zip(ge, es):
                S.check_eq(x, y, "the reported error is the mean loss of the experience")
        S.cover("ran")


def pinball(S, batch, N, Np):
    """compute_eltwise_huber_quantile_loss on arbitrary predictions, targets and thresholds"""
    from pfrl.agents import iqn as im

    with sym_env(S):
        y, yv = real_tensor(S, "y", (batch, N), -3, 3)
        t, tv = real_tensor(S, "t", (batch, Np), -3, 3)
        taus, uv = real_tensor(S, "tau", (batch, N), 0, 1)
        y = y.requires_grad_()
        out = im.compute_eltwise_huber_quantile_loss(y, t, taus)
        S.check(tuple(out.shape) == (batch, N, Np), "one loss per pair")
        out.sum().backward()
        e, g = elems(out), elems(y.grad)
        for b in range(batch):
            for i in range(N):
                gi = 0
                for j in range(Np):
                    d = yv[b * N + i] - tv[b * Np + j]
                    u = uv[b * N + i]
                    lev = (1 - u) if S.lt(0, d) else u
                    S.check_eq(e[(b * N + i) * Np + j], lev * tab.huber(S, d), "pairwise loss")
                    gi = gi + lev * tab.clip1(S, d)
                S.check_eq(g[b * N + i], gi, "pairwise gradient")
        S.cover("ran")


def basis(S, n, m, batch):
    """Cosine embedding of quantile thresholds."""
    from pfrl.agents import iqn as im

    with sym_env(S):
        t, flat = real_tensor(S, "tau", (batch, n), 0, 1)
        e = elems(im.cosine_basis_functions(t, m))
        S.check(len(e) == batch * n * m, "shape")
        for i in range(batch * n):
            for j in range(m):
                arg = flat[i] * (j + 1)
                c = (torch_cos(S, arg))
                S.check_eq(e[i * m + j], c, "cos(pi i tau)")
        S.cover("ran")


def torch_cos(S, x):
    if S.symbolic:
        t = symtorch.make([x], (1,), torch.float32) if core.is_sym(x) else torch.tensor([float(x)])
    else:
        t = torch.tensor([float(x)])
    return elems(torch.cos(t * float(np.pi)))[0]


ASSUMPTIONS = ["networks are tables with arbitrary outputs; quantile networks are affine in the threshold, with an arbitrary offset and a fixed slope per state and action",
               "the predicted categorical distribution of the current state is a fixed positive vector (the target, whose computation is the subject, is read off the gradient)",
               "random thresholds are arbitrary numbers in [0, 1)", "floats are reals"]
FNC = ["CategoricalDQN._compute_target_values", "CategoricalDQN._compute_y_and_t", "CategoricalDQN._compute_loss", "CategoricalDoubleDQN._compute_target_values", "_apply_categorical_projection", "DistributionalDiscreteActionValue", "DQN.update"]
FNI = ["IQN._compute_target_values", "IQN._compute_y_and_taus", "IQN._compute_loss", "compute_eltwise_huber_quantile_loss", "ImplicitQuantileQFunction.forward", "QuantileDiscreteActionValue", "DQN.update"]
C2 = ("CategoricalDQN", "CategoricalDoubleDQN")
Z2, Z3, Z4 = (-1.0, 1.0), (-1.0, 0.0, 1.0), (0.0, 0.5, 1.0, 1.5)
O = dict(timeout_ms=20000, fork_ite=True)
HARNESSES = [
    Harness(categorical,
            quick=[dict(cls=c, windows=[1], zs=z, n_actions=2) for c in C2 for z in (Z2, Z3)]
            + [dict(cls=c, windows=[1], zs=Z2, n_actions=2, weights=True, sym_gamma=True) for c in C2]
            + [dict(cls=c, windows=[2, 1], zs=Z2, n_actions=1, weights=w, acc=a) for c in C2 for w, a in ((True, "mean"), (False, "sum"))],
            thorough=[dict(cls=c, windows=[2], zs=z, n_actions=2, weights=w, acc=a) for c in C2 for z in (Z3, Z4) for w in (True, False) for a in ("mean", "sum")]
            + [dict(cls=c, windows=[1], zs=Z3, n_actions=3) for c in C2] + [dict(cls=c, windows=[1, 1], zs=Z3, n_actions=1, weights=True) for c in C2],
            covers=["ran", "clipped below", "clipped above"], functions=FNC, opts=O,
            bounds="supports of 2-3 (4) atoms, 1-2 (3) actions, batches of 1-2 experiences of 1-2 transitions, all probabilities, rewards, terminal flags, weights"),
    Harness(iqn,
            quick=[dict(windows=[1], N=1, Np=2, K=3), dict(windows=[2], N=1, Np=2, K=3, weights=True, act=1),
                   dict(windows=[1], N=2, Np=3, K=1, n_actions=1, term=True),
                   dict(windows=[1, 1], N=1, Np=2, K=3, n_actions=1, weights=True, term=True), dict(windows=[1, 1], N=1, Np=2, K=3, n_actions=1, acc="sum", term=True),
                   dict(windows=[1], N=1, Np=2, K=3, recurrent=True, act=1)],
            thorough=[dict(windows=w, N=n, Np=p, K=1, acc=a, weights=a == "sum") for w in ([1], [2]) for n, p in ((2, 3), (3, 2)) for a in ("mean", "sum")]
            + [dict(windows=[1, 1], N=1, Np=2, K=3, weights=True), dict(windows=[1], N=2, Np=1, K=3)],
            covers=["ran"], functions=FNI, opts=O,
            bounds="1-3 thresholds per role, 1-2 actions, batches of 1-2, all quantile values, rewards, thresholds in [0,1), terminal flags, weights"),
    Harness(pinball, quick=[dict(batch=1, N=2, Np=1), dict(batch=1, N=1, Np=2), dict(batch=2, N=1, Np=1)], thorough=[dict(batch=2, N=2, Np=1), dict(batch=1, N=2, Np=2)],
            covers=["ran"], functions=["compute_eltwise_huber_quantile_loss"], opts=O, bounds="up to 2x2 pairs, all values"),
    Harness(basis, quick=[dict(n=2, m=3, batch=2)], covers=["ran"], functions=["cosine_basis_functions"], bounds="2x2 thresholds, 3 basis functions"),
]
