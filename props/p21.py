"""P21: action values."""
from .common import *
from .p14 import _uexp


def _ids(xs):
    return torch.tensor([int(x) for x in xs])


def _queries(S, av, rows, acts, acts2, msg, beta=None):
    """Compare every query of a discrete action value with its definition on `rows` of values."""
    B, A = len(rows), len(rows[0])
    q = elems(av.q_values)
    S.check(tuple(av.q_values.shape) == (B, A), msg + "shape of the values")
    S.check(av.n_actions == A, msg + "number of actions")
    for b in range(B):
        for a in range(A):
            S.check_eq(q[b * A + a], rows[b][a], msg + "value of an action per its definition")
    g, m = elems(av.greedy_actions), elems(av.max)
    S.check(len(g) == B and len(m) == B, msg + "one greedy action and maximum per entry")
    ev = elems(av.evaluate_actions(_ids(acts)))
    evg = elems(av.evaluate_actions(av.greedy_actions.long()))
    adv = elems(av.compute_advantage(_ids(acts)))
    dadv = elems(av.compute_double_advantage(_ids(acts), _ids(acts2)))
    S.check(len(ev) == len(evg) == len(adv) == len(dadv) == B, msg + "one result per entry")
    for b in range(B):
        gi = int(g[b])
        S.check(0 <= gi < A, msg + "the greedy action is an action")
        S.check_eq(m[b], rows[b][gi], msg + "the greedy action attains the maximum")
        S.check_eq(evg[b], m[b], msg + "evaluating the greedy action gives the maximum")
        for a in range(A):
            S.check(S.le(rows[b][a], m[b]), msg + "no action evaluates higher than the maximum")
        S.check_eq(ev[b], rows[b][acts[b]], msg + "evaluation of given actions")
        S.check_eq(adv[b], rows[b][acts[b]] - m[b], msg + "advantage = value - maximum")
        S.check_eq(dadv[b], rows[b][acts[b]] - rows[b][acts2[b]], msg + "double advantage = difference of values")
    if beta is not None:
        ex = elems(av.compute_expectation(beta))
        S.check(len(ex) == B, msg + "one expectation per entry")
        for b in range(B):
            es = [_uexp(S, beta * x) for x in rows[b]]
            S.check_eq(ex[b] * sum(es[1:], es[0]), sum((e * x for e, x in zip(es[1:], rows[b][1:])), es[0] * rows[b][0]), msg + "expectation under the softmax policy")


def discrete(S, kind, B, A, N, expect=False):
    import pfrl.action_value as M

    with sym_env(S):
        nt = None
        if kind == "discrete":
            t, v = real_tensor(S, "q", (B, A), -5, 5)
            rows = [v[b * A : (b + 1) * A] for b in range(B)]
            make = lambda x: M.DiscreteActionValue(x)
        elif kind == "distributional":
            t, v = real_tensor(S, "p", (B, A, N), 0, 1)
            z, zv = real_tensor(S, "z", (N,), -5, 5)
            d = lambda b, a: v[(b * A + a) * N : (b * A + a + 1) * N]
            rows = [[sum(p * x for p, x in zip(d(b, a), zv)) for a in range(A)] for b in range(B)]
            make = lambda x: M.DistributionalDiscreteActionValue(x, z)
        else:
            t, v = real_tensor(S, "u", (B, N, A), -5, 5)
            d = lambda b, a: [v[(b * N + n) * A + a] for n in range(N)]
            rows = [[sum(d(b, a)[1:], d(b, a)[0]) * (1.0 / N) for a in range(A)] for b in range(B)]
            make = lambda x: M.QuantileDiscreteActionValue(x)
        acts = [S.choice("act", A) for _ in range(B)]
        acts2 = [S.choice("act2", A) for _ in range(B)] if expect else [A - 1 - a for a in acts]
        beta = S.real("beta", 0.1, 3) if expect else None
        av = make(t)
        _queries(S, av, rows, acts, acts2, "", beta)
        S.check(len(av.params) == 1, "parameters")
        for x, y in zip(elems(av.params[0]), v):
            S.check_eq(x, y, "parameters are the network's output")
        if kind != "discrete":
            f = av.evaluate_actions_as_distribution if kind == "distributional" else av.evaluate_actions_as_quantiles
            o = elems(f(_ids(acts)))
            S.check(len(o) == B * N, "one distribution per entry")
            for b in range(B):
                for n in range(N):
                    S.check_eq(o[b * N + n], d(b, acts[b])[n], "distribution of the given action")
            if kind == "distributional":
                o = elems(av.max_as_distribution)
                g = [int(x) for x in elems(av.greedy_actions)]
                for b in range(B):
                    for n in range(N):
                        S.check_eq(o[b * N + n], d(b, g[b])[n], "distribution of the greedy action")
        # indexing commutes with the queries
        if B > 1:
            for k, ix in enumerate([slice(1, None), slice(0, 1), [1, 0], torch.tensor([False, True] + [False] * (B - 2))]):
                sel = list(range(B))[ix] if isinstance(ix, slice) else ([i for i in range(B) if bool(ix[i])] if isinstance(ix, torch.Tensor) else ix)
                _queries(S, av[ix], [rows[i] for i in sel], [acts[i] for i in sel], [acts2[i] for i in sel], "indexed: ")
        S.cover("done")


def quadratic(S, B, n, lo, hi, diag):
    import pfrl.action_value as M

    with sym_env(S):
        mu, mv = real_tensor(S, "mu", (B, n), -5, 5)
        v, vv = real_tensor(S, "v", (B, 1), -5, 5)
        if diag:
            dv = [S.real("d", 0.1, 5) for _ in range(B * n)]
            full = [[[dv[b * n + i] if i == j else 0.0 for j in range(n)] for i in range(n)] for b in range(B)]
        else:  # P = L L^T + (small) I
            L = [[[S.real("l", -2, 2) if j <= i else 0.0 for j in range(n)] for i in range(n)] for b in range(B)]
            full = [[[sum(L[b][i][k] * L[b][j][k] for k in range(min(i, j) + 1)) for j in range(n)] for i in range(n)] for b in range(B)]
        mat = tensor(S, full)
        lov = [S.real("low", -5, 5) for _ in range(n)] if lo else None
        hiv = [S.real("high", -5, 5) for _ in range(n)] if hi else None
        if lo and hi:
            for x, y in zip(lov, hiv):
                S.assume(S.le(x, y))
        arr = lambda x: None if x is None else (senv.obj_array(x) if S.symbolic else np.array(x, dtype=np.float32))
        av = M.QuadraticActionValue(mu, mat, v, arr(lov), arr(hiv))
        u, uv = real_tensor(S, "u", (B, n), -5, 5)
        w, wv = real_tensor(S, "w", (B, n), -5, 5)

        def Q(b, x):
            d = [x[i] - mv[b * n + i] for i in range(n)]
            return vv[b] - 0.5 * sum(d[i] * full[b][i][j] * d[j] for i in range(n) for j in range(n))

        def run(av, rows, u, w, msg):
            g, m = elems(av.greedy_actions), elems(av.max)
            ev, adv, dadv = elems(av.evaluate_actions(u)), elems(av.compute_advantage(u)), elems(av.compute_double_advantage(u, w))
            for k, b in enumerate(rows):
                ub, wb, gb = uv[b * n : (b + 1) * n], wv[b * n : (b + 1) * n], g[k * n : (k + 1) * n]
                S.check_eq(ev[k], Q(b, ub), msg + "value = V - 1/2 (u-mu)' P (u-mu)")
                for i in range(n):
                    if lo:
                        S.check(S.le(lov[i], gb[i]), msg + "the greedy action is not below the lower bound")
                    if hi:
                        S.check(S.le(gb[i], hiv[i]), msg + "the greedy action is not above the upper bound")
                S.check_eq(m[k], Q(b, gb), msg + "the greedy action attains the maximum")
                S.check_eq(adv[k], Q(b, ub) - m[k], msg + "advantage = value - maximum")
                S.check_eq(dadv[k], Q(b, ub) - Q(b, wb), msg + "double advantage = difference of values")
                # optimality among feasible actions
                feas = [S.le(lov[i], ub[i]) for i in range(n)] if lo else []
                feas += [S.le(ub[i], hiv[i]) for i in range(n)] if hi else []
                if diag:
                    S.check(or_(not_(and_(*feas)) if feas else False, Q(b, ub) <= m[k] + (0 if S.symbolic else 1e-3)), msg + "no feasible action evaluates higher")
                elif not lo and not hi:
                    S.check(Q(b, ub) <= m[k] + (0 if S.symbolic else 1e-3), msg + "no action evaluates higher")
            S.cover("done")

        run(av, range(B), u, w, "")
        if B > 1:
            run(av[1:], [1], u[1:], w[1:], "indexed: ")
            run(av[[1, 0]], [1, 0], u[[1, 0]], w[[1, 0]], "indexed: ")


def single(S):
    import pfrl.action_value as M

    with sym_env(S):
        B = 2
        best, bv = real_tensor(S, "best", (B, 1), -5, 5)
        u, uv = real_tensor(S, "u", (B, 1), -5, 5)
        w, wv = real_tensor(S, "w", (B, 1), -5, 5)
        c = S.real("c", -2, 2)
        f = lambda a: (a * a * c)[:, 0]
        av = M.SingleActionValue(evaluator=f, maximizer=lambda: best)
        for k in range(B):
            F = lambda x: x * x * c
            S.check_eq(elems(av.greedy_actions)[k], bv[k], "greedy action from the maximizer")
            S.check_eq(elems(av.max)[k], F(bv[k]), "maximum = value of the greedy action")
            S.check_eq(elems(av.evaluate_actions(u))[k], F(uv[k]), "evaluation")
            S.check_eq(elems(av.compute_advantage(u))[k], F(uv[k]) - F(bv[k]), "advantage")
            S.check_eq(elems(av.compute_double_advantage(u, w))[k], F(uv[k]) - F(wv[k]), "double advantage")
        S.cover("done")


FN = ["DiscreteActionValue", "DistributionalDiscreteActionValue", "QuantileDiscreteActionValue", "QuadraticActionValue", "SingleActionValue"]
FN = [c + "." + m for c in FN for m in ("greedy_actions", "max", "evaluate_actions", "compute_advantage", "compute_double_advantage", "__getitem__")] + [
    "DiscreteActionValue.compute_expectation", "DistributionalDiscreteActionValue.max_as_distribution/evaluate_actions_as_distribution/compute_expectation",
    "QuantileDiscreteActionValue.evaluate_actions_as_quantiles"]
ASSUMPTIONS = ["optimality of the clipped greedy action of quadratic values is claimed for diagonal curvature (with bounds) or without bounds"]
K = ("discrete", "distributional", "quantile")
BX = ((0, 0), (1, 1), (1, 0), (0, 1))
HARNESSES = [
    Harness(discrete, quick=[dict(kind=k, B=2, A=2, N=2) for k in K] + [dict(kind=k, B=1, A=2, N=2, expect=True) for k in K] + [dict(kind=k, B=1, A=3, N=4) for k in K],
            thorough=[dict(kind=k, B=2, A=3, N=4) for k in K] + [dict(kind=k, B=1, A=3, N=2, expect=True) for k in K],
            covers=["done"], functions=FN, bounds="batch 2, 2-3 actions, 2-3 atoms/quantiles; any outputs and actions", opts=dict(fork_ite=True)),
    Harness(quadratic, quick=[dict(B=b, n=n, lo=l, hi=h, diag=True) for b, n in ((1, 2), (2, 1)) for l, h in BX] + [dict(B=1, n=2, lo=0, hi=0, diag=False), dict(B=2, n=2, lo=0, hi=0, diag=True)],
            thorough=[dict(B=2, n=2, lo=l, hi=h, diag=True) for l, h in BX] + [dict(B=1, n=2, lo=0, hi=0, diag=False)],
            covers=["done"], functions=FN, bounds="1-2 entries, 1-2 action dimensions", opts=dict(fork_ite=True)),
    Harness(single, quick=[dict()], thorough=[dict()], covers=["done"], functions=FN, bounds="batch 2"),
]
