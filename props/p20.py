"""P20: explorers."""
from .common import *
from .p14 import _uexp


def _draw(R):
    """The uniform draws of the last call, as numbers in [0, 1)."""
    out = []
    for d in R.draws:
        if d[0] == "rand":
            out.append(d[1])
        elif d[0] == "uniform":
            out.append(d[3])
    return out


def epsilon(S, kind, calls, zero=False):
    from pfrl.explorers import ConstantEpsilonGreedy, LinearDecayEpsilonGreedy, ExponentialDecayEpsilonGreedy

    with sym_env(S, use_torch=False) as P:
        R = RngStub(S, P)
        n = dict(r=0, g=0)

        def rnd():
            n["r"] += 1
            return 100 + n["r"]

        def greedy():
            n["g"] += 1
            return 200 + n["g"]

        start = S.real("start", 0, 1)
        end = S.real("end", 0, 1)
        if kind == "constant":
            ex = ConstantEpsilonGreedy(start, rnd, logger=CountingLogger())
        elif kind == "linear":
            D = 0 if zero else S.int("decay_steps", 1, 10**7)
            ex = LinearDecayEpsilonGreedy(start, end, D, rnd, logger=CountingLogger())
        else:
            decay = S.real("decay", 0, 1, lo_strict=0, hi_strict=1)
            ex = ExponentialDecayEpsilonGreedy(start, end, decay, rnd, logger=CountingLogger())
        for c in range(calls):
            if kind == "exponential":
                t = S.choice("t%d" % c, 5)
            else:
                t = S.int("t%d" % c, 0, 2 * 10**7)
            R.draws.clear()
            n0 = dict(n)
            a = ex.select_action(t, greedy)
            ds = _draw(R)
            S.check(len(ds) == 1, "one draw decides")
            u = ds[0]
            # the current epsilon, per definition
            if kind == "constant":
                eps = start
            elif kind == "linear":
                if S.le(D, t):
                    S.cover("after the decay")
                    eps = end
                else:
                    S.cover("during the decay")
                    eps = start + (end - start) * (t / D)
            else:
                e = start
                for _ in range(t):
                    e = e * decay
                eps = e if S.lt(end, e) else end
                S.cover("floor" if eps is end else "above the floor")
            if kind != "constant":
                S.check_eq(ex.epsilon, eps, "the current epsilon follows the schedule")
                S.check_eq(ex.compute_epsilon(t), eps, "the computed epsilon follows the schedule")
                S.check(S.le(0, eps) and S.le(eps, 1), "epsilon stays a probability")
            # away from the rounding error of eps itself
            S.assume(or_(u < eps - 1e-6, u > eps + 1e-6, core.eq(u, eps)) if S.symbolic else True)
            S.check(a in (101 + n0["r"], 201 + n0["g"]), "the result of one of the two functions")
            if a == 101 + n0["r"]:
                S.cover("random")
                S.check(u < eps, "the random action is taken only when the draw falls below epsilon")
            else:
                S.cover("greedy")
                S.check(u >= eps, "the greedy action is taken only when the draw does not fall below epsilon")


def gaussian(S, dims, arr, low, high):
    from pfrl.explorers import AdditiveGaussian

    with sym_env(S, use_torch=False) as P:
        R = RngStub(S, P)

        def par(name, kind, lo=None, hi=None):
            if kind is None:
                return None, [None] * dims
            if kind == "array":
                v = [S.real("%s%d" % (name, i), lo, hi) for i in range(dims)]
                return R._arr(v, float), v
            v = S.real(name, lo, hi)
            return v, [v] * dims

        scale, sc = par("scale", "array" if arr else "scalar", 0, 10)
        lo_, lv = par("low", low, -50, 50)
        hi_, hv = par("high", high, -50, 50)
        for x, y in zip(lv, hv):
            if x is not None and y is not None:
                S.assume(S.le(x, y))
        ex = AdditiveGaussian(scale, lo_, hi_)
        for c in range(2):
            av = [S.real("a%d_%d" % (c, i), -100, 100) for i in range(dims)]
            a = R._arr(av, np.float32)
            R.draws.clear()
            out = ex.select_action(S.int("t%d" % c, 0, 10**6), lambda: a)
            zs = [d[1] for d in R.draws if d[0] == "z"]
            S.check(len(zs) == dims, "one noise value per dimension")
            S.check(tuple(out.shape) == (dims,), "shape of the action")
            for i in range(dims):
                S.check_eq(a[i], av[i], "the greedy action itself is not modified")
                w = av[i] + sc[i] * zs[i]
                if lv[i] is not None and w < lv[i]:
                    S.cover("clipped below")
                    w = lv[i]
                elif hv[i] is not None and hv[i] < w:
                    S.cover("clipped above")
                    w = hv[i]
                else:
                    S.cover("inside")
                S.check_eq(out[i], w, "greedy action plus scaled noise, clipped to the bounds")


def ou(S, dims, steps, start_with_mu, arr, theta):
    from pfrl.explorers import AdditiveOU

    with sym_env(S, use_torch=False) as P:
        R = RngStub(S, P)
        mu = S.real("mu", -10, 10)
        th = theta if theta is not None else S.real("theta", 0, 2, lo_strict=0, hi_strict=2)
        if arr:
            sg = [S.real("sigma%d" % i, 0, 10) for i in range(dims)]
            sigma = R._arr(sg, float)
        else:
            s = S.real("sigma", 0, 10)
            sg, sigma = [s] * dims, s
        ex = AdditiveOU(mu=mu, theta=th, sigma=sigma, start_with_mu=start_with_mu, logger=CountingLogger())
        x, past = None, []
        for c in range(steps):
            av = [S.real("a%d_%d" % (c, i), -10, 10) for i in range(dims)]
            a = R._arr(av, np.float32)
            R.draws.clear()
            out = ex.select_action(c, lambda: a)
            zs = [d[1] for d in R.draws if d[0] == "z"]
            S.check(tuple(out.shape) == (dims,), "shape of the action")
            S.check(len(zs) == (0 if c == 0 and start_with_mu else dims), "one noise value per dimension")
            if x is None:
                S.cover("start")
                if start_with_mu:
                    x = [mu] * dims
                else:
                    x = [out[i] - av[i] for i in range(dims)]
                    for i in range(dims):
                        d = x[i] - mu
                        S.check_eq(d * d * (2 * th - th * th), sg[i] * sg[i] * zs[i] * zs[i], "the process starts from its stationary distribution")
                        S.check(d * zs[i] >= (0 if S.symbolic else -1e-3), "the process starts from its stationary distribution (sign)")
            else:
                S.cover("evolve")
                x = [x[i] + th * (mu - x[i]) + sg[i] * zs[i] for i in range(dims)]
            past.append((out, [av[i] + x[i] for i in range(dims)]))
            for o, want in past:
                for i in range(dims):
                    S.check_eq(o[i], want[i], "the action is the greedy action plus the process, also after later steps")
            for i in range(dims):
                S.check_eq(a[i], av[i], "the greedy action itself is not modified")


def boltzmann(S, n):
    import pfrl
    from pfrl.explorers import Boltzmann, Greedy

    with sym_env(S) as P:
        seen = []

        def choice(a, size=None, replace=True, p=None):
            xs = list(range(int(a))) if np.ndim(a) == 0 else [int(v) for v in a]
            S.check(size is None and p is not None, "one draw with the given probabilities")
            k = S.choice("pick", len(xs))
            seen.append((xs, list(p), k))
            return xs[k]

        RngStub(S, P)
        P.set(np.random, "choice", choice)
        T = S.real("T", 0.1, 10)
        q, qv = real_tensor(S, "q", (1, n), -5, 5)
        ex = Boltzmann(T)
        av = pfrl.action_value.DiscreteActionValue(q)
        act = ex.select_action(0, lambda: 0, action_value=av)
        xs, p, k = seen[0]
        S.check(sorted(xs) == list(range(n)), "every action can be drawn")
        S.check(int(act) == xs[k], "the drawn action is returned")
        S.cover("drawn %d" % k)
        es = [_uexp(S, v / T) for v in qv]
        tot = sum(es[1:], es[0])
        for i, pi in zip(xs, p):
            S.check_eq(pi * tot, es[i], "probability of an action = softmax of values over temperature")
        S.check(Greedy().select_action(0, lambda: 7) == 7, "the greedy explorer returns the greedy action")


FN = ["ConstantEpsilonGreedy.select_action", "LinearDecayEpsilonGreedy.compute_epsilon/select_action", "ExponentialDecayEpsilonGreedy.compute_epsilon/select_action",
      "select_action_epsilon_greedily", "AdditiveGaussian.select_action", "AdditiveOU.select_action/evolve", "Boltzmann.select_action", "Greedy.select_action"]
ASSUMPTIONS = ["numpy's random functions return any value of their documented range; uniform draws within 1e-6 of epsilon (but not equal) are excluded",
               "real arithmetic; temperatures within [0.1, 10]"]
HARNESSES = [
    Harness(epsilon, quick=[dict(kind="constant", calls=2), dict(kind="linear", calls=2), dict(kind="linear", calls=1, zero=True), dict(kind="exponential", calls=2)],
            thorough=[dict(kind="constant", calls=3), dict(kind="linear", calls=3), dict(kind="linear", calls=2, zero=True), dict(kind="exponential", calls=3)],
            covers=["after the decay", "during the decay", "floor", "above the floor", "random", "greedy"], functions=FN,
            bounds="2 (3) calls at any step numbers up to 2e7 (exponential: up to 4), any start/end/decay"),
    Harness(gaussian, quick=[dict(dims=2, arr=a, low=l, high=h) for a in (False, True) for l, h in ((None, None), ("scalar", "scalar"), ("array", "array"), ("scalar", None), (None, "array"))],
            thorough=[dict(dims=3, arr=a, low=l, high=h) for a in (False, True) for l, h in ((None, None), ("scalar", "scalar"), ("array", "array"), ("scalar", None), (None, "array"))],
            covers=["clipped below", "clipped above", "inside"], functions=FN, bounds="2 (3) dimensions, all bound configurations"),
    Harness(ou, quick=[dict(dims=1, steps=3, start_with_mu=m, arr=False, theta=None) for m in (False, True)] + [dict(dims=2, steps=2, start_with_mu=m, arr=True, theta=None) for m in (False, True)],
            thorough=[dict(dims=2, steps=4, start_with_mu=m, arr=a, theta=None) for m in (False, True) for a in (False, True)],
            covers=["start", "evolve"], functions=FN, bounds="up to 3 (4) steps, 1-2 dimensions, any mu, sigma and theta in (0, 2)"),
    Harness(boltzmann, quick=[dict(n=2), dict(n=3)], thorough=[dict(n=2), dict(n=3), dict(n=4)], covers=["drawn 0", "drawn 1"], functions=FN,
            bounds="2-3 (4) actions, any values and temperature"),
]
