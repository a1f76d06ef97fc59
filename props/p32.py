"""P32: policy heads, bounded outputs, modes."""
import math

import torch
from torch import nn

from .common import *
from . import tab


def tanh(S, x):
    return core.stanh(x) if S.symbolic else math.tanh(x)


def softplus(S, x):
    return core.ssoftplus(x) if S.symbolic else float(nn.functional.softplus(torch.tensor(float(x))))


def gaussian(S, d, means, var, msg, x):
    """d is an independent Gaussian per row with these means and variances (rows x dims)."""
    n, k = len(means), len(means[0])
    S.check(tuple(d.batch_shape) == (n,) and tuple(d.event_shape) == (k,), msg + ": one distribution over the whole action per row")
    m, v = elems(d.mean), elems(d.variance)
    for i in range(n):
        for j in range(k):
            S.check_eq(m[i * k + j], means[i][j], msg + ": mean")
            S.check_eq(v[i * k + j], var[i][j], msg + ": variance")
    mode = elems(_mode(d))
    for i in range(n):
        for j in range(k):
            S.check_eq(mode[i * k + j], means[i][j], "the mode of a Gaussian is its mean")
    # moving one coordinate away from the mean changes the log-density exactly as for a Gaussian
    av = [S.real("%sa%d" % (x, j), -2, 2) for j in range(k)]
    lm = elems(d.log_prob(d.mean))
    S.check(len(lm) == n, "one log-density per row")
    flat = [v for r in means for v in r]
    for j in range(k):
        pt = tensor(S, [flat[i] + (av[j] if i % k == j else 0.0) for i in range(n * k)]).reshape(n, k)
        la = elems(d.log_prob(pt))
        for i in range(n):
            S.check_eq((lm[i] - la[i]) * 2 * var[i][j], av[j] * av[j], msg + ": log-density")


def _mode(d):
    from pfrl.utils.mode_of_distribution import mode_of_distribution

    return mode_of_distribution(d)


def heads(S, kind, n, k, var_type="spherical", func="default"):
    from pfrl import policies as PO

    with sym_env(S):
        vf = {"square": lambda x: x * x + 1, "double": lambda x: 2 * x + 8, "default": None}[func]
        of = {"square": lambda x: x * x + 1, "double": lambda x: 2 * x + 8, "default": lambda x: softplus(S, x)}[func]
        kw = {} if vf is None else dict(var_func=vf)
        if kind == "independent":
            init = 0.5
            head = PO.GaussianHeadWithStateIndependentCovariance(k, var_type=var_type, var_param_init=init, **kw)
            ps = list(head.parameters())
            S.check(len(ps) == 1 and ps[0].numel() == (1 if var_type == "spherical" else k), "one learned number per variance")
            S.check(all(float(v) == init for v in ps[0].detach().reshape(-1).tolist()), "initial value of the variance parameter")
            w = [S.real("w%d" % j, -3, 3) for j in range(ps[0].numel())]
            with torch.no_grad():
                head.var_param = nn.Parameter(tensor(S, w).reshape(tuple(ps[0].shape)))
            x, xv = real_tensor(S, "x", (n, k), -3, 3)
            means = [xv[i * k : (i + 1) * k] for i in range(n)]
            var = [[of(w[0] if var_type == "spherical" else w[j]) for j in range(k)] for _ in range(n)]
        elif kind == "diagonal":
            head = PO.GaussianHeadWithDiagonalCovariance(**kw)
            x, xv = real_tensor(S, "x", (n, 2 * k), -3, 3)
            rows = [xv[i * 2 * k : (i + 1) * 2 * k] for i in range(n)]
            means = [r[:k] for r in rows]
            var = [[of(v) for v in r[k:]] for r in rows]
        else:
            s = [0.125, 1, 3.0][S.choice("scale", 3)]
            head = PO.GaussianHeadWithFixedCovariance(s)
            x, xv = real_tensor(S, "x", (n, k), -3, 3)
            means = [xv[i * k : (i + 1) * k] for i in range(n)]
            var = [[s * s] * k for _ in range(n)]
        gaussian(S, head(x), means, var, kind, "x")
        S.cover("head")


def deterministic(S, n, k):
    from pfrl.policies import DeterministicHead
    from pfrl.distributions import Delta

    with sym_env(S):
        x, xv = real_tensor(S, "x", (n, k), -3, 3)
        x.requires_grad_(True)
        d = DeterministicHead()(x)
        S.check(tuple(d.batch_shape) == (n,) and tuple(d.event_shape) == (k,), "one action per row")
        for name, t in [("mean", d.mean), ("sample", d.sample()), ("reparameterized sample", d.rsample())]:
            S.check(tuple(t.shape) == (n, k), name + " shape")
            for a, b in zip(elems(t), xv):
                S.check_eq(a, b, name + " is the input")
        S.check(d.sample().requires_grad is False and d.rsample().requires_grad is True, "only reparameterized samples carry gradients")
        for a in elems(d.variance) + elems(d.stddev):
            S.check_eq(a, 0.0, "no spread")
        t = d.sample((2,))
        S.check(tuple(t.shape) == (2, n, k), "sample shape")
        for i, a in enumerate(elems(t)):
            S.check_eq(a, xv[i % (n * k)], "every sample is the input")
        e = Delta(x).expand((2, n, k))
        S.check(tuple(e.batch_shape) == (2, n, k), "expansion")
        for i, a in enumerate(elems(e.sample())):
            S.check_eq(a, xv[i % (n * k)], "expansion keeps the values")
        S.cover("delta")


def bounded(S, n, k, module):
    from pfrl.functions.bound_by_tanh import bound_by_tanh
    from pfrl.nn import BoundByTanh

    with sym_env(S):
        x, xv = real_tensor(S, "x", (n, k), -5, 5)
        lo = [S.real("lo%d" % j, -4, 4) for j in range(k)]
        hi = [S.real("hi%d" % j, -4, 4) for j in range(k)]
        for a, b in zip(lo, hi):
            S.assume(a <= b)
        arr = (lambda v: senv.obj_array(v)) if S.symbolic else (lambda v: np.array(v, dtype=np.float64))
        y = BoundByTanh(arr(lo), arr(hi))(x) if module else bound_by_tanh(x, arr(lo), arr(hi))
        S.check(tuple(y.shape) == (n, k), "shape")
        ys = elems(y)
        for i in range(n):
            for j in range(k):
                v = ys[i * k + j]
                S.check(S.le(lo[j], v), "not below the lower bound")
                S.check(S.le(v, hi[j]), "not above the upper bound")
                S.check_eq(v, (lo[j] + hi[j]) / 2 + (hi[j] - lo[j]) / 2 * tanh(S, xv[i * k + j]), "loc + scale * tanh(x)")
        for a, b in zip(elems(x), xv):
            S.check_eq(a, b, "the input is not modified")
        S.cover("bounded")


def triangular(S, n, k):
    from pfrl.functions.lower_triangular_matrix import lower_triangular_matrix

    with sym_env(S):
        d, dv = real_tensor(S, "d", (n, k), -3, 3)
        m = k * (k - 1) // 2
        o, ov = real_tensor(S, "o", (n, m), -3, 3)
        y = lower_triangular_matrix(d, o)
        S.check(tuple(y.shape) == (n, k, k), "shape")
        ys = elems(y)
        for b in range(n):
            c = 0
            for i in range(k):
                for j in range(k):
                    v = ys[(b * k + i) * k + j]
                    if i == j:
                        S.check_eq(v, dv[b * k + i], "diagonal")
                    elif j < i:
                        S.check_eq(v, ov[b * m + c], "below the diagonal, row by row")
                        c += 1
                    else:
                        S.check_eq(v, 0.0, "zero above the diagonal")
        S.cover("matrix")


def monotone(S, logits, k):
    """exp is increasing (instantiated on the logits of each row)"""
    for i in range(0, len(logits), k):
        for a in logits[i : i + k]:
            for b in logits[i : i + k]:
                ea, eb = core.sexp(a), core.sexp(b)
                za, zb = core.toreal(a), core.toreal(b)
                c = (za <= zb) == (core.toreal(ea) <= core.toreal(eb))
                S.lemma(c, c)


def categorical(S, n, k, head):
    """Softmax head: probabilities proportional to exp(logit); the mode has the largest probability."""
    from pfrl.policies import SoftmaxCategoricalHead

    with sym_env(S):
        x, xv = real_tensor(S, "x", (n, k), -3, 3)
        if head:
            d = SoftmaxCategoricalHead()(x)
        else:
            for v in xv:
                S.assume(v > 0)
            d = torch.distributions.Categorical(probs=x)
        S.check(tuple(d.batch_shape) == (n,) and tuple(d.event_shape) == (), "one choice per row")
        if S.symbolic and head:
            monotone(S, elems(d.logits), k)
        mode = [int(v) for v in elems(_mode(d))]
        S.check(len(mode) == n, "one mode per row")
        lps = [elems(d.log_prob(tensor(S, [a] * n, torch.int64))) for a in range(k)]
        for i in range(n):
            row = xv[i * k : (i + 1) * k]
            S.check(0 <= mode[i] < k, "the mode is an action")
            for a in range(k):
                S.check(S.le(row[a], row[mode[i]]), "the mode is a most probable action")
                if head and a:
                    S.check_eq(lps[a][i] - lps[0][i], row[a] - row[0], "probabilities are proportional to exp(logit)")
            S.cover("mode %d" % min(mode[i], 1))


def transformed(S, n, k):
    """Squashed and multivariate Gaussians, nested independents."""
    import torch.distributions as D

    with sym_env(S):
        x, xv = real_tensor(S, "x", (n, k), -3, 3)
        one = tensor(S, [S.real("s%d" % j, 0.25, 3) for j in range(n * k)]).reshape(n, k)
        base = D.Independent(D.Normal(x, one), 1)
        d = D.transformed_distribution.TransformedDistribution(base, [D.transforms.TanhTransform(cache_size=1)])
        for a, b in zip(elems(_mode(d)), xv):
            S.check_eq(a, tanh(S, b), "squashed Gaussian: the squashed mean")
        d = D.transformed_distribution.TransformedDistribution(base, [D.transforms.AffineTransform(1.0, 2.0), D.transforms.AffineTransform(-0.5, 4.0)])
        for a, b in zip(elems(_mode(d)), xv):
            S.check_eq(a, (2 * b + 1) * 4 - 0.5, "transforms are applied in order")
        try:
            _mode(D.Exponential(torch.ones(1)))
            S.check(False, "unsupported distributions are refused")
        except RuntimeError:
            pass
        S.cover("transformed")


FN = ["GaussianHeadWithStateIndependentCovariance", "GaussianHeadWithDiagonalCovariance", "GaussianHeadWithFixedCovariance", "DeterministicHead", "Delta", "SoftmaxCategoricalHead", "bound_by_tanh", "BoundByTanh", "lower_triangular_matrix", "mode_of_distribution"]
ASSUMPTIONS = ["torch.distributions' Normal/Categorical/Independent are executed symbolically as they are", "tanh, exp, softplus: uninterpreted functions with their ranges and monotonicity"]
HARNESSES = [
    Harness(heads, quick=[dict(kind="independent", n=1, k=2, var_type=v, func=f) for v in ("spherical", "diagonal") for f in ("default", "double")] + [dict(kind="diagonal", n=2, k=1, func=f) for f in ("default", "double")] + [dict(kind="diagonal", n=1, k=2, func="double"), dict(kind="fixed", n=1, k=2)],
            thorough=[dict(kind="independent", n=2, k=3, var_type=v, func=f) for v in ("spherical", "diagonal") for f in ("default", "double")] + [dict(kind="diagonal", n=2, k=2, func=f) for f in ("default", "double")] + [dict(kind="fixed", n=2, k=3)],
            covers=["head"], functions=FN, bounds="1-2 rows of 1-2 (3) action dimensions, any means and variance parameters"),
    Harness(deterministic, quick=[dict(n=2, k=2)], thorough=[dict(n=3, k=3)], covers=["delta"], functions=FN, bounds="2x2 (3x3)"),
    Harness(bounded, quick=grid(n=[2], k=[2], module=[False, True]), thorough=grid(n=[3], k=[3], module=[False, True]), covers=["bounded"], functions=FN, bounds="2x2 (3x3), any bounds low <= high"),
    Harness(triangular, quick=grid(n=[2], k=[1, 2, 3]) + [dict(n=1, k=4)], thorough=grid(n=[3], k=[4]), covers=["matrix"], functions=FN, bounds="1-2 (3) matrices of size 1-4"),
    Harness(categorical, quick=grid(n=[1], k=[2, 3], head=[False, True]) + [dict(n=2, k=2, head=True)], thorough=grid(n=[2], k=[3], head=[False, True]), covers=["mode 0", "mode 1"], functions=FN, bounds="1-2 rows of 2-3 actions"),
    Harness(transformed, quick=[dict(n=1, k=2)], thorough=[dict(n=2, k=3)], covers=["transformed"], functions=FN),
]
