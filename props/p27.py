"""P27: running normalization."""
import torch
from torch import nn

from .common import *


def _set(S, en, n, m, v, axis):
    """Put the module into the state reached after n samples with mean m and variance v."""
    sh = tuple(en._mean.shape)
    with torch.no_grad():
        en._mean = tensor(S, m).reshape(sh)
        en._var = tensor(S, v).reshape(sh)
        en.count = tensor(S, n, torch.int64)
    en._cached_std_inverse = None


def _state(en):
    return elems(en._mean), elems(en._var), elems(en.count)[0]


def _x(S, name, k, d, axis):
    t, v = real_tensor(S, name, (k, d) if axis == 0 else (d, k), -3, 3)
    rows = [[v[i * d + j] if axis == 0 else v[j * k + i] for j in range(d)] for i in range(k)]
    return t, rows


def _normalized(S, x, y, mean, var, eps, clip, msg):
    """y = clip((x - mean) / sqrt(var + eps))"""
    d = x - mean
    if clip is not None:
        if S.le(clip * clip * (var + eps), d * d):
            S.cover("clipped")
            if S.symbolic:
                S.check(or_(and_(d >= 0, core.eq(y, clip)), and_(d <= 0, core.eq(y, -clip))), msg + " (clipped)")
            else:
                S.check_eq(y, clip if d >= 0 else -clip, msg + " (clipped)")
            return
        S.cover("inside")
    S.check_eq(y * y * (var + eps), d * d, msg + " (magnitude)")
    S.check(y * d >= (0 if S.symbolic else -1e-3), msg + " (sign)")


def step(S, k, d, axis, until, clip, first, roundtrip):
    """One batch from an arbitrary earlier state: by induction the statistics are those of all data."""
    from pfrl.nn import EmpiricalNormalization

    with sym_env(S):
        eps = 0.25
        lim = S.int("until", 0, 100) if until else None
        en = EmpiricalNormalization(d, batch_axis=axis, eps=eps, until=lim, clip_threshold=clip)
        if first:
            m0, v0, n0 = _state(en)
            S.check(all(float(x) == 0 for x in m0) and int(n0) == 0, "nothing seen: zero mean")
            n = S.int("n", 0, 0)  # exact arithmetic on counts
        else:
            n = S.int("n", 1, 50)
            if k >= 2 or roundtrip:  # keeps the solver's problems linear in the count
                S.assume(S.eq(n, [1, 2, 5, 50][S.choice("seen", 4)]))
        m = [S.real("m%d" % j, *((0, 0) if first else (-3, 3))) for j in range(d)]
        v = [S.real("v%d" % j, *((1, 1) if first else (0, 9))) for j in range(d)]
        _set(S, en, n, m, v, axis)
        x, rows = _x(S, "x", k, d, axis)
        # using the module before must not leave stale values behind
        y0 = en(x, update=False)
        mm, vv, cc = _state(en)
        for j in range(d):
            S.check_eq(mm[j], m[j], "normalizing without update changes nothing")
            S.check_eq(vv[j], v[j], "normalizing without update changes nothing")
        S.check_eq(cc, n, "normalizing without update changes nothing")
        how = S.choice("how", 2) if k else 0
        if how == 0:
            y = en(x)
        else:
            en.experience(x)
            y = en(x, update=False)
        mm, vv, cc = _state(en)
        learn = k > 0 and (lim is None or not S.le(lim, n))
        if not learn:
            S.cover("not learning")
            S.check_eq(cc, n, "nothing is learned once enough has been seen or from an empty batch")
            for j in range(d):
                S.check_eq(mm[j], m[j], "nothing is learned once enough has been seen or from an empty batch")
                S.check_eq(vv[j], v[j], "nothing is learned once enough has been seen or from an empty batch")
        else:
            S.cover("learning")
            S.check_eq(cc, n + k, "the number of samples seen")
            for j in range(d):
                tot = sum((r[j] for r in rows), 0.0)
                sq = sum((r[j] * r[j] for r in rows), 0.0)
                S.check_eq(mm[j] * (n + k), n * m[j] + tot, "the mean is the mean of all samples seen")
                S.check_eq((vv[j] + mm[j] * mm[j]) * (n + k), n * (v[j] + m[j] * m[j]) + sq, "the variance is the population variance of all samples seen")
        if not roundtrip:
            return
        ys = elems(y)
        en._mean, en._var  # the statistics used below are the module's own, checked above
        for i in range(k):
            for j in range(d):
                _normalized(S, rows[i][j], ys[i * d + j if axis == 0 else j * k + i], mm[j], vv[j], eps, clip, "normalization subtracts the mean and divides by sqrt(var + eps)")


def use(S, d, clip, load):
    """Normalization, its inverse and reported statistics from an arbitrary state."""
    from pfrl.nn import EmpiricalNormalization

    with sym_env(S):
        eps = 0.25
        en = EmpiricalNormalization(d, eps=eps, clip_threshold=clip)
        m = [S.real("m%d" % j, -3, 3) for j in range(d)]
        v = [S.real("v%d" % j, 0, 9) for j in range(d)]
        n = S.int("n", 1, 50)
        x, rows = _x(S, "x", 2, d, 0)
        if load:
            en(x, update=False)  # used before (caches may exist)
            other = EmpiricalNormalization(d, eps=eps, clip_threshold=clip)
            _set(S, other, n, m, v, 0)
            en.load_state_dict(other.state_dict())
            S.cover("loaded")
        else:
            _set(S, en, n, m, v, 0)
        y = en(x, update=False)
        z = elems(en.inverse(y))
        ys = elems(y)
        S.cover("used")
        for i in range(2):
            for j in range(d):
                _normalized(S, rows[i][j], ys[i * d + j], m[j], v[j], eps, clip, "normalization subtracts the mean and divides by sqrt(var + eps)")
                if clip is None:
                    S.check_eq(z[i * d + j], rows[i][j], "the inverse undoes the normalization")
        mean, std = elems(en.mean), elems(en.std)
        S.check(len(mean) == d and len(std) == d, "shape of the statistics")
        for j in range(d):
            S.check_eq(mean[j], m[j], "reported mean")
            S.check_eq(std[j] * std[j], v[j], "reported standard deviation")
            S.check(std[j] >= 0, "reported standard deviation")
        en.mean.add_(1)
        for j in range(d):
            S.check_eq(elems(en.mean)[j], m[j], "the reported mean is a copy")


def rewards(S, kind, steps):
    from pfrl.utils import reward_filter as F

    with sym_env(S, use_torch=False):
        tau = S.real("tau", 0, 1, lo_strict=0, hi_strict=1) if kind == "average" else [0.125, 0.5][S.choice("tau", 2)]
        scale = [1.0, -2.0][S.choice("scale", 2)]
        f = F.AverageRewardFilter(tau) if kind == "average" else F.NormalizedRewardFilter(tau, scale, 0.25)
        a = q = 0.0
        for t in range(steps):
            r = S.real("r%d" % t, -3, 3)
            o = f(r)
            a = (1 - tau) * a + tau * r
            q = (1 - tau) * q + tau * r * r
            if kind == "average":
                S.check_eq(o, r - a, "the running average is subtracted")
            else:
                var = q - a * a
                den = var if var > 0.25 else 0.25
                w = scale * (r - a)
                S.check_eq(o * o * den, w * w, "the reward is divided by sqrt(max(variance, eps))")
                S.check(o * w >= (0 if S.symbolic else -1e-6), "the reward keeps its sign")
            S.cover("filtered")


FN = ["EmpiricalNormalization.experience/forward/inverse/mean/std/_load_from_state_dict", "AverageRewardFilter.__call__", "NormalizedRewardFilter.__call__"]
ASSUMPTIONS = ["real arithmetic; eps = 0.25", "one inductive step from an arbitrary state (n samples with any mean and variance); histories of any length follow from the base case and that step"]
HARNESSES = [
    Harness(step, quick=[dict(k=k, d=1, axis=0, until=u, clip=None, first=f, roundtrip=k <= 1) for k in (0, 1, 2, 3) for u in (False, True) for f in (False, True)] + [dict(k=1, d=1, axis=0, until=True, clip=None, first=False, roundtrip=False)] + [dict(k=2, d=2, axis=a, until=False, clip=None, first=False, roundtrip=False) for a in (0, 1)],
            thorough=[dict(k=k, d=2, axis=a, until=u, clip=None, first=f, roundtrip=k <= 1) for k in (0, 1, 2, 4) for a in (0, 1) for u in (False, True) for f in (False, True)],
            covers=["learning", "not learning"], functions=FN, bounds="batches of up to 3 (4) samples of 1-2 features; any earlier statistics of n samples (single samples: any n up to 50; larger batches: n in 1, 2, 5, 50)"),
    Harness(use, quick=[dict(d=1, clip=c, load=l) for c in (None, 0.5) for l in (False, True)], thorough=[dict(d=2, clip=c, load=l) for c in (None, 0.5) for l in (False, True)],
            covers=["used", "loaded", "clipped", "inside"], functions=FN, bounds="2 samples of 1 (2) features, any statistics"),
    Harness(rewards, quick=[dict(kind="average", steps=3), dict(kind="normalized", steps=2)], thorough=[dict(kind="average", steps=4), dict(kind="normalized", steps=3)], covers=["filtered"], functions=FN, bounds="2-3 (3-4) rewards, scale 1 and -2, any tau (normalized: 1/8, 1/2)"),
]
