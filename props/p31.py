"""P31: RMSprop with eps inside the root, gradient norm clipping."""
import math

import torch
from torch import nn

from .common import *
from . import tab


def root(S, x):
    return core.ssqrt(x) if S.symbolic else math.sqrt(x)


def setgrad(S, p, vals):
    p.grad = tensor(S, vals).reshape(tuple(p.shape))


def rmsprop(S, shared, steps, momentum, centered, wd, groups):
    """p <- p - lr * g / sqrt(E[g^2] (- E[g]^2) + eps), from fresh state, any gradients."""
    from pfrl.optimizers import RMSpropEpsInsideSqrt, SharedRMSpropEpsInsideSqrt

    cls = SharedRMSpropEpsInsideSqrt if shared else RMSpropEpsInsideSqrt
    with sym_env(S):
        lr, alpha, eps = 0.5, 0.5, 0.25
        ps = [tab.param(S, "p%d" % i, (1,) if steps > 1 else (2,), -3, 3) for i in range(groups)]
        hyp = [dict(lr=lr * (1 + i), alpha=alpha if i == 0 else 0.75, eps=eps * (1 + i)) for i in range(groups)]
        opt = cls([dict(params=[p], **h) for (p, _), h in zip(ps, hyp)], lr=9.0, momentum=momentum, centered=centered, weight_decay=wd)
        none = tab.param(S, "unused", (1,), -3, 3)
        opt.add_param_group(dict(params=[none[0]])) if not shared else None
        if shared:
            for p, _ in ps:  # state exists before the first step, so that it can be shared
                st = opt.state[p]
                S.check("square_avg" in st and (not momentum or "momentum_buffer" in st) and (not centered or "grad_avg" in st), "the shared variant creates its state at construction")
        st = [[dict(p=v, sq=0.0, m=0.0, b=0.0) for v in vs] for _, vs in ps]
        for t in range(steps):
            gs = []
            for k, (p, vs) in enumerate(ps):
                skip = groups > 1 and k == 0 and t == 0
                g = None if skip else [S.real("g%d_%d_%d" % (k, t, j), -3, 3) for j in range(len(vs))]
                if g is None:
                    p.grad = None
                else:
                    setgrad(S, p, g)
                gs.append(g)
            called = []
            loss = opt.step((lambda: called.append(1) or 7.0) if t == 0 else None)
            if t == 0:
                S.check(len(called) == 1 and loss == 7.0, "the closure's loss is returned")
            for k, (p, vs) in enumerate(ps):
                new = elems(p)
                h = hyp[k]
                for j in range(len(vs)):
                    x = st[k][j]
                    if gs[k] is None:
                        S.cover("no gradient")
                        S.check_eq(new[j], x["p"], "a parameter without gradient stays")
                        continue
                    g = gs[k][j] + wd * x["p"]
                    x["sq"] = h["alpha"] * x["sq"] + (1 - h["alpha"]) * g * g
                    den = x["sq"]
                    if centered:
                        x["m"] = h["alpha"] * x["m"] + (1 - h["alpha"]) * g
                        den = den - x["m"] * x["m"]
                    r = root(S, den + h["eps"])
                    if momentum:
                        x["b"] = momentum * x["b"] + g / r
                        want = x["p"] - h["lr"] * x["b"]
                    else:
                        want = x["p"] - h["lr"] * g / r
                    S.check_eq(new[j], want, "the update rule")
                    x["p"] = new[j] if S.symbolic else want
                    S.cover("updated")
                    # the gradient itself is not modified
                    S.check_eq(elems(p.grad)[j], gs[k][j], "gradients are not modified")
        S.check_eq(elems(none[0])[0], none[1][0], "a parameter without gradient stays")


def clip(S, shapes, none, single):
    """One common factor; joint norm at most the limit; smaller gradients unchanged; the norm is returned."""
    from pfrl.utils import clip_l2_grad_norm_

    with sym_env(S):
        lim = S.real("limit", 0.125, 4) if sum(int(np.prod(s)) for s in shapes) == 1 else [0.5, 2.0][S.choice("limit", 2)]
        ps, gs = [], []
        for i, sh in enumerate(shapes):
            p, v = tab.param(S, "p%d" % i, sh, -1, 1)
            n = int(np.prod(sh))
            if i in none:
                p.grad = None
                gs.append(None)
            else:
                g = [S.real("g%d_%d" % (i, j), -3, 3) for j in range(n)]
                setgrad(S, p, g)
                gs.append(g)
            ps.append((p, v))
        ret = clip_l2_grad_norm_(ps[0][0] if single else iter([p for p, _ in ps]) if none else [p for p, _ in ps], lim)
        sq = sum((x * x for g in gs if g for x in g), 0.0)
        tot = 0.0
        ret = scalar(ret) if isinstance(ret, torch.Tensor) else ret
        S.check(ret >= 0, "the norm before clipping is returned")
        S.check_eq(ret * ret, sq, "the norm before clipping is returned")
        after = []
        for (p, v), g in zip(ps, gs):
            for j, x in enumerate(elems(p)):
                S.check_eq(x, v[j], "parameters are not touched")
            if g is None:
                S.check(p.grad is None, "an absent gradient stays absent")
                continue
            after.append((g, elems(p.grad)))
        flat = [(x, y) for g, h in after for x, y in zip(g, h)]
        for i, (x, y) in enumerate(flat):
            for x2, y2 in flat[i + 1:]:
                S.check_eq(x * y2, x2 * y, "one common factor for all gradients")
            S.check(x * y >= (0 if S.symbolic else -1e-6), "gradients keep their direction")
        new = sum((y * y for _, y in flat), 0.0)
        if S.le(ret + 0.00001, lim):
            S.cover("small")
            for x, y in flat:
                S.check_eq(y, x, "gradients within the limit stay unchanged")
        elif S.le(lim, ret):
            S.cover("large")
            # new = (lim * n / (n + 1e-6))^2, so within 1e-5 below the limit
            S.check(S.le(new, lim * lim), "the joint norm is at most the limit")
            S.check(S.le((lim - 0.00001) * (lim - 0.00001), new), "gradients are not shrunk further than the limit")


def agents_clip(S, kind):
    """No parameters at all: norm 0."""
    from pfrl.utils import clip_l2_grad_norm_

    with sym_env(S):
        S.check_eq(clip_l2_grad_norm_([], S.real("limit", 0.125, 4)), 0, "no parameters: norm 0")
        S.cover("empty")


FN = ["RMSpropEpsInsideSqrt.step", "SharedRMSpropEpsInsideSqrt.__init__", "clip_l2_grad_norm_"]
ASSUMPTIONS = ["real arithmetic; learning rate, smoothing, eps, momentum and weight decay from a fixed set of values, parameters and gradients arbitrary", "CPU branch of clip_l2_grad_norm_"]
HARNESSES = [
    Harness(rmsprop, quick=[dict(shared=s, steps=n, momentum=m, centered=c, wd=w, groups=g) for s in (False, True) for n, m, c, w, g in [(1, 0, False, 0, 1), (1, 0.5, True, 0.25, 1), (2, 0, False, 0, 1), (2, 0, True, 0, 1), (2, 0.5, False, 0, 1), (2, 0, False, 0.25, 1), (2, 0, False, 0, 2), (1, 0.5, False, 0.25, 2)]],
            thorough=[dict(shared=s, steps=n, momentum=m, centered=c, wd=w, groups=g) for s in (False, True) for n, m, c, w, g in [(3, 0, False, 0, 1), (3, 0.5, False, 0, 1), (2, 0.5, True, 0.25, 1), (3, 0, True, 0, 1), (3, 0, False, 0.25, 2)]],
            covers=["updated", "no gradient"], functions=FN, bounds="1-2 (3) steps from fresh state, 1-2 parameter groups, entries and gradients in [-3, 3]"),
    Harness(clip, quick=[dict(shapes=[(1,)], none=[], single=True), dict(shapes=[(1,), (1, 1)], none=[], single=False), dict(shapes=[(2,)], none=[], single=False), dict(shapes=[(1,), (1,)], none=[0], single=False), dict(shapes=[(1,), (1,)], none=[0, 1], single=False)],
            thorough=[dict(shapes=[(2,), (1, 1)], none=[], single=False), dict(shapes=[(2,), (1,), (2,)], none=[1], single=False)], covers=["small", "large"], functions=FN, bounds="up to 2 (3-4) entries in 2 tensors, entries in [-3, 3], limits in [1/8, 4] (1/2 and 2 for several entries)"),
    Harness(agents_clip, quick=[dict(kind=0)], covers=["empty"], functions=FN),
]
