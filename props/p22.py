"""P22: parameter synchronization."""
import torch
from torch import nn

from .common import *
from .tab import param


class Net(nn.Module):
    """Module with parameters, floating-point and integer buffers, nesting and a bfloat16 entry."""

    def __init__(self, S, name, rows, cols, child=True):
        super().__init__()
        self.vals = {}
        self.S = S

        def t(n, shape, dtype=torch.float32):
            x, v = real_tensor(S, name + "_" + n, shape, -5, 5, dtype=dtype)
            self.vals[n] = v
            return x

        self.w = nn.Parameter(t("w", (rows, cols)))
        self.s = nn.Parameter(t("s", ()))
        self.frozen = nn.Parameter(t("frozen", (1,)), requires_grad=False)
        self.register_buffer("mean", t("mean", (cols,)))
        self.register_buffer("d", t("d", (2,), torch.float64))
        if S.symbolic:
            self.register_buffer("h", t("h", (2,), torch.bfloat16))
        else:  # values representable in bfloat16
            self.register_buffer("h", t("h", (2,), torch.bfloat16))
            self.vals["h"] = [float(x) for x in self.h]
        k = S.int(name + "_count", 0, 1000)
        self.vals["count"] = [k]
        self.register_buffer("count", tensor(S, k, torch.int64))
        f = S.bool(name + "_flag")
        self.vals["flag"] = [f]
        self.register_buffer("flag", tensor(S, [f], torch.bool))
        self.child = Net(S, name + "_c", 1, 2, child=False) if child else None

    def flat(self, pre=""):
        """name -> current entries"""
        out = {}
        for n in ("w", "s", "frozen", "mean", "d", "h", "count", "flag"):
            out[pre + n] = elems(getattr(self, n))
        if self.child is not None:
            out.update(self.child.flat(pre + "child."))
        return out

    def want(self, pre=""):
        out = {pre + n: v for n, v in self.vals.items()}
        if self.child is not None:
            out.update(self.child.want(pre + "child."))
        return out


def _cmp(S, got, want, msg):
    S.check(set(got) == set(want), "entries")
    for k in want:
        S.check(len(got[k]) == len(want[k]), "sizes")
        for x, y in zip(got[k], want[k]):
            if k.endswith("flag"):
                S.check(S.eq(x, y), msg + " (%s)" % k)
            elif k.endswith("h") and not S.symbolic:
                S.check(abs(x - y) <= 0.05 * (1 + abs(y)), msg + " (%s)" % k)
            else:
                S.check_eq(x, y, msg + " (%s)" % k)


def _scramble(S, net, name):
    """Overwrite every entry of a network in place with fresh arbitrary values."""
    o = Net(S, name, 2, 2)
    with torch.no_grad():
        for a, b in zip(net.state_dict().values(), o.state_dict().values()):
            a.copy_(b)


def sync(S, method, repeats, public):
    from pfrl.utils import copy_param as M

    with sym_env(S):
        src, dst = Net(S, "src", 2, 2), Net(S, "dst", 2, 2)
        sv, dv = src.want(), dst.want()
        ids = [id(p) for p in dst.parameters()]
        for r in range(repeats):
            tau = S.real("tau", 0, 1) if method == "soft" else None
            if public:
                M.synchronize_parameters(src=src, dst=dst, method=method, tau=tau)
            elif method == "hard":
                M.copy_param(dst, src)
            else:
                M.soft_copy_param(dst, src, tau)
            if method == "hard":
                dv = dict(sv)
            else:
                dv = {k: (list(sv[k]) if k.split(".")[-1] in ("count", "flag") else [(1 - tau) * y + tau * x for x, y in zip(sv[k], dv[k])]) for k in dv}
            _cmp(S, dst.flat(), dv, "every entry of the target is synchronized")
            _cmp(S, src.flat(), sv, "the source is not modified")
            S.check([id(p) for p in dst.parameters()] == ids, "the target keeps its parameter objects (optimizers refer to them)")
            S.check(all(not (isinstance(p, nn.Parameter) and p.grad_fn is not None) for p in dst.parameters()), "no graph attached")
            # later changes of the source do not reach the target
            S.assume(True)
            new = Net(S, "new%d" % r, 2, 2)
            with torch.no_grad():
                for a, b in zip(src.state_dict().values(), new.state_dict().values()):
                    a.copy_(b)
            sv = new.want()
            _cmp(S, src.flat(), sv, "harness: source overwritten")
            _cmp(S, dst.flat(), dv, "the target does not follow later changes of the source")
            S.cover(method)


def grads(S):
    from pfrl.utils import copy_param as M

    with sym_env(S):
        src, dst = Net(S, "src", 1, 2, child=False), Net(S, "dst", 1, 2, child=False)
        sv, dv = src.want(), dst.want()
        want = {}
        for n in ("w", "s"):
            for m, who in ((src, "src"), (dst, "dst")):
                if S.flag("%s has %s grad" % (who, n)):
                    p = getattr(m, n)
                    g, v = real_tensor(S, "g_%s_%s" % (who, n), tuple(p.shape), -5, 5)
                    p.grad = g
                    if m is src:
                        want[n] = v
        M.copy_grad(dst, src)
        for rep in range(2):
            for n in ("w", "s"):
                g = getattr(dst, n).grad
                if n in want:
                    S.cover("copied")
                    S.check(g is not None and g is not getattr(src, n).grad, "the target gets its own gradient")
                    for x, y in zip(elems(g), want[n]):
                        S.check_eq(x, y, "gradients are copied exactly")
                else:
                    S.cover("absent")
                    S.check(g is None, "absent gradients stay absent")
            _cmp(S, dst.flat(), dv, "parameters are not touched by gradient copies")
            _cmp(S, src.flat(), sv, "parameters are not touched by gradient copies")
            for n in ("w", "s"):  # later source changes
                if getattr(src, n).grad is not None:
                    with torch.no_grad():
                        getattr(src, n).grad.mul_(3).add_(1)


FN = ["copy_param", "soft_copy_param", "copy_grad", "synchronize_parameters"]
ASSUMPTIONS = ["one module layout: nested modules with float32 matrix/scalar/frozen parameters, float32, float64, bfloat16, integer and boolean buffers"]
HARNESSES = [
    Harness(sync, quick=[dict(method=m, repeats=2, public=p) for m in ("hard", "soft") for p in (False, True)], thorough=[dict(method=m, repeats=3, public=p) for m in ("hard", "soft") for p in (False, True)],
            covers=["hard", "soft"], functions=FN, bounds="2 (3) synchronizations with arbitrary source changes in between, any tau in [0, 1]"),
    Harness(grads, quick=[dict()], thorough=[dict()], covers=["copied", "absent"], functions=FN, bounds="any subset of gradients present"),
]
