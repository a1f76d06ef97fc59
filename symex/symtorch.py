"""Symbolic torch tensors.

`SymTensor` is a wrapper tensor subclass: its payload is an int64 tensor of
indices into a pool of scalars (python numbers or SymNum/SymBool).  Data-movement
operators run real torch on the index tensor (so views, aliasing and in-place
writes behave exactly as in torch); arithmetic operators are interpreted scalar by
scalar as z3 real/int/bool terms.  Because interpretation happens at
`__torch_dispatch__` level, torch's own Python layers, composite operators and
autograd run unchanged on top of it.
"""
import contextlib
import math
import numbers

import numpy as np
import torch
import z3
from torch.utils._python_dispatch import TorchDispatchMode, return_and_correct_aliasing
from torch.overrides import TorchFunctionMode
from torch.utils._pytree import tree_map, tree_flatten, tree_unflatten

from . import core
from .core import Unsupported, SymBool, SymNum, is_sym

aten = torch.ops.aten

POOL = []
_CONST = {}


def reset_pool():
    POOL.clear()
    _CONST.clear()


def pool(x):
    if not is_sym(x):
        key = (type(x), x)
        try:
            i = _CONST.get(key)
        except TypeError:
            i = None
        if i is not None:
            return i
        POOL.append(x)
        _CONST[key] = len(POOL) - 1
        return len(POOL) - 1
    POOL.append(x)
    return len(POOL) - 1


_disable = torch._C._DisableTorchDispatch


@contextlib.contextmanager
def plain():
    """Run real torch, bypassing modes and subclasses."""
    with torch._C.DisableTorchFunction(), torch.utils._python_dispatch._disable_current_modes():
        yield


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, ids, dtype, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(
            cls,
            ids.shape,
            strides=ids.stride(),
            storage_offset=ids.storage_offset(),
            dtype=dtype,
            device="cpu",
            requires_grad=requires_grad,
        )
        r.ids = ids
        return r

    def __init__(self, ids, dtype, requires_grad=False):
        pass

    def __repr__(self, **kw):
        return "SymTensor(shape=%s, dtype=%s)" % (tuple(self.ids.shape), self.dtype)

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __reduce_ex__(self, proto):
        raise Unsupported("pickling SymTensor")

    def __deepcopy__(self, memo):
        with plain():
            ids = self.ids.clone()
        t = SymTensor(ids, self.dtype)
        if self.requires_grad:
            t.requires_grad_(True)
        return t


def scalars(t):
    """Flat list of scalars of any tensor."""
    if isinstance(t, SymTensor):
        with plain():
            l = t.ids.reshape(-1).tolist()
        return [POOL[i] for i in l]
    with plain():
        return t.detach().reshape(-1).tolist()


def ids_of(t):
    if isinstance(t, SymTensor):
        return t.ids
    with plain():
        l = t.detach().reshape(-1).tolist()
        return torch.tensor([pool(x) for x in l], dtype=torch.int64).reshape(t.shape)


def make(vals, shape, dtype):
    with plain():
        ids = torch.tensor([pool(v) for v in vals], dtype=torch.int64).reshape(tuple(shape))
    return SymTensor(ids, dtype)


def lift(t):
    if isinstance(t, SymTensor):
        return t
    return SymTensor(ids_of(t), t.dtype)


def is_concrete(t):
    if not isinstance(t, SymTensor):
        return True
    return not any(is_sym(v) for v in scalars(t))


def concrete_index(t):
    """SymTensor of ints -> plain LongTensor, forking on symbolic entries."""
    if not isinstance(t, SymTensor):
        return t
    vals = []
    for v in scalars(t):
        if isinstance(v, SymBool):
            v = bool(v)
        elif isinstance(v, SymNum):
            v = v.__int__()
        vals.append(v)
    with plain():
        if t.dtype == torch.bool:
            return torch.tensor([bool(v) for v in vals], dtype=torch.bool).reshape(t.shape)
        return torch.tensor([int(v) for v in vals], dtype=torch.int64).reshape(t.shape)


def concretize_all(x):
    def f(a):
        return concrete_index(a) if isinstance(a, SymTensor) else a

    return tree_map(f, x)


def to_dtype(v, dtype):
    """Scalar conversion at a cast."""
    if dtype == torch.bool:
        if is_sym(v):
            return v if isinstance(v, SymBool) else (v != 0)
        return bool(v)
    if dtype.is_floating_point:
        if isinstance(v, SymBool):
            return SymNum(core.toreal(v))
        if isinstance(v, SymNum):
            return SymNum(z3.ToReal(v.z)) if v.is_int else v
        return float(v)
    # integer
    if isinstance(v, SymBool):
        return SymNum(core.term(v))
    if isinstance(v, SymNum):
        if v.is_int:
            return v
        t = z3.If(v.z >= 0, z3.ToInt(v.z), -z3.ToInt(-v.z))
        return core.mknum(z3.simplify(t))
    if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
        raise Unsupported("cast of inf/nan to int")
    return int(v)


# --------------------------------------------------------------------------
# scalar kernels


def _num(v):
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    return v


def _nan(v):
    return isinstance(v, float) and v != v


NAN = float("nan")


def k_add(a, b):
    a, b = _num(a), _num(b)
    if _nan(a) or _nan(b):
        return NAN
    if core.isinf(a) and core.isinf(b) and a != b:
        return NAN
    if core.isinf(a) or core.isinf(b):
        return a if core.isinf(a) else b
    if isinstance(a, SymBool):
        a = a._num()
    if isinstance(b, SymBool):
        b = b._num()
    return a + b


def k_neg(a):
    return -_num(a)


def k_sub(a, b):
    return k_add(a, k_neg(b))


def k_mul(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return a & b
    if _nan(a) or _nan(b):
        return NAN
    if not is_sym(a) and not isinstance(a, SymBool) and a == 0 and not core.isinf(b):
        return 0.0 if isinstance(a, float) else a
    if not is_sym(b) and not isinstance(b, SymBool) and b == 0 and not core.isinf(a):
        return 0.0 if isinstance(b, float) else b
    if isinstance(a, SymBool):
        return core.ite(a, b, 0)
    if isinstance(b, SymBool):
        return core.ite(b, a, 0)
    if core.isinf(a) or core.isinf(b):
        if is_sym(a) or is_sym(b):
            raise Unsupported("inf * symbolic")
    return a * b


def k_div(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, SymBool):
        a = a._num()
    if isinstance(b, SymBool):
        b = b._num()
    if _nan(a) or _nan(b):
        return NAN
    if not is_sym(b) and b == 0:
        if not is_sym(a):
            if a == 0:
                return float("nan")
            return math.inf if a > 0 else -math.inf
        raise Unsupported("division of symbolic by concrete zero")
    if is_sym(a) or is_sym(b):
        if core.isinf(b):
            return 0.0
        return core.fdiv(a, b)
    if math.isinf(a) or math.isinf(b):
        return a / b
    return core.fdiv(a, b)


def k_floor(a):
    if is_sym(a):
        return a.__floor__() * 1.0 if not a.is_int else a
    return float(math.floor(a)) if isinstance(a, float) else a


def k_ceil(a):
    if is_sym(a):
        return a.__ceil__() * 1.0 if not a.is_int else a
    return float(math.ceil(a)) if isinstance(a, float) else a


def k_round(a):
    if is_sym(a):
        return a.__round__() * 1.0
    return float(round(a))


def k_trunc(a):
    if is_sym(a):
        if a.is_int:
            return a
        return core.ite(a >= 0, k_floor(a), k_ceil(a))
    return float(math.trunc(a)) if isinstance(a, float) else a


def k_sign(a):
    one = 1.0
    return core.ite(a > 0, one, core.ite(a < 0, -one, 0.0))


def k_pow(a, b):
    a, b = _num(a), _num(b)
    if is_sym(a) or is_sym(b):
        if not is_sym(b) and float(b) < 0 and float(b) == int(b):
            return k_div(1.0, core.spow(a, int(-b)))
        if not is_sym(b) and b == -0.5:
            return k_div(1.0, core.ssqrt(a))
        return core.spow(a, b)
    return a**b


def k_exp(a):
    return core.sexp(a)


def k_log(a):
    return core.slog(a)


def k_sqrt(a):
    return core.ssqrt(a)


def k_and(a, b):
    return core.and_(_tb(a), _tb(b))


def k_or(a, b):
    return core.or_(_tb(a), _tb(b))


def _tb(a):
    if isinstance(a, SymBool):
        return a
    if is_sym(a):
        return a != 0
    return bool(a)


def k_not(a):
    return core.not_(_tb(a))


def k_bitand(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return k_and(a, b)
    if is_sym(a) or is_sym(b):
        raise Unsupported("bitwise and of symbolic ints")
    return a & b


def k_bitor(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return k_or(a, b)
    if is_sym(a) or is_sym(b):
        raise Unsupported("bitwise or of symbolic ints")
    return a | b


def k_xor(a, b):
    if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
        return core.not_(core.eq(_tb(a), _tb(b)))
    return a ^ b


def k_bitnot(a):
    if isinstance(a, (bool, SymBool)):
        return core.not_(a)
    if is_sym(a):
        return -a - 1
    return ~a


def k_cmp(op):
    def f(a, b):
        a, b = _num(a), _num(b)
        if not is_sym(a) and is_sym(b):
            # reflected
            rop = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}[op]
            return k_cmp(rop)(b, a)
        if op == "lt":
            return a < b
        if op == "le":
            return a <= b
        if op == "gt":
            return a > b
        if op == "ge":
            return a >= b
        if op == "eq":
            return a == b
        return core.not_(a == b)

    return f


def k_remainder(a, b):
    if not is_sym(a) and not is_sym(b):
        return a % b
    return core.SymNum._floordivmod(a, b)[1]


def k_floordiv(a, b):
    if not is_sym(a) and not is_sym(b):
        return a // b
    return core.SymNum._floordivmod(a, b)[0]


def k_max(a, b):
    return core.smax(_num(a), _num(b))


def k_min(a, b):
    return core.smin(_num(a), _num(b))


def k_where(c, a, b):
    c = _tb(c)
    if not is_sym(c):
        return a if c else b
    if core.isinf(a) or core.isinf(b):
        # decide by forking: an infinite branch cannot be a term
        return a if bool(c) else b
    return core.ite(c, a, b)


def k_sum(vals):
    acc = 0.0
    first = True
    for v in vals:
        v = _num(v)
        if isinstance(v, SymBool):
            v = v._num()
        if first:
            acc = v
            first = False
        else:
            acc = k_add(acc, v)
    return acc


def k_isfinite(a):
    if is_sym(a):
        return True
    return math.isfinite(a)


def k_isnan(a):
    return False if is_sym(a) else math.isnan(a)


def k_isinf(a):
    return False if is_sym(a) else math.isinf(a)


UNARY = {
    "neg": k_neg,
    "abs": lambda a: abs(a),
    "exp": k_exp,
    "log": k_log,
    "sqrt": k_sqrt,
    "rsqrt": lambda a: k_div(1.0, k_sqrt(a)),
    "reciprocal": lambda a: k_div(1.0, a),
    "tanh": lambda a: core.stanh(a) if (is_sym(a) or a != 0) else 0.0,
    "sigmoid": lambda a: core.ssigmoid(a),
    "relu": lambda a: k_max(a, 0.0),
    "floor": k_floor,
    "ceil": k_ceil,
    "round": k_round,
    "trunc": k_trunc,
    "sign": k_sign,
    "sgn": k_sign,
    "square": lambda a: a * a,
    "logical_not": k_not,
    "bitwise_not": k_bitnot,
    "isfinite": k_isfinite,
    "isnan": k_isnan,
    "isinf": k_isinf,
    "cos": lambda a: core.uf("cos", a),
    "sin": lambda a: core.uf("sin", a),
    "positive": lambda a: a,
    "log1p": lambda a: k_log(k_add(a, 1.0)),
    "expm1": lambda a: k_sub(k_exp(a), 1.0),
    "softplus": lambda a: core.ssoftplus(a),
}


def _ssoftplus(x):
    t = z3.simplify(core.toreal(x))
    y = core._uf("softplus")(t)
    core.cur().lemma(y, z3.And(y > 0, y > t))
    return SymNum(y)


core.ssoftplus = _ssoftplus

BINARY = {
    "mul": k_mul,
    "pow": k_pow,
    "maximum": k_max,
    "minimum": k_min,
    "eq": k_cmp("eq"),
    "ne": k_cmp("ne"),
    "lt": k_cmp("lt"),
    "le": k_cmp("le"),
    "gt": k_cmp("gt"),
    "ge": k_cmp("ge"),
    "logical_and": k_and,
    "logical_or": k_or,
    "logical_xor": k_xor,
    "bitwise_and": k_bitand,
    "__and__": k_bitand,
    "__or__": k_bitor,
    "bitwise_or": k_bitor,
    "bitwise_xor": k_xor,
    "remainder": k_remainder,
    "fmod": k_remainder,
    "floor_divide": k_floordiv,
    "fmax": k_max,
    "fmin": k_min,
}


# --------------------------------------------------------------------------
# dispatch


def _meta(x):
    if isinstance(x, torch.Tensor):
        return torch.empty_strided(x.shape, x.stride(), dtype=x.dtype, device="meta")
    if isinstance(x, torch.device):
        return torch.device("meta")
    if isinstance(x, SymNum):
        return 1 if x.is_int else 1.5
    if isinstance(x, SymBool):
        return True
    return x


def infer(func, args, kwargs):
    """Output shape(s)/dtype(s), by running the operator on meta tensors."""
    with plain():
        margs, mkw = tree_map(_meta, (args, kwargs))
        return func(*margs, **mkw)


def bcast(*ts):
    """Broadcast tensors/scalars to lists of scalars."""
    with plain():
        ids = []
        for t in ts:
            if isinstance(t, torch.Tensor):
                ids.append(ids_of(t))
            else:
                ids.append(torch.tensor(pool(t), dtype=torch.int64))
        ids = torch.broadcast_tensors(*ids)
        ls = [i.reshape(-1).tolist() for i in ids]
        shape = ids[0].shape
    return shape, [[POOL[i] for i in l] for l in ls]


def elementwise(func, args, kwargs, f, operands):
    out = infer(func, args, kwargs)
    shape, lists = bcast(*operands)
    vals = [to_dtype(f(*xs), out.dtype) for xs in zip(*lists)]
    if tuple(shape) != tuple(out.shape):
        t = make(vals, shape, out.dtype)
        raise Unsupported("shape mismatch in elementwise %s" % func)
    return make(vals, out.shape, out.dtype)


VIEW = {
    "view", "_unsafe_view", "reshape", "permute", "transpose", "t", "expand", "squeeze",
    "unsqueeze", "select", "slice", "split", "split_with_sizes", "unbind", "detach",
    "alias", "diagonal", "as_strided", "narrow", "view_as", "expand_as", "unfold",
    "_reshape_alias", "lift_fresh", "chunk", "unsafe_split", "unsafe_chunk", "numpy_T",
    "movedim", "swapaxes", "flatten", "mT", "detach_", "squeeze_", "unsqueeze_",
}
MOVE = {
    "cat", "stack", "clone", "flip", "roll", "repeat", "contiguous", "repeat_interleave",
    "_reshape_copy", "unsafe_split", "_unsafe_index", "lift_fresh_copy", "lift",
    "select_copy", "slice_copy", "view_copy", "expand_copy",
}
FACTORY = {
    "zeros", "ones", "full", "empty", "arange", "scalar_tensor", "zeros_like", "ones_like",
    "full_like", "empty_like", "new_zeros", "new_ones", "new_full", "new_empty", "eye",
    "linspace", "empty_strided", "new_empty_strided", "tril_indices", "triu_indices",
}


def opname(func):
    return func._schema.name.split("::")[1]


def overload(func):
    return func._overloadname


def has_sym(args, kwargs):
    fl, _ = tree_flatten((args, kwargs))
    return any(isinstance(a, SymTensor) or is_sym(a) for a in fl)


def _write(dst, src):
    """dst (SymTensor) <- src in place (cast + broadcast)."""
    s = src
    if not isinstance(s, torch.Tensor):
        s = make([s], (), dst.dtype)
    if s.dtype != dst.dtype:
        s = make([to_dtype(v, dst.dtype) for v in scalars(s)], s.shape, dst.dtype)
    with plain():
        dst.ids.copy_(ids_of(s))
    return dst


def reduce_dims(t, dim, keepdim):
    """Yield (out_shape, list of groups of scalars)."""
    n = t.dim()
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        dims = list(range(n))
    elif isinstance(dim, int):
        dims = [dim % n] if n else []
    else:
        dims = [d % n for d in dim] if n else []
    keep = [i for i in range(n) if i not in dims]
    with plain():
        ids = ids_of(t)
        p = ids.permute(keep + dims).reshape(
            int(np.prod([t.shape[i] for i in keep], dtype=int)),
            int(np.prod([t.shape[i] for i in dims], dtype=int)),
        )
        rows = p.tolist()
    if keepdim:
        shape = [1 if i in dims else t.shape[i] for i in range(n)]
    else:
        shape = [t.shape[i] for i in keep]
    return shape, [[POOL[i] for i in r] for r in rows]


def argbest(vals, better):
    """Index of best element (first among equals), by forking."""
    bi = 0
    for i in range(1, len(vals)):
        if bool(better(vals[i], vals[bi])):
            bi = i
    return bi


def argbest_term(vals, better):
    """(index term, value term) of the first best element, no forking."""
    idx, best = 0, vals[0]
    for i in range(1, len(vals)):
        c = better(vals[i], best)
        if is_sym(c):
            idx = core.ite(c, i, idx)
            best = core.ite(c, vals[i], best)
        elif c:
            idx, best = i, vals[i]
    return idx, best


gt = k_cmp("gt")
lt = k_cmp("lt")

DECOMP = None


def decomp_table():
    global DECOMP
    if DECOMP is None:
        import torch._decomp
        import torch._refs  # noqa

        DECOMP = torch._decomp.decomposition_table
    return DECOMP


def norm_arg(func, args, kwargs, name, default=None):
    """Fetch an argument of an aten op by schema name."""
    for i, a in enumerate(func._schema.arguments):
        if a.name == name:
            if not a.kwarg_only and i < len(args):
                return args[i]
            if name in kwargs:
                return kwargs[name]
            if a.has_default_value():
                return a.default_value
            return default
    return default


SPECIAL = {}


def special(*names):
    def deco(f):
        for n in names:
            SPECIAL[n] = f
        return f

    return deco


OPLOG = set()


def dispatch(func, args, kwargs):
    name = opname(func)
    OPLOG.add(name)
    if name == "_local_scalar_dense":
        t = args[0]
        v = scalars(t)[0]
        if isinstance(v, SymBool):
            return bool(v)
        if isinstance(v, SymNum):
            if v.is_int or not t.dtype.is_floating_point:
                return v.__int__()
            raise Unsupported("item() of a symbolic float at the C boundary")
        return v
    if name in ("set_", "resize_"):
        raise Unsupported(name)
    # out-of-place form of in-place elementwise ops
    if name in SPECIAL:
        r = SPECIAL[name](func, args, kwargs)
        if r is not NotImplemented:
            return r
    if name in VIEW:
        return _data_move(func, args, kwargs, view=True)
    if name in MOVE:
        return _data_move(func, args, kwargs, view=False)
    if name in FACTORY:
        return _factory(func, args, kwargs, name)
    base = name[:-1] if name.endswith("_") and not name.endswith("__") else name
    if base in UNARY and (base == name or isinstance(args[0], torch.Tensor)):
        if base == "softplus" and len(args) > 1:
            b = norm_arg(func, args, kwargs, "beta", 1)
            if b != 1:
                raise Unsupported("softplus beta")
        r = elementwise(_functional(func, base), args, kwargs, UNARY[base], [args[0]])
        return _finish(func, args, name, base, r)
    if base in BINARY:
        r = elementwise(_functional(func, base), args, kwargs, BINARY[base], [args[0], args[1]])
        return _finish(func, args, name, base, r)
    if base in ("add", "sub", "rsub"):
        alpha = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
        a, b = args[0], args[1]

        def f(x, y):
            if base == "rsub":
                x, y = y, x
                if alpha != 1:
                    raise Unsupported("rsub alpha")
                return k_sub(x, y)
            y2 = y if (not is_sym(alpha) and alpha == 1) else k_mul(y, alpha)
            return k_add(x, y2) if base == "add" else k_sub(x, y2)

        r = elementwise(_functional(func, base), args, kwargs, f, [a, b])
        return _finish(func, args, name, base, r)
    if base == "div" or base in ("divide", "true_divide"):
        mode = kwargs.get("rounding_mode")

        def f(x, y):
            if mode == "floor":
                return k_floordiv(x, y)
            v = k_div(x, y)
            if mode == "trunc":
                v = k_trunc(v)
            return v

        r = elementwise(_functional(func, base), args, kwargs, f, [args[0], args[1]])
        return _finish(func, args, name, base, r)
    if base in TERNARY:
        r = TERNARY[base](func, args, kwargs, base)
        return _finish(func, args, name, base, r)
    # decompositions provided by torch itself
    table = decomp_table()
    if func in table:
        with torch._C._DisableTorchDispatch() if False else contextlib.nullcontext():
            r = table[func](*args, **kwargs)
        if r is not NotImplemented:
            return r
    # an in-place op with only a functional decomposition
    if name.endswith("_"):
        ff = _functional(func, base)
        r = dispatch(ff, args, kwargs)
        return _write(args[0], r)
    raise Unsupported("torch operator %s" % (func,))


def _functional(func, base):
    name = opname(func)
    if base == name:
        return func
    packet = getattr(aten, base)
    return getattr(packet, func._overloadname)


def _finish(func, args, name, base, r):
    if base == name:
        return r
    if not isinstance(args[0], SymTensor):
        raise Unsupported("in-place symbolic write into a plain tensor: %s" % func)
    _write(args[0], r)
    return args[0]


def _data_move(func, args, kwargs, view):
    if func._schema.name == "aten::detach_":
        return args[0]
    dtype = None
    fl, spec = tree_flatten((args, kwargs))
    tens = [a for a in fl if isinstance(a, torch.Tensor)]
    if opname(func) == "repeat_interleave" and len(tens) > 1:
        raise Unsupported("repeat_interleave tensor")
    dtype = tens[0].dtype
    for t in tens[1:]:
        dtype = torch.promote_types(dtype, t.dtype)
    fl2 = [ids_of(a) if isinstance(a, torch.Tensor) else a for a in fl]
    a2, k2 = tree_unflatten(fl2, spec)
    with plain():
        out = func(*a2, **k2)

    def wrap(i):
        s = SymTensor(i, dtype)
        return s

    res = tree_map(lambda o: wrap(o) if isinstance(o, torch.Tensor) else o, out)
    if not view and any(t.dtype != dtype for t in tens):
        res = make([to_dtype(v, dtype) for v in scalars(res)], res.shape, dtype)
    if view and not opname(func).endswith("_"):
        try:
            return return_and_correct_aliasing(func, args, kwargs, res)
        except Exception:
            return res
    return res


def _factory(func, args, kwargs, name):
    fl, spec = tree_flatten((args, kwargs))
    if any(is_sym(a) for a in fl):
        if name in ("full", "full_like", "new_full"):
            v = norm_arg(func, args, kwargs, "fill_value")
            out = infer(func, args, kwargs)
            dt = out.dtype
            return make([to_dtype(v, dt)] * out.numel(), out.shape, dt)
        if name == "scalar_tensor":
            v = args[0]
            dt = kwargs.get("dtype") or torch.get_default_dtype()
            return make([to_dtype(v, dt)], (), dt)
        fl = [a.__index__() if isinstance(a, SymNum) else a for a in fl]
        args, kwargs = tree_unflatten(fl, spec)
        fl, spec = tree_flatten((args, kwargs))
    fl = [
        torch.empty(a.shape, dtype=a.dtype, device="meta") if isinstance(a, SymTensor) else a
        for a in fl
    ]
    if name.endswith("_like") or name.startswith("new_"):
        out = infer(func, args, kwargs)
        n = out.numel()
        if "zeros" in name or "empty" in name:
            v = 0
        elif "ones" in name:
            v = 1
        else:
            v = norm_arg(func, args, kwargs, "fill_value")
        return make([to_dtype(v, out.dtype)] * n, out.shape, out.dtype)
    a2, k2 = tree_unflatten(fl, spec)
    with plain():
        out = func(*a2, **k2)
        if "empty" in name:
            out.zero_()
    return lift(out)


# ---- ternary & friends

def t_where(func, args, kwargs, base):
    if len(args) == 1:
        raise Unsupported("where(cond)")
    out = infer(func, args, kwargs)
    shape, (c, a, b) = bcast(*args[:3])
    return make([to_dtype(k_where(x, y, z), out.dtype) for x, y, z in zip(c, a, b)], shape, out.dtype)


def t_clamp(func, args, kwargs, base):
    t = args[0]
    lo = norm_arg(func, args, kwargs, "min")
    hi = norm_arg(func, args, kwargs, "max")
    out = infer(func, args, kwargs)
    ops = [t]
    shape, lists = bcast(t, *( [lo] if lo is not None else []), *([hi] if hi is not None else []))
    vals = []
    for xs in zip(*lists):
        v = xs[0]
        i = 1
        if lo is not None:
            v = k_max(v, xs[i])
            i += 1
        if hi is not None:
            v = k_min(v, xs[i])
        vals.append(to_dtype(v, out.dtype))
    return make(vals, shape, out.dtype)


def t_clamp_min(func, args, kwargs, base):
    return elementwise(func if base == opname(func) else _functional(func, base), args, kwargs, k_max, [args[0], args[1]])


def t_clamp_max(func, args, kwargs, base):
    return elementwise(func if base == opname(func) else _functional(func, base), args, kwargs, k_min, [args[0], args[1]])


def t_addcmul(func, args, kwargs, base):
    # addcmul(self, t1, t2, value=1); deprecated form addcmul(self, value, t1, t2)
    tens = [a for a in args if isinstance(a, torch.Tensor)]
    val = kwargs.get("value", 1)
    for a in args:
        if not isinstance(a, torch.Tensor):
            val = a
    op = k_mul if base == "addcmul" else k_div
    shape, (s, x, y) = bcast(*tens)
    dt = tens[0].dtype
    return make(
        [to_dtype(k_add(a, k_mul(val, op(b, c)) if val != 1 else op(b, c)), dt) for a, b, c in zip(s, x, y)], shape, dt
    )


def t_lerp(func, args, kwargs, base):
    shape, (s, e, w) = bcast(*args[:3])
    dt = args[0].dtype
    return make([to_dtype(k_add(a, k_mul(c, k_sub(b, a))), dt) for a, b, c in zip(s, e, w)], shape, dt)


def t_masked_fill(func, args, kwargs, base):
    t, m, v = args[:3]
    shape, (a, b, c) = bcast(t, m, v)
    return make([to_dtype(k_where(y, z, x), t.dtype) for x, y, z in zip(a, b, c)], shape, t.dtype)


TERNARY = {
    "where": t_where,
    "clamp": t_clamp,
    "clip": t_clamp,
    "clamp_min": t_clamp_min,
    "clamp_max": t_clamp_max,
    "addcmul": t_addcmul,
    "addcdiv": t_addcmul,
    "lerp": t_lerp,
    "masked_fill": t_masked_fill,
}


# ---- specials


@special("_to_copy", "to", "type_as")
def s_to(func, args, kwargs):
    t = args[0]
    dt = kwargs.get("dtype") or t.dtype
    return make([to_dtype(v, dt) for v in scalars(t)], t.shape, dt)


@special("copy_", "copy")
def s_copy(func, args, kwargs):
    dst, src = args[0], args[1]
    if not isinstance(dst, SymTensor):
        if is_concrete(src):
            with plain():
                dst.copy_(concrete_plain(src))
            return dst
        raise Unsupported("copy_ of symbolic data into a plain tensor")
    if opname(func) == "copy":
        dst = make(scalars(dst), dst.shape, dst.dtype)
    return _write(dst, src)


def concrete_plain(t):
    if not isinstance(t, SymTensor):
        return t
    with plain():
        return torch.tensor([float(v) if t.dtype.is_floating_point else v for v in scalars(t)], dtype=t.dtype).reshape(t.shape)


@special("zero_")
def s_zero(func, args, kwargs):
    return _write(args[0], 0)


@special("fill_")
def s_fill(func, args, kwargs):
    return _write(args[0], args[1])


@special("fill")
def s_fill2(func, args, kwargs):
    t = args[0]
    v = args[1]
    if isinstance(v, torch.Tensor):
        v = scalars(v)[0]
    return make([to_dtype(v, t.dtype)] * t.numel(), t.shape, t.dtype)


@special("sum")
def s_sum(func, args, kwargs):
    out = infer(func, args, kwargs)
    dim = norm_arg(func, args, kwargs, "dim")
    keep = norm_arg(func, args, kwargs, "keepdim", False)
    _, groups = reduce_dims(args[0], dim, keep)
    return make([to_dtype(k_sum(g) if g else 0, out.dtype) for g in groups], out.shape, out.dtype)


@special("mean")
def s_mean(func, args, kwargs):
    out = infer(func, args, kwargs)
    dim = norm_arg(func, args, kwargs, "dim")
    keep = norm_arg(func, args, kwargs, "keepdim", False)
    _, groups = reduce_dims(args[0], dim, keep)
    return make([to_dtype(k_div(k_sum(g), len(g)), out.dtype) for g in groups], out.shape, out.dtype)


@special("prod")
def s_prod(func, args, kwargs):
    out = infer(func, args, kwargs)
    dim = norm_arg(func, args, kwargs, "dim")
    _, groups = reduce_dims(args[0], dim, False)
    vals = []
    for g in groups:
        v = 1
        for x in g:
            v = k_mul(v, x)
        vals.append(to_dtype(v, out.dtype))
    return make(vals, out.shape, out.dtype)


@special("amax", "amin")
def s_amax(func, args, kwargs):
    out = infer(func, args, kwargs)
    dim = norm_arg(func, args, kwargs, "dim")
    _, groups = reduce_dims(args[0], dim, False)
    better = gt if opname(func) == "amax" else lt
    return make([argbest_term(g, better)[1] for g in groups], out.shape, out.dtype)


@special("max", "min")
def s_max(func, args, kwargs):
    n = opname(func)
    k = k_max if n == "max" else k_min
    better = gt if n == "max" else lt
    if func._overloadname == "other":
        return elementwise(func, args, kwargs, k, [args[0], args[1]])
    out = infer(func, args, kwargs)
    if func._overloadname == "dim":
        dim = norm_arg(func, args, kwargs, "dim")
        keep = norm_arg(func, args, kwargs, "keepdim", False)
        _, groups = reduce_dims(args[0], dim, keep)
        res = [argbest_term(g, better) for g in groups]
        v = make([to_dtype(r[1], args[0].dtype) for r in res], out[0].shape, args[0].dtype)
        i = make([r[0] for r in res], out[1].shape, torch.int64)
        return v, i
    _, groups = reduce_dims(args[0], None, False)
    return make([argbest_term(groups[0], better)[1]], (), args[0].dtype)


@special("argmax", "argmin")
def s_argmax(func, args, kwargs):
    out = infer(func, args, kwargs)
    dim = norm_arg(func, args, kwargs, "dim")
    keep = norm_arg(func, args, kwargs, "keepdim", False)
    better = gt if opname(func) == "argmax" else lt
    _, groups = reduce_dims(args[0], dim, keep)
    return make([argbest_term(g, better)[0] for g in groups], out.shape, torch.int64)


@special("any", "all")
def s_any(func, args, kwargs):
    out = infer(func, args, kwargs)
    dim = norm_arg(func, args, kwargs, "dim")
    keep = norm_arg(func, args, kwargs, "keepdim", False)
    _, groups = reduce_dims(args[0], dim, keep)
    f = core.or_ if opname(func) == "any" else core.and_
    return make([f(*[_tb(x) for x in g]) for g in groups], out.shape, torch.bool)


@special("cumsum", "cumprod")
def s_cumsum(func, args, kwargs):
    t = args[0]
    dim = norm_arg(func, args, kwargs, "dim")
    op = k_add if opname(func) == "cumsum" else k_mul
    with plain():
        ids = ids_of(t)
        rows = ids.movedim(dim, -1)
        shp = rows.shape
        rl = rows.reshape(-1, shp[-1]).tolist()
    out = []
    for r in rl:
        acc = None
        for i in r:
            acc = POOL[i] if acc is None else op(acc, POOL[i])
            out.append(pool(acc))
    with plain():
        o = torch.tensor(out, dtype=torch.int64).reshape(shp).movedim(-1, dim).contiguous()
    return SymTensor(o, t.dtype)


@special("var", "var_mean", "std", "std_mean")
def s_var(func, args, kwargs):
    n = opname(func)
    dim = norm_arg(func, args, kwargs, "dim")
    keep = norm_arg(func, args, kwargs, "keepdim", False)
    if func._overloadname in ("correction", "correction_names"):
        corr = norm_arg(func, args, kwargs, "correction")
        corr = 1 if corr is None else corr
    else:
        corr = 1 if norm_arg(func, args, kwargs, "unbiased", True) else 0
    out = infer(func, args, kwargs)
    o0 = out[0] if isinstance(out, tuple) else out
    _, groups = reduce_dims(args[0], dim, keep)
    vs, ms = [], []
    for g in groups:
        m = k_div(k_sum(g), len(g))
        ss = k_sum([k_mul(k_sub(x, m), k_sub(x, m)) for x in g])
        v = k_div(ss, len(g) - corr)
        if n.startswith("std"):
            v = k_sqrt(v)
        vs.append(v)
        ms.append(m)
    v = make(vs, o0.shape, args[0].dtype)
    if n.endswith("_mean"):
        return v, make(ms, o0.shape, args[0].dtype)
    return v


@special("linalg_vector_norm", "norm")
def s_norm(func, args, kwargs):
    t = args[0]
    p = args[1] if len(args) > 1 else kwargs.get("ord", kwargs.get("p", 2))
    p = 2 if p is None else p
    dim = norm_arg(func, args, kwargs, "dim")
    keep = norm_arg(func, args, kwargs, "keepdim", False)
    shape, groups = reduce_dims(t, dim, keep)
    out = []
    for g in groups:
        if p == 2:
            out.append(k_sqrt(k_sum([k_mul(x, x) for x in g])))
        elif p == 1:
            out.append(k_sum([abs(x) for x in g]))
        elif p == float("inf"):
            m = abs(g[0])
            for x in g[1:]:
                m = k_max(m, abs(x))
            out.append(m)
        else:
            raise Unsupported("norm p=%s" % p)
    return make(out, shape, t.dtype)


def _mat(t):
    with plain():
        return [[POOL[i] for i in r] for r in ids_of(t).tolist()]


def _mm(A, B):
    n, k = len(A), len(B)
    m = len(B[0]) if B else 0
    return [
        [k_sum([k_mul(A[i][l], B[l][j]) for l in range(k)]) if k else 0.0 for j in range(m)]
        for i in range(n)
    ]


@special("mm")
def s_mm(func, args, kwargs):
    a, b = args
    R = _mm(_mat(a), _mat(b))
    return make([x for r in R for x in r], (a.shape[0], b.shape[1]), a.dtype)


@special("bmm")
def s_bmm(func, args, kwargs):
    a, b = args
    out = []
    with plain():
        A = ids_of(a).tolist()
        B = ids_of(b).tolist()
    for x, y in zip(A, B):
        R = _mm([[POOL[i] for i in r] for r in x], [[POOL[i] for i in r] for r in y])
        out += [v for r in R for v in r]
    return make(out, (a.shape[0], a.shape[1], b.shape[2]), a.dtype)


@special("mv")
def s_mv(func, args, kwargs):
    a, b = args
    A = _mat(a)
    v = scalars(b)
    return make([k_sum([k_mul(x, y) for x, y in zip(r, v)]) for r in A], (a.shape[0],), a.dtype)


@special("dot", "vdot")
def s_dot(func, args, kwargs):
    a, b = args
    return make([k_sum([k_mul(x, y) for x, y in zip(scalars(a), scalars(b))])], (), a.dtype)


@special("addmm")
def s_addmm(func, args, kwargs):
    c, a, b = args[:3]
    beta = kwargs.get("beta", 1)
    alpha = kwargs.get("alpha", 1)
    R = _mm(_mat(a), _mat(b))
    shape, (cl, rl) = bcast(c, make([x for r in R for x in r], (a.shape[0], b.shape[1]), a.dtype))
    return make(
        [k_add(k_mul(beta, x) if beta != 1 else x, k_mul(alpha, y) if alpha != 1 else y) for x, y in zip(cl, rl)],
        shape,
        a.dtype,
    )


@special("triu", "tril")
def s_tri(func, args, kwargs):
    t = args[0]
    d = args[1] if len(args) > 1 else kwargs.get("diagonal", 0)
    with plain():
        mask = getattr(torch, opname(func))(torch.ones(t.shape, dtype=torch.bool), d)
        z = pool(to_dtype(0, t.dtype))
        ids = torch.where(mask, ids_of(t), torch.tensor(z))
    return SymTensor(ids, t.dtype)


@special("_pack_padded_sequence")
def s_pack(func, args, kwargs):
    t, lengths = args[0], args[1]
    bf = args[2] if len(args) > 2 else kwargs.get("batch_first", False)
    with plain():
        ln = torch.tensor([int(v) for v in scalars(lengths)], dtype=torch.int64)
        ids, bs = func(ids_of(t), ln, bf)
    return SymTensor(ids, t.dtype), lift(bs)


@special("_pack_padded_sequence_backward")
def s_pack_b(func, args, kwargs):
    g, size, bs, bf = args
    bs = [int(v) for v in scalars(bs)]
    size = [int(v) for v in size]
    if bf:
        size[0], size[1] = size[1], size[0]
    with plain():
        ids = torch.full(size, pool(to_dtype(0, g.dtype)), dtype=torch.int64)
        k = 0
        gi = ids_of(g)
        for i, b in enumerate(bs):
            ids[i, :b] = gi[k : k + b]
            k += b
        if bf:
            ids = ids.transpose(0, 1).contiguous()
    return SymTensor(ids, g.dtype)


@special("diag_embed")
def s_diag_embed(func, args, kwargs):
    t = args[0]
    with plain():
        mask = func(torch.ones(t.shape, dtype=torch.int64), *args[1:], **kwargs) == 1
        ids = func(ids_of(t), *args[1:], **kwargs)
        ids = torch.where(mask, ids, torch.tensor(pool(to_dtype(0, t.dtype))))
    return SymTensor(ids, t.dtype)


def _sym_select(row, idx):
    """row[idx] with a symbolic index: ite chain over the (bounded) row."""
    if not is_sym(idx):
        return row[int(idx)]
    r = row[-1]
    for j in range(len(row) - 2, -1, -1):
        r = k_where(core.eq(idx, j), row[j], r)
    return r


@special("gather")
def s_gather(func, args, kwargs):
    t, dim, index = args[:3]
    if is_concrete(index):
        ci = concrete_index(index) if isinstance(index, SymTensor) else index
        with plain():
            o = torch.gather(ids_of(t), dim, ci)
        return SymTensor(o, t.dtype)
    with plain():
        ti = ids_of(t).movedim(dim, -1)
        ii = ids_of(index).movedim(dim, -1)
        # gather requires index.size(d) <= t.size(d) for d != dim
        sl = tuple(slice(0, n) for n in ii.shape[:-1])
        ti = ti[sl]
        trows = ti.reshape(-1, ti.shape[-1]).tolist()
        irows = ii.reshape(-1, ii.shape[-1]).tolist()
        shp = ii.shape
    n = len(trows[0])
    out = []
    for tr, ir in zip(trows, irows):
        row = [POOL[i] for i in tr]
        for i in ir:
            ix = POOL[i]
            _check_index(ix, n)
            out.append(pool(_sym_select(row, ix)))
    with plain():
        o = torch.tensor(out, dtype=torch.int64).reshape(shp).movedim(-1, dim).contiguous()
    return SymTensor(o, t.dtype)


def _check_index(ix, n, neg=False):
    ok = core.and_(ix >= (-n if neg else 0), ix < n)
    if not bool(ok):
        raise IndexError("index out of range in symbolic gather/index")


@special("index_select")
def s_index_select(func, args, kwargs):
    t, dim, index = args[:3]
    ci = concrete_index(index)
    with plain():
        return SymTensor(torch.index_select(ids_of(t), dim, ci), t.dtype)


@special("index", "_unsafe_index")
def s_index(func, args, kwargs):
    t, idxs = args[0], args[1]
    # symbolic integer indices into one row-vector dimension: ite chains
    ci = []
    for i in idxs:
        ci.append(None if i is None else (concrete_index(i) if isinstance(i, SymTensor) else i))
    with plain():
        return SymTensor(func(ids_of(t), ci), t.dtype)


@special("index_put_", "index_put", "_index_put_impl_", "_unsafe_index_put")
def s_index_put(func, args, kwargs):
    t, idxs, v = args[:3]
    acc = norm_arg(func, args, kwargs, "accumulate", False)
    ci = [None if i is None else (concrete_index(i) if isinstance(i, SymTensor) else i) for i in idxs]
    if not isinstance(t, SymTensor):
        raise Unsupported("index_put_ into plain tensor")
    if t.dtype != v.dtype:
        v = make([to_dtype(x, t.dtype) for x in scalars(v)], v.shape, t.dtype)
    inplace = opname(func).endswith("_")
    dst = t if inplace else make(scalars(t), t.shape, t.dtype)
    if not acc:
        with plain():
            aten.index_put_.default(dst.ids, ci, ids_of(v))
        return dst
    with plain():
        pos = torch.arange(dst.ids.numel()).reshape(dst.ids.shape)
        p = aten.index.Tensor(pos, ci)
        vi, p = torch.broadcast_tensors(ids_of(v), p)
        pl, vl = p.reshape(-1).tolist(), vi.reshape(-1).tolist()
        flat = dst.ids.reshape(-1).tolist()
    for a, b in zip(pl, vl):
        flat[a] = pool(k_add(POOL[flat[a]], POOL[b]))
    with plain():
        dst.ids.copy_(torch.tensor(flat, dtype=torch.int64).reshape(dst.ids.shape))
    return dst


def _scatter(func, args, kwargs, mode):
    t, dim, index, src = args[0], args[1], args[2], args[3]
    name = opname(func)
    inplace = name.endswith("_")
    dst = t if inplace else make(scalars(t), t.shape, t.dtype)
    if not isinstance(dst, SymTensor):
        raise Unsupported("scatter into plain tensor")
    alpha = kwargs.get("alpha", 1)
    with plain():
        ii = ids_of(index)
        if isinstance(src, torch.Tensor):
            si = ids_of(src)
            sl = tuple(slice(0, n) for n in ii.shape)
            si = si[sl].movedim(dim, -1)
        else:
            si = torch.full(ii.shape, pool(to_dtype(src, dst.dtype))).movedim(dim, -1)
        iim = ii.movedim(dim, -1)
        dm = dst.ids.movedim(dim, -1).contiguous().clone()
        shp = dm.shape
        sl = tuple(slice(0, n) for n in iim.shape[:-1])
        sub = dm[sl].contiguous()
        drows = sub.reshape(-1, shp[-1]).tolist()
        irows = iim.reshape(-1, iim.shape[-1]).tolist()
        srows = si.reshape(-1, si.shape[-1]).tolist()
        subshape = sub.shape
    n = shp[-1]
    for dr, ir, sr in zip(drows, irows, srows):
        for i, s in zip(ir, sr):
            ix, v = POOL[i], POOL[s]
            v = to_dtype(v, dst.dtype)
            if not is_sym(ix):
                ix = int(ix)
                if not 0 <= ix < n:
                    raise IndexError("scatter index out of range")
                dr[ix] = pool(k_add(POOL[dr[ix]], v) if mode == "add" else v)
            else:
                _check_index(ix, n)
                for j in range(n):
                    c = core.eq(ix, j)
                    old = POOL[dr[j]]
                    new = k_add(old, v) if mode == "add" else v
                    dr[j] = pool(k_where(c, new, old))
    with plain():
        dm[sl] = torch.tensor(drows, dtype=torch.int64).reshape(subshape)
        dst.ids.movedim(dim, -1).copy_(dm)
    return dst


@special("scatter_", "scatter")
def s_scatter(func, args, kwargs):
    if kwargs.get("reduce"):
        return _scatter(func, args, kwargs, "add" if kwargs["reduce"] == "add" else "bad")
    return _scatter(func, args, kwargs, "set")


@special("scatter_add_", "scatter_add")
def s_scatter_add(func, args, kwargs):
    return _scatter(func, args, kwargs, "add")


@special("index_add_", "index_add")
def s_index_add(func, args, kwargs):
    t, dim, index, src = args[:4]
    alpha = kwargs.get("alpha", 1)
    with plain():
        ii = ids_of(index)
        shape = [1] * src.dim()
        shape[dim] = -1
        full = ii.reshape(shape).expand(src.shape).contiguous()
    idx = SymTensor(full, torch.int64)
    if alpha != 1:
        src = make([k_mul(alpha, v) for v in scalars(src)], src.shape, src.dtype)
    return _scatter(func, (t, dim, idx, src), {}, "add")


@special("masked_select")
def s_masked_select(func, args, kwargs):
    t, m = args
    cm = concrete_index(m)
    with plain():
        return SymTensor(torch.masked_select(ids_of(t), cm), t.dtype)


@special("nonzero")
def s_nonzero(func, args, kwargs):
    t = args[0]
    cm = concrete_index(make([_tb(v) for v in scalars(t)], t.shape, torch.bool))
    with plain():
        return lift(torch.nonzero(cm))


@special("constant_pad_nd")
def s_pad(func, args, kwargs):
    t = args[0]
    v = args[2] if len(args) > 2 else 0
    with plain():
        o = func(ids_of(t), args[1], pool(to_dtype(v, t.dtype)))
    return SymTensor(o, t.dtype)


@special("sort")
def s_sort(func, args, kwargs):
    t = args[0]
    dim = norm_arg(func, args, kwargs, "dim", -1)
    desc = norm_arg(func, args, kwargs, "descending", False)
    import functools

    with plain():
        m = ids_of(t).movedim(dim, -1)
        shp = m.shape
        rows = m.reshape(-1, shp[-1]).tolist()

    def cmp(a, b):
        x, y = POOL[a[1]], POOL[b[1]]
        if bool(gt(x, y)):
            return -1 if desc else 1
        if bool(lt(x, y)):
            return 1 if desc else -1
        return a[0] - b[0]

    vo, io = [], []
    for r in rows:
        s = sorted(enumerate(r), key=functools.cmp_to_key(cmp))
        io += [a for a, _ in s]
        vo += [b for _, b in s]
    with plain():
        v = torch.tensor(vo, dtype=torch.int64).reshape(shp).movedim(-1, dim).contiguous()
        i = torch.tensor(io, dtype=torch.int64).reshape(shp).movedim(-1, dim).contiguous()
    return SymTensor(v, t.dtype), lift(i)


@special("topk")
def s_topk(func, args, kwargs):
    t = args[0]
    k = args[1]
    dim = norm_arg(func, args, kwargs, "dim", -1)
    largest = norm_arg(func, args, kwargs, "largest", True)
    v, i = s_sort(aten.sort.default, (t, dim, largest), {})
    return v.narrow(dim, 0, k), i.narrow(dim, 0, k)


@special("_softmax", "softmax")
def s_softmax(func, args, kwargs):
    t, dim = args[0], args[1]
    return _softmax_impl(t, dim, log=False)


@special("_log_softmax", "log_softmax")
def s_log_softmax(func, args, kwargs):
    t, dim = args[0], args[1]
    return _softmax_impl(t, dim, log=True)


def _softmax_impl(t, dim, log):
    """softmax_i = exp(x_i)/sum exp(x_j) (no max shift: exact in the reals)."""
    with plain():
        m = ids_of(t).movedim(dim, -1)
        shp = m.shape
        rows = m.reshape(-1, shp[-1]).tolist()
    out = []
    for r in rows:
        xs = [POOL[i] for i in r]
        es = [k_exp(x) if not (not is_sym(x) and x == 0) else 1.0 for x in xs]
        s = k_sum(es)
        for x, e in zip(xs, es):
            if log:
                # log(exp x / s) = x - log s
                out.append(pool(k_sub(x, SymNum(core._uf("log")(z3.simplify(core.toreal(s)))) if is_sym(s) else math.log(s))))
            else:
                out.append(pool(k_div(e, s)))
    with plain():
        o = torch.tensor(out, dtype=torch.int64).reshape(shp).movedim(-1, dim).contiguous()
    return SymTensor(o, t.dtype)


@special("logsumexp")
def s_logsumexp(func, args, kwargs):
    t = args[0]
    dim = args[1]
    keep = norm_arg(func, args, kwargs, "keepdim", False)
    shape, groups = reduce_dims(t, dim, keep)
    out = []
    for g in groups:
        s = k_sum([k_exp(x) if is_sym(x) or x != 0 else 1.0 for x in g])
        out.append(SymNum(core._uf("log")(z3.simplify(core.toreal(s)))) if is_sym(s) else math.log(s))
    return make(out, shape, t.dtype)


@special("equal")
def s_equal(func, args, kwargs):
    a, b = args
    if a.shape != b.shape:
        return False
    return bool(core.and_(*[core.eq(x, y) for x, y in zip(scalars(a), scalars(b))]))


@special("is_same_size")
def s_same(func, args, kwargs):
    return args[0].shape == args[1].shape


@special("_assert_async", "_assert_scalar", "_assert_tensor_metadata")
def s_assert(func, args, kwargs):
    if opname(func) == "_assert_tensor_metadata":
        return None
    v = args[0]
    if isinstance(v, torch.Tensor):
        v = scalars(v)[0]
    assert bool(_tb(v))
    return None


@special("threshold_backward")
def s_thr(func, args, kwargs):
    g, x, th = args
    shape, (gl, xl) = bcast(g, x)
    return make([k_where(gt(a, th), b, 0.0) for b, a in zip(gl, xl)], shape, g.dtype)


@special("mse_loss_backward")
def s_mse_loss_backward(func, args, kwargs):
    # torch's decomposition uses the float constant 2/n; the exact quotient is needed
    g, x, t, red = args[:4]
    r = (x - t) * g * 2
    return r / r.numel() if red == 1 else r


@special("softplus_backward")
def s_softplus_b(func, args, kwargs):
    g, x = args[0], args[1]
    shape, (gl, xl) = bcast(g, x)
    return make([k_mul(a, core.ssigmoid(b)) for a, b in zip(gl, xl)], shape, g.dtype)


@special("isclose", "allclose")
def s_isclose(func, args, kwargs):
    raise Unsupported("isclose")


@special("sym_size", "sym_stride", "sym_numel", "sym_storage_offset")
def s_symsize(func, args, kwargs):
    raise Unsupported(opname(func))


@special("native_batch_norm", "convolution", "multinomial", "bernoulli_", "uniform_", "rand", "randn", "normal_", "randint", "randperm", "normal", "exponential_", "_efficientzerotensor")
def s_unsup(func, args, kwargs):
    h = RNG_HANDLERS.get(opname(func))
    if h is not None:
        return h(func, args, kwargs)
    if not has_sym(args, kwargs) and opname(func) in ("rand", "randn", "randint", "randperm", "normal_", "uniform_", "exponential_"):
        with plain():
            return func(*args, **kwargs)
    raise Unsupported("torch operator %s" % func)


RNG_HANDLERS = {}


# --------------------------------------------------------------------------
# modes


def contains_sym(x, depth=0):
    if is_sym(x) or isinstance(x, SymTensor):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(contains_sym(y, depth + 1) for y in x)
    return False


def np_to_py(x):
    if isinstance(x, torch.Tensor):
        if x.dim() == 0:
            return scalars(x)[0]
        with plain():
            shape = x.shape
        return np.array(scalars(x), dtype=object).reshape(tuple(shape)).tolist()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [np_to_py(y) for y in x]
    return x


def nested_shape(x):
    if isinstance(x, list):
        if not x:
            return (0,)
        s = nested_shape(x[0])
        for y in x[1:]:
            if nested_shape(y) != s:
                raise ValueError("expected sequence of equal length")
        return (len(x),) + s
    return ()


def flatten_nested(x):
    if isinstance(x, list):
        out = []
        for y in x:
            out += flatten_nested(y)
        return out
    return [x]


def tensor_from(data, dtype=None):
    x = np_to_py(data)
    shape = nested_shape(x)
    flat = flatten_nested(x)
    if any(v is None for v in flat):
        raise TypeError("must be real number, not NoneType")
    if dtype is None:
        if all(isinstance(v, (bool, SymBool, np.bool_)) for v in flat) and flat:
            dtype = torch.bool
        elif all(
            (isinstance(v, numbers.Integral) and not isinstance(v, SymNum))
            or (isinstance(v, SymNum) and v.is_int)
            or isinstance(v, (bool, SymBool))
            for v in flat
        ) and flat:
            dtype = torch.int64
        else:
            dtype = torch.get_default_dtype()
    return make([to_dtype(v, dtype) for v in flat], shape, dtype)


class _FMode(TorchFunctionMode):
    """Python-level interception: factories from symbolic data, item()/numpy()."""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, "__name__", "")
        if func in (torch.as_tensor, torch.tensor, torch.from_numpy, torch.asarray):
            data = args[0] if args else kwargs.get("data", kwargs.get("obj"))
            dtype = kwargs.get("dtype", args[1] if len(args) > 1 and isinstance(args[1], torch.dtype) else None)
            if isinstance(data, torch.Tensor):
                if func is torch.as_tensor:
                    return data if dtype is None or dtype == data.dtype else data.to(dtype)
                d = data.detach().clone()
                return d if dtype is None else d.to(dtype)
            if contains_sym(data):
                rg = kwargs.get("requires_grad", False)
                t = tensor_from(data, dtype)
                return t.requires_grad_(True) if rg else t
            with torch._C.DisableTorchFunction():
                with plain():
                    out = func(*args, **kwargs)
            return lift(out) if LIFT_ALL else out
        if name in ("item", "tolist", "numpy", "__float__", "__int__", "__array__", "__bool__", "__index__", "__format__", "__len__", "__contains__", "is_nonzero"):
            t = args[0]
            if isinstance(t, SymTensor):
                r = self.tensor_to_py(name, t, args)
                if r is not NotImplemented:
                    return r
        # symbolic python scalars as operands of torch functions -> 0-d tensors
        if name in SCALAR_FUNCS and (any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values())):
            r = SCALAR_FUNCS[name](args, kwargs)
            if r is not NotImplemented:
                return r
        if any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values()):
            args, kwargs = self.lift_scalars(func, name, args, kwargs)
        return func(*args, **kwargs)

    def tensor_to_py(self, name, t, args):
        if name == "item":
            if t.numel() != 1:
                raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % t.numel())
            return scalars(t)[0]
        if name == "tolist":
            if t.dim() == 0:
                return scalars(t)[0]
            return np.array(scalars(t) + [None], dtype=object)[:-1].reshape(tuple(t.shape)).tolist()
        if name in ("numpy", "__array__"):
            vals = scalars(t)
            if not any(is_sym(v) for v in vals):
                npdt = {
                    torch.float32: np.float32, torch.float64: np.float64, torch.int64: np.int64,
                    torch.int32: np.int32, torch.bool: np.bool_, torch.uint8: np.uint8,
                }.get(t.dtype, object)
                return np.array(vals, dtype=npdt).reshape(tuple(t.shape))
            a = np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                a[i] = v
            return a.reshape(tuple(t.shape))
        if name in ("__bool__", "is_nonzero"):
            if t.numel() != 1:
                raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
            return bool(_tb(scalars(t)[0]))
        if name in ("__int__", "__index__"):
            v = scalars(t)[0]
            return v.__int__() if is_sym(v) else int(v)
        if name == "__float__":
            v = scalars(t)[0]
            if is_sym(v):
                return v.__float__()
            return float(v)
        if name == "__format__":
            return "<sym>"
        if name == "__contains__":
            v = args[1]
            v = scalars(v)[0] if isinstance(v, torch.Tensor) else v
            return bool(core.or_(*[core.eq(x, v) for x in scalars(t)]))
        return NotImplemented

    def lift_scalars(self, func, name, args, kwargs):
        def lf(a):
            if not is_sym(a):
                return a
            if isinstance(a, SymBool):
                return make([a], (), torch.bool)
            # a 0-d "wrapped number": category promotion as a python scalar
            return make([a], (), torch.int64 if a.is_int else torch.float32)

        if name in ("arange", "zeros", "ones", "range", "select", "narrow", "split", "chunk", "expand", "view", "reshape", "__getitem__", "repeat"):
            f = lambda a: a.__index__() if isinstance(a, SymNum) else a
            return tuple(f(a) for a in args), {k: f(v) for k, v in kwargs.items()}
        tens_alpha = {"add", "sub", "add_", "sub_"}
        if name in ("clamp", "clip", "clamp_", "clamp_min", "clamp_max") :
            # mixing tensor and number bounds is not allowed: lift both
            def lf2(a):
                if isinstance(a, (int, float)) and not isinstance(a, bool):
                    return make([a], (), torch.float32)
                return lf(a)
            return (args[0],) + tuple(lf2(a) for a in args[1:]), {k: lf2(v) for k, v in kwargs.items()}
        if name in ("softplus", "pad", "leaky_relu"):
            return args, kwargs
        kw = {}
        for k, v in kwargs.items():
            if k in ("alpha", "beta", "value") and is_sym(v):
                raise Unsupported("symbolic scalar keyword %s of %s" % (k, name))
            kw[k] = lf(v)
        return tuple(lf(a) for a in args), kw


def _t0(v):
    if isinstance(v, SymBool):
        return make([v], (), torch.bool)
    return make([v], (), torch.int64 if (isinstance(v, SymNum) and v.is_int) else torch.float32)


def sf_full(args, kwargs):
    size = args[0] if args else kwargs["size"]
    v = args[1] if len(args) > 1 else kwargs["fill_value"]
    dt = kwargs.get("dtype")
    if dt is None:
        dt = torch.bool if isinstance(v, SymBool) else (torch.int64 if v.is_int else torch.get_default_dtype())
    if isinstance(size, int):
        size = (size,)
    n = int(np.prod([int(x) for x in size], dtype=int))
    t = make([to_dtype(v, dt)] * n, tuple(size), dt)
    return t.requires_grad_(True) if kwargs.get("requires_grad") else t


def sf_full_like(args, kwargs):
    t = args[0]
    v = args[1] if len(args) > 1 else kwargs["fill_value"]
    dt = kwargs.get("dtype") or t.dtype
    return make([to_dtype(v, dt)] * t.numel(), t.shape, dt)


def sf_new_full(args, kwargs):
    t, size = args[0], args[1]
    v = args[2] if len(args) > 2 else kwargs["fill_value"]
    dt = kwargs.get("dtype") or t.dtype
    n = int(np.prod([int(x) for x in size], dtype=int))
    return make([to_dtype(v, dt)] * n, tuple(size), dt)


def sf_fill_(args, kwargs):
    t = args[0]
    v = args[1] if len(args) > 1 else kwargs["value"]
    return t.copy_(_t0(v).expand(t.shape))


def sf_addsub(sign, inplace):
    def f(args, kwargs):
        if "alpha" not in kwargs:
            return NotImplemented
        a, b, al = args[0], args[1], kwargs["alpha"]
        x = b * (_t0(al) if is_sym(al) else al)
        if inplace:
            return a.add_(x) if sign > 0 else a.sub_(x)
        return a + x if sign > 0 else a - x

    return f


def sf_addc(div, inplace):
    def f(args, kwargs):
        args = list(args)
        v = kwargs.get("value")
        if v is None:
            for i, a in enumerate(args):
                if not isinstance(a, torch.Tensor):
                    v = args.pop(i)
                    break
        else:
            pass
        t, a, b = args[:3]
        x = a / b if div else a * b
        x = x * (_t0(v) if is_sym(v) else v)
        return t.add_(x) if inplace else t + x

    return f


SCALAR_FUNCS = {
    "full": sf_full, "full_like": sf_full_like, "new_full": sf_new_full, "fill_": sf_fill_,
    "add": sf_addsub(1, False), "add_": sf_addsub(1, True), "sub": sf_addsub(-1, False), "sub_": sf_addsub(-1, True),
    "addcmul": sf_addc(False, False), "addcmul_": sf_addc(False, True),
    "addcdiv": sf_addc(True, False), "addcdiv_": sf_addc(True, True),
}

LIFT_ALL = True

# torch's C argument parser rejects symbolic python scalars before any mode sees them, so
# functions and methods taking a number next to a tensor are wrapped to lift them first.
_NUM_FUNCS = ("mul", "add", "sub", "div", "true_divide", "divide", "multiply", "subtract", "rsub", "pow", "maximum", "minimum",
              "clamp", "clip", "clamp_min", "clamp_max", "where", "lt", "le", "gt", "ge", "eq", "ne", "less", "greater", "lerp",
              "addcmul", "addcdiv", "remainder", "floor_divide", "full_like", "masked_fill", "float_power", "fmod")
_NUM_METHODS = _NUM_FUNCS + tuple(n + "_" for n in ("mul", "add", "sub", "div", "pow", "clamp", "clip", "clamp_min", "clamp_max", "lerp", "addcmul", "addcdiv", "masked_fill", "fill", "copy", "remainder")) + (
    "__add__", "__radd__", "__iadd__", "__sub__", "__rsub__", "__isub__", "__mul__", "__rmul__", "__imul__", "__truediv__", "__rtruediv__",
    "__itruediv__", "__pow__", "__rpow__", "__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__", "__mod__", "__floordiv__", "new_full")


def _num_wrap(name, orig):
    base = name.strip("_") if name.startswith("__") else name

    def g(*args, **kwargs):
        if any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values()):
            key = name
            if key in SCALAR_FUNCS:
                r = SCALAR_FUNCS[key](args, kwargs)
                if r is not NotImplemented:
                    return r
            args, kwargs = _FMode.lift_scalars(None, None, base, args, kwargs)
        return orig(*args, **kwargs)

    g.__name__ = name
    return g


for _n in _NUM_METHODS:
    if hasattr(torch.Tensor, _n):
        setattr(SymTensor, _n, _num_wrap(_n, getattr(torch.Tensor, _n)))
SymTensor.__hash__ = torch.Tensor.__hash__


class _DMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = opname(func)
        if has_sym(args, kwargs):
            return dispatch(func, args, kwargs)
        if name in FACTORY or name in RNG_HANDLERS:
            if name in RNG_HANDLERS:
                return RNG_HANDLERS[name](func, args, kwargs)
            if kwargs.get("device") == torch.device("meta"):
                return func(*args, **kwargs)
            return _factory(func, args, kwargs, name)
        with plain():
            return func(*args, **kwargs)


@contextlib.contextmanager
def symbolic_torch():
    reset_pool()
    dv = torch.distributions.Distribution._validate_args
    torch.distributions.Distribution._validate_args = False
    saved = []
    for n in ("full", "scalar_tensor", "zeros", "ones", "arange", "empty", "linspace", "from_numpy"):
        orig = getattr(torch, n)
        saved.append((n, orig))
        setattr(torch, n, _factory_wrapper(n, orig))
    for n in _NUM_FUNCS:
        if hasattr(torch, n) and n not in ("full",):
            orig = getattr(torch, n)
            saved.append((n, orig))
            setattr(torch, n, _num_wrap(n, orig))
    try:
        with _DMode(), _FMode():
            yield
    finally:
        for n, orig in saved:
            setattr(torch, n, orig)
        torch.distributions.Distribution._validate_args = dv


def _factory_wrapper(n, orig):
    # torch's C argument parser rejects symbolic numbers before any mode sees them
    def g(*args, **kwargs):
        if n == "from_numpy":
            if args[0].dtype == object:
                return tensor_from(args[0])
            with plain():
                out = orig(*args)
            return lift(out) if LIFT_ALL else out
        if any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values()):
            if n == "full":
                return sf_full(args, kwargs)
            if n == "scalar_tensor":
                return sf_full(((), args[0]), kwargs)
            f = lambda a: a.__index__() if isinstance(a, SymNum) and a.is_int else a
            args, kwargs = tuple(f(a) for a in args), {k: f(v) for k, v in kwargs.items()}
        return orig(*args, **kwargs)

    g.__name__ = n
    return g


def sym_module(mod, ctx=None):
    """Replace every parameter/buffer of a module by a SymTensor holding the
    same concrete values (so symbolic data can flow through and into it)."""
    for m in mod.modules():
        for k, p in list(m._parameters.items()):
            if p is not None:
                q = torch.nn.Parameter(lift(p.detach()), requires_grad=p.requires_grad)
                m._parameters[k] = q
        for k, b in list(m._buffers.items()):
            if b is not None:
                m._buffers[k] = lift(b)
    return mod


def warmup():
    """Import torch's lazily loaded machinery once, before forking workers."""
    decomp_table()
    with symbolic_torch():
        with plain():
            lin = torch.nn.Linear(2, 2)
        sym_module(lin)
        opt = torch.optim.SGD(lin.parameters(), lr=0.1)
        x = make([1.0, 2.0], (1, 2), torch.float32)
        y = torch.nn.functional.smooth_l1_loss(torch.relu(lin(x)), x)
        y.backward()
        opt.step()
