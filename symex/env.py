"""Execution environment for harnesses: patches that let pfrl modules handle
symbolic scalars at the numpy / builtin boundary.  Only active in symbolic mode;
replay runs pfrl with the untouched numpy, torch and builtins."""
import builtins
import contextlib
import math
import statistics
import sys
import types

import numpy as np
import torch

from . import core, symtorch
from .core import SymNum, SymBool, is_sym, Unsupported


class Patcher:
    def __init__(self):
        self.saved = []

    def set(self, obj, attr, value):
        d = obj.__dict__ if hasattr(obj, "__dict__") else {}
        had = attr in d
        self.saved.append((obj, attr, had, getattr(obj, attr, None)))
        setattr(obj, attr, value)

    def setitem(self, d, k, v):
        had = k in d
        self.saved.append((d, k, "item" if had else "noitem", d.get(k)))
        d[k] = v

    def restore(self):
        for obj, attr, had, val in reversed(self.saved):
            if had == "item":
                obj[attr] = val
            elif had == "noitem":
                obj.pop(attr, None)
            elif had:
                setattr(obj, attr, val)
            else:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
        self.saved = []


# ---- float()


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymNum):
            return not x.is_int
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __call__(cls, x=0.0):
        if isinstance(x, symtorch.SymTensor):
            if x.numel() != 1:
                raise TypeError("only length-1 arrays can be converted")
            x = symtorch.scalars(x)[0]
        if isinstance(x, np.ndarray) and x.dtype == object:
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted")
            x = x.reshape(-1)[0]
        if isinstance(x, SymNum):
            if x.is_int:
                import z3

                return SymNum(z3.ToReal(x.z))
            return x
        if isinstance(x, SymBool):
            return symtorch.to_dtype(x, torch.float32)
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __getattr__(cls, n):
        return getattr(builtins.float, n)


class SymFloat(metaclass=_FloatMeta):
    pass


class _MinMax:
    """min/max on symbolic numbers; picklable, since the code stores the function in its objects."""

    def __init__(self, name, f):
        self.__name__, self.f, self.real = name, f, getattr(builtins, name)

    def __call__(self, *args, **kw):
        if not kw:
            xs = args
            if len(args) == 1:
                xs = list(args[0])
                args = (xs,)
            if len(xs) > 1 and any(isinstance(x, SymNum) for x in xs) and all(
                isinstance(x, (SymNum, int, builtins.float, np.number)) for x in xs
            ):
                r = xs[0]
                for x in xs[1:]:
                    r = self.f(r, x)
                return r
        return self.real(*args, **kw)

    def __reduce__(self):
        return (_load_min if self.__name__ == "min" else _load_max), ()

    def __deepcopy__(self, memo):
        return self


_sym_min, _sym_max = _MinMax("min", core.smin), _MinMax("max", core.smax)


def _load_min():
    return _sym_min


def _load_max():
    return _sym_max


def _anyall(name, f):
    real = getattr(builtins, name)

    def g(xs):
        xs = list(xs)
        if any(is_sym(x) for x in xs) and all(isinstance(x, (SymBool, bool, np.bool_)) for x in xs):
            return f(*xs)
        return real(xs)

    g.__name__ = name
    return g


SYM_BUILTINS = {}


def sym_isinstance(x, cls):
    return builtins.isinstance(x, cls)


# ---- numpy


def _has_sym(x, depth=0):
    if is_sym(x) or isinstance(x, symtorch.SymTensor):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(_has_sym(y, depth + 1) for y in x)
    return False


def _floatish(dtype):
    if dtype is None or dtype is SymFloat:
        return True
    try:
        return np.issubdtype(np.dtype(dtype), np.floating)
    except TypeError:
        return False


def obj_array(x):
    """Nested data -> object ndarray."""
    if isinstance(x, np.ndarray):
        return x.astype(object)
    if isinstance(x, symtorch.SymTensor):
        vals = symtorch.scalars(x)
        a = np.empty(len(vals), dtype=object)
        a[:] = vals
        return a.reshape(tuple(x.shape))
    if isinstance(x, (list, tuple)):
        subs = [obj_array(y) for y in x]
        if subs and all(s.shape == subs[0].shape for s in subs):
            a = np.empty((len(subs),) + subs[0].shape, dtype=object)
            for i, s in enumerate(subs):
                a[i] = s if s.shape else s[()]
            return a
        a = np.empty(len(x), dtype=object)
        for i, y in enumerate(x):
            a[i] = y
        return a
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _cast(a, dtype):
    if dtype is None or dtype is object:
        return a
    if _floatish(dtype):
        f = lambda v: symtorch.to_dtype(v, torch.float32)
    elif np.dtype(dtype) == np.bool_:
        f = lambda v: symtorch.to_dtype(v, torch.bool)
    else:
        f = lambda v: symtorch.to_dtype(v, torch.int64)
    out = np.empty(a.shape, dtype=object)
    for i, v in np.ndenumerate(a):
        out[i] = f(v)
    return out


class OArr(np.ndarray):
    """Object array of symbolic numbers whose astype stays symbolic."""

    def astype(self, dtype, *a, **k):
        if dtype is object or np.dtype(dtype) == object:
            return self.copy()
        return _cast(self, dtype).view(OArr)


def _asarray(x, dtype=None, copy=False, **kw):
    if _has_sym(x):
        a = x if isinstance(x, np.ndarray) else obj_array(x)
        if copy:
            a = a.copy()
        return _cast(a, dtype) if dtype is not None else a
    if dtype is SymFloat:
        dtype = float
    kw.pop("order", None)
    if copy:
        return np.array(x, dtype=dtype, **kw)
    return np.asarray(x, dtype=dtype)


def _obj_filled(shape, v):
    a = np.empty(shape, dtype=object)
    a.fill(v)
    return a


def _minmax(name, f):
    real = getattr(np, name)

    def g(a, b, *r, **k):
        if _has_sym(a) or _has_sym(b):
            fu = np.frompyfunc(f, 2, 1)
            return fu(_unw(a), _unw(b))
        return real(a, b, *r, **k)

    return g


def _unw(a):
    return obj_array(a) if isinstance(a, (list, tuple, symtorch.SymTensor)) else a


def _interp(x, xp, fp, *a, **k):
    if not (_has_sym(x) or _has_sym(list(xp)) or _has_sym(list(fp))):
        return np.interp(x, xp, fp, *a, **k)
    xp, fp = list(xp), list(fp)

    def one(v):
        # np.interp semantics for increasing xp
        r = fp[-1]
        for i in range(len(xp) - 2, -1, -1):
            seg = fp[i] + (v - xp[i]) * symtorch.k_div(fp[i + 1] - fp[i], xp[i + 1] - xp[i])
            r = core.ite(v < xp[i + 1], seg, r)
        return core.ite(v <= xp[0], fp[0], r)

    if isinstance(x, (list, tuple, np.ndarray)):
        return obj_array([one(v) for v in np.asarray(x, dtype=object).ravel()])
    return one(x)


def _where(c, *ab):
    if not ab:
        return np.where(c)
    a, b = ab
    if _has_sym(c) or _has_sym(a) or _has_sym(b):
        return np.frompyfunc(lambda x, y, z: symtorch.k_where(x, y, z), 3, 1)(_unw(c), _unw(a), _unw(b))
    return np.where(c, a, b)


def _clip(a, lo=None, hi=None, **k):
    lo = k.pop("a_min", k.pop("min", lo))
    hi = k.pop("a_max", k.pop("max", hi))
    if _has_sym(a) or _has_sym(lo) or _has_sym(hi):
        r = _unw(a)
        if lo is not None:
            r = NP.maximum(r, lo)
        if hi is not None:
            r = NP.minimum(r, hi)
        return r
    return np.clip(a, lo, hi, **k)


def _unary(name, f):
    real = getattr(np, name)

    def g(a, *r, **k):
        if _has_sym(a):
            return np.frompyfunc(f, 1, 1)(_unw(a))
        return real(a, *r, **k)

    return g


def _scalar_cast(real, dt):
    def g(x=0, *a):
        if _has_sym(x):
            if isinstance(x, (np.ndarray, list, tuple)):
                return _cast(obj_array(x), real)
            if isinstance(x, symtorch.SymTensor):
                x = symtorch.scalars(x)[0]
            return symtorch.to_dtype(x, dt)
        return real(x, *a)

    return g


def _std(a, *args, **k):
    if _has_sym(a):
        v = NP.var(a, *args, **k)
        return NP.sqrt(v)
    return np.std(a, *args, **k)


def _var(a, axis=None, **k):
    if _has_sym(a):
        a = _unw(a)
        m = np.mean(a, axis=axis, keepdims=True)
        d = a - m
        return np.mean(d * d, axis=axis)
    return np.var(a, axis=axis, **k)


class _DTypeShim:
    """np.float32 et al. must remain usable both as dtype and as converter."""


class SymLinalg(types.ModuleType):
    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if not _has_sym(x):
            return np.linalg.norm(x, ord, axis, keepdims)
        if axis is not None or keepdims or ord not in (None, 2, 2.0):
            raise Unsupported("np.linalg.norm with these arguments")
        a = obj_array(x)
        if ord is not None and a.ndim != 1:
            raise Unsupported("matrix norm")
        return core.ssqrt(symtorch.k_sum([symtorch.k_mul(v, v) for v in a.ravel()]))

    def __getattr__(self, n):
        return getattr(np.linalg, n)


class SymNumpy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.linalg = SymLinalg("numpy.linalg")
        self.asarray = _asarray
        self.array = lambda x, dtype=None, copy=True, **k: _asarray(x, dtype, copy=True, **k)
        self.ascontiguousarray = _asarray
        self.zeros = self._filled(np.zeros, 0.0)
        self.empty = self._filled(np.empty, 0.0)
        self.ones = self._filled(np.ones, 1.0)
        self.full = self._full
        self.zeros_like = self._like(np.zeros_like, 0.0)
        self.empty_like = self._like(np.empty_like, 0.0)
        self.ones_like = self._like(np.ones_like, 1.0)
        self.maximum = _minmax("maximum", symtorch.k_max)
        self.minimum = _minmax("minimum", symtorch.k_min)
        self.interp = _interp
        self.where = _where
        self.clip = _clip
        self.std = _std
        self.var = _var
        self.sqrt = _unary("sqrt", core.ssqrt)
        self.exp = _unary("exp", core.sexp)
        self.log = _unary("log", core.slog)
        self.tanh = _unary("tanh", core.stanh)
        self.sign = _unary("sign", symtorch.k_sign)
        self.abs = _unary("abs", abs)
        self.absolute = self.abs
        self.isnan = _unary("isnan", symtorch.k_isnan)
        self.isfinite = _unary("isfinite", symtorch.k_isfinite)
        self.isinf = _unary("isinf", symtorch.k_isinf)
        self.power = lambda a, b, **k: (
            np.frompyfunc(symtorch.k_pow, 2, 1)(_unw(a), _unw(b))
            if _has_sym(a) or _has_sym(b)
            else np.power(a, b, **k)
        )

    @staticmethod
    def _filled(real, v):
        def g(shape, dtype=float, **k):
            if _floatish(dtype) or dtype is object:
                return _obj_filled(shape, v if dtype is not object else 0)
            if dtype is np.uint8:  # image buffers hold symbolic pixels
                return _obj_filled(shape, int(v))
            return real(shape, dtype=dtype)

        return g

    @staticmethod
    def _full(shape, v, dtype=None, **k):
        if _has_sym(v) or (dtype is not None and _floatish(dtype)) or isinstance(v, float):
            return _obj_filled(shape, v)
        return np.full(shape, v, dtype=dtype)

    @staticmethod
    def _like(real, v):
        def g(a, dtype=None, **k):
            if _has_sym(a) or (dtype is not None and _floatish(dtype)) or (
                dtype is None and np.asarray(a).dtype.kind == "f"
            ):
                return _obj_filled(np.shape(a) if not isinstance(a, symtorch.SymTensor) else tuple(a.shape), v)
            return real(a, dtype=dtype, **k)

        return g

    def __getattr__(self, n):
        return getattr(np, n)


NP = SymNumpy()
SYM_BUILTINS.update(
    min=_sym_min, max=_sym_max,
    any=_anyall("any", core.or_), all=_anyall("all", core.and_),
)


class SymMath(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        for n, f in dict(
            exp=core.sexp, log=core.slog, sqrt=core.ssqrt, tanh=core.stanh,
        ).items():
            self._mk(n, f)
        self.isnan = lambda x: False if is_sym(x) else math.isnan(x)
        self.isinf = lambda x: False if is_sym(x) else math.isinf(x)
        self.isfinite = lambda x: True if is_sym(x) else math.isfinite(x)
        self.pow = lambda a, b: core.spow(a, b) if is_sym(a) or is_sym(b) else math.pow(a, b)
        self.fabs = lambda a: abs(a)

    def _mk(self, n, f):
        real = getattr(math, n)
        setattr(self, n, lambda x, *a: f(x) if is_sym(x) else real(x, *a))

    def __getattr__(self, n):
        return getattr(math, n)


class SymStatistics(types.ModuleType):
    def __init__(self):
        super().__init__("statistics")

    @staticmethod
    def mean(xs):
        xs = list(xs)
        if not xs:
            raise statistics.StatisticsError("mean requires at least one data point")
        if not _has_sym(xs):
            return statistics.mean(xs)
        return sum(xs) / len(xs)

    fmean = mean

    @staticmethod
    def median(xs):
        xs = list(xs)
        if not _has_sym(xs):
            return statistics.median(xs)
        s = sorted(xs)
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2

    @staticmethod
    def stdev(xs):
        xs = list(xs)
        if len(xs) < 2:
            raise statistics.StatisticsError("stdev requires at least two data points")
        if not _has_sym(xs):
            return statistics.stdev(xs)
        m = sum(xs) / len(xs)
        return core.ssqrt(sum((x - m) * (x - m) for x in xs) / (len(xs) - 1))

    def __getattr__(self, n):
        return getattr(statistics, n)


MATH = SymMath()
STATS = SymStatistics()


@contextlib.contextmanager
def sym_env(S, use_torch=True):
    """Everything a harness body needs in symbolic mode; no-op in replay."""
    P = Patcher()
    try:
        if S.symbolic:
            for name, m in list(sys.modules.items()):
                if m is None or not (name == "pfrl" or name.startswith("pfrl.")):
                    continue
                d = m.__dict__
                if d.get("np") is np:
                    P.set(m, "np", NP)
                if d.get("numpy") is np:
                    P.set(m, "numpy", NP)
                if d.get("math") is math:
                    P.set(m, "math", MATH)
                if d.get("statistics") is statistics:
                    P.set(m, "statistics", STATS)
                P.set(m, "float", SymFloat)
                for bn, bf in SYM_BUILTINS.items():
                    if bn not in d:
                        P.set(m, bn, bf)
            if use_torch:
                with symtorch.symbolic_torch():
                    yield P
            else:
                yield P
        else:
            yield P
    finally:
        P.restore()


# ---- helpers that work in both modes


def tensor(S, data, dtype=torch.float32):
    """Nested list of scalars -> torch tensor (symbolic or plain)."""
    if S.symbolic:
        return symtorch.tensor_from(data, dtype)
    return torch.tensor(_plain(data), dtype=dtype)


def _plain(x):
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    return x


def elems(t):
    """Flat list of scalars of a tensor / array / scalar."""
    if isinstance(t, torch.Tensor):
        return symtorch.scalars(t)
    if isinstance(t, np.ndarray):
        return [v if is_sym(v) else (v.item() if hasattr(v, "item") else v) for v in t.ravel()]
    if isinstance(t, (list, tuple)):
        out = []
        for y in t:
            out += elems(y)
        return out
    return [t]


def scalar(t):
    e = elems(t)
    assert len(e) == 1, "expected a single value, got %d" % len(e)
    return e[0]


def real_tensor(S, name, shape, lo=None, hi=None, dtype=torch.float32):
    n = int(np.prod(shape, dtype=int))
    flat = [S.real("%s%d" % (name, i), lo, hi) for i in range(n)]
    if S.symbolic:
        return symtorch.make(flat, shape, dtype), flat
    return torch.tensor(flat, dtype=dtype).reshape(tuple(shape)), flat


def smax(S, xs):
    r = xs[0]
    for x in xs[1:]:
        r = core.smax(r, x) if S.symbolic else max(r, x)
    return r


def smin(S, xs):
    r = xs[0]
    for x in xs[1:]:
        r = core.smin(r, x) if S.symbolic else min(r, x)
    return r


def ite(S, c, a, b):
    return core.ite(c, a, b) if S.symbolic else (a if c else b)
