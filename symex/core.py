"""Path-exhaustive symbolic executor for Python code, by proxy objects over z3.

The real functions of /repo are executed with `SymNum` / `SymBool` arguments.
Every `bool()` of a symbolic condition asks z3 which outcomes are feasible under
the path condition; both are explored (depth-first, by re-execution of the
harness with a decision prefix) until no unexplored prefix remains.  On each
path the property assertions are conjoined, negated and handed to z3.
"""
import math
import time
from fractions import Fraction
import numbers

import z3

INF = float("inf")


class PathAbort(BaseException):
    """Path steering (assume() made the path infeasible)."""


class Unsupported(BaseException):
    """The executed code left the encodable fragment: inconclusive, never success."""


class Violation(BaseException):
    """Raised on a path where an assertion can fail (sat)."""

    def __init__(self, msg, model):
        super().__init__(msg)
        self.msg = msg
        self.model = model


CTX = None  # current path context


def cur():
    if CTX is None:
        raise Unsupported("symbolic value used outside of a symbolic run")
    return CTX


# --------------------------------------------------------------------------
# term construction


def rv(x):
    """Concrete python number -> z3 value."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, numbers.Real) or hasattr(x, "__float__"):
        f = float(x)
        if math.isinf(f) or math.isnan(f):
            raise Unsupported("inf/nan in symbolic arithmetic")
        if f == int(f) and abs(f) < 1e15:
            return z3.RealVal(int(f))
        return z3.RealVal(Fraction(f))
    raise Unsupported("cannot lift %r" % (type(x),))


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def term(x):
    """Any scalar (symbolic or concrete) -> z3 arithmetic term."""
    if isinstance(x, SymNum):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    return rv(x)


def bterm(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, SymNum):
        return x.z != 0
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def isinf(x):
    return isinstance(x, numbers.Real) and not isinstance(x, SymNum) and math.isinf(x)


def as_value(z):
    """z3 numeral -> python number, or None."""
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    return None


_CANCEL = {}


def _has_div(z, seen=None):
    seen = set() if seen is None else seen
    if z.get_id() in seen:
        return False
    seen.add(z.get_id())
    if z3.is_div(z):
        return True
    return any(_has_div(c, seen) for c in z.children())


def cancel_fractions(z):
    """Normal form N/D of a rational function (common factors removed), for harnesses that opt in.
    Identities between rational functions then become syntactic and branch conditions stay small."""
    key = z.get_id()
    if key in _CANCEL:
        return _CANCEL[key][1]
    import sympy

    atoms = {}

    def to(t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return sympy.Rational(f.numerator, f.denominator)
        k = t.decl().kind()
        cs = t.children()
        if k == z3.Z3_OP_ADD:
            return sympy.Add(*[to(c) for c in cs])
        if k == z3.Z3_OP_MUL:
            return sympy.Mul(*[to(c) for c in cs])
        if k == z3.Z3_OP_SUB:
            return to(cs[0]) - sympy.Add(*[to(c) for c in cs[1:]])
        if k == z3.Z3_OP_UMINUS:
            return -to(cs[0])
        if k == z3.Z3_OP_DIV:
            return to(cs[0]) / to(cs[1])
        if k == z3.Z3_OP_POWER and z3.is_int_value(cs[1]):
            return to(cs[0]) ** cs[1].as_long()
        s = sympy.Symbol("a%d" % t.get_id())
        atoms[s] = t
        return s

    def back(p):
        p = sympy.Poly(p, *atoms) if atoms else p
        out = z3.RealVal(0)
        for mon, c in p.terms():
            t = z3.RealVal("%d/%d" % (c.p, c.q))
            for s, e in zip(p.gens, mon):
                for _ in range(e):
                    t = t * atoms[s]
            out = out + t
        return z3.simplify(out)

    e = sympy.cancel(to(z))
    n, d = sympy.fraction(e)
    if atoms:
        zn, zd = back(n), back(d)
        r = z3.simplify(zn / zd)
        _FRAC[r.get_id()] = (r, zn, zd)
    else:
        r = z
    _CANCEL[key] = (z, r)
    return r


_FRAC = {}


def clear_denominator(d):
    """d = N/D with D of known sign on this path: (N, sign), else None."""
    ctx = cur()
    if not ctx.opts.get("cancel") or not _has_div(d):
        return None
    r = cancel_fractions(d)
    if not _has_div(r):
        return r, 1
    if r.get_id() not in _FRAC:
        return None
    _, n, den = _FRAC[r.get_id()]
    known = ctx.__dict__.setdefault("den_sign", {})
    k = den.get_id()
    if k not in known:
        known[k] = (den, 1 if ctx._sat(den <= 0) == z3.unsat else -1 if ctx._sat(den >= 0) == z3.unsat else 0)
    s = known[k][1]
    return (n, s) if s else None


def mknum(z):
    if CTX is not None and getattr(CTX, "opts", {}).get("cancel") and not z3.is_int(z) and _has_div(z):
        z = cancel_fractions(z)
    v = as_value(z)
    if v is not None:
        if isinstance(v, Fraction):
            # keep as exact: dyadic rationals are exactly representable as float
            return norm_fraction(v)
        return v
    return SymNum(z)


def norm_fraction(v):
    f = float(v)
    if Fraction(f) == v:
        return f
    return SymNum(z3.RealVal(v))


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def _coerce_pair(a, b):
    if a.sort() == b.sort():
        return a, b
    if z3.is_int(a):
        a = z3.ToReal(a)
    if z3.is_int(b):
        b = z3.ToReal(b)
    return a, b


def _okother(o):
    return isinstance(o, (SymNum, SymBool, numbers.Number)) or (
        type(o).__module__ == "numpy" and getattr(o, "ndim", 1) == 0
    )


def _is_array(o):
    return hasattr(o, "__array__") and getattr(o, "ndim", 0) > 0


class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return cur().branch(self.z)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ("bool_", "bool"):
            return mkbool(z3.And(self.z, bterm(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ("bool_", "bool"):
            return mkbool(z3.Or(self.z, bterm(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, bterm(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def logical_not(self):
        return mkbool(z3.Not(self.z))

    # numeric behaviour of bools
    def _num(self):
        return SymNum(term(self))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return (-self._num()) + o

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __neg__(self):
        return -self._num()

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.z == bterm(o))
        if isinstance(o, numbers.Number) or isinstance(o, SymNum):
            return self._num() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __lt__(self, o):
        return self._num() < o

    def __gt__(self, o):
        return self._num() > o

    def __le__(self, o):
        return self._num() <= o

    def __ge__(self, o):
        return self._num() >= o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "SymBool(%s)" % (self.z,)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (bool, (bool(self),))

    def item(self):
        return self


class SymNum(numbers.Real):
    """Symbolic int or real."""

    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def is_int(self):
        return z3.is_int(self.z)

    # ---- arithmetic
    def _bin(self, o, f):
        if _is_array(o) or not _okother(o):
            return NotImplemented
        if isinstance(o, float) and o != o:
            return o
        a, b = _coerce_pair(self.z, term(o))
        return mknum(z3.simplify(f(a, b)))

    def _rbin(self, o, f):
        if _is_array(o) or not _okother(o):
            return NotImplemented
        if isinstance(o, float) and o != o:
            return o
        a, b = _coerce_pair(term(o), self.z)
        return mknum(z3.simplify(f(a, b)))

    def __add__(self, o):
        if isinf(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinf(o):
            return o
        return self._rbin(o, lambda a, b: a + b)

    def __sub__(self, o):
        if isinf(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinf(o):
            return o
        return self._rbin(o, lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return ite(o, self, 0)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, SymBool):
            return ite(o, self, 0)
        return self._rbin(o, lambda a, b: a * b)

    @staticmethod
    def _div(a, b):
        if _is_array(a) or _is_array(b):
            return NotImplemented
        if not (_okother(a) and _okother(b)):
            return NotImplemented
        if isinf(b):
            return 0.0
        if is_sym(b):
            if cur().strict_div and b == 0:
                raise ZeroDivisionError("division by zero")
        elif b == 0:
            raise ZeroDivisionError("division by zero")
        return fdiv(a, b)

    def __truediv__(self, o):
        return SymNum._div(self, o)

    def __rtruediv__(self, o):
        return SymNum._div(o, self)

    @staticmethod
    def _floordivmod(a, b):
        if _is_array(a) or _is_array(b):
            return NotImplemented, NotImplemented
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        ta, tb = _coerce_pair(term(a), term(b))
        if z3.is_int(ta) and z3.is_int(tb):
            if b > 0:
                q = ta / tb
                r = ta % tb
            else:
                # python: floor(a/b) with b<0 == floor((-a)/(-b))
                q = (-ta) / (-tb)
                r = -((-ta) % (-tb))
            return mknum(z3.simplify(q)), mknum(z3.simplify(r))
        q = z3.ToReal(z3.ToInt(ta / tb))
        return mknum(z3.simplify(q)), mknum(z3.simplify(ta - tb * q))

    def __floordiv__(self, o):
        return SymNum._floordivmod(self, o)[0]

    def __rfloordiv__(self, o):
        return SymNum._floordivmod(o, self)[0]

    def __mod__(self, o):
        return SymNum._floordivmod(self, o)[1]

    def __rmod__(self, o):
        return SymNum._floordivmod(o, self)[1]

    def __divmod__(self, o):
        return SymNum._floordivmod(self, o)

    def __rdivmod__(self, o):
        return SymNum._floordivmod(o, self)

    def __pow__(self, o, mod=None):
        if _is_array(o) or not _okother(o):
            return NotImplemented
        return spow(self, o)

    def __rpow__(self, o):
        if _is_array(o) or not _okother(o):
            return NotImplemented
        return spow(o, self)

    def __neg__(self):
        return mknum(z3.simplify(-self.z))

    def __pos__(self):
        return self

    def __abs__(self):
        if cur().opts.get("fork_ite"):
            return self if bool(self >= 0) else -self
        return mknum(z3.simplify(z3.If(self.z >= 0, self.z, -self.z)))

    # ---- comparison
    def _cmp(self, o, f, inf_result):
        if _is_array(o) or not _okother(o):
            return NotImplemented
        if isinf(o):
            return inf_result(o)
        if isinstance(o, numbers.Real) and not isinstance(o, SymNum) and math.isnan(o):
            return False
        a, b = _coerce_pair(self.z, term(o))
        if cur().opts.get("cancel"):
            c = clear_denominator(z3.simplify(a - b))
            if c is not None:
                n, s = c
                return mkbool(z3.simplify(f(n, z3.RealVal(0)) if s > 0 else f(z3.RealVal(0), n)))
        return mkbool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda i: i > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda i: i > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda i: i < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda i: i < 0)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return self._cmp(o, lambda a, b: a == b, lambda i: False)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not_(r)

    def __bool__(self):
        return cur().branch(self.z != 0)

    def __invert__(self):
        return -self - 1

    def __hash__(self):
        if self.is_int:
            if cur().opts.get("sym_hash"):
                # sets/dicts keyed by symbolic ints only: membership is decided
                # by __eq__ (forks on equality patterns, not on values)
                return 7
            return hash(self.__index__())
        raise Unsupported("hash of a symbolic real")

    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return cur().concretize(self.z)

    def __int__(self):
        if self.is_int:
            return cur().concretize(self.z)
        return self.__trunc__()

    def __float__(self):
        if self.is_int:
            return float(cur().concretize(self.z))
        raise Unsupported("float() of a symbolic real (C boundary)")

    def __trunc__(self):
        if self.is_int:
            return self
        t = z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z))
        return cur().concretize(z3.simplify(t))

    def __floor__(self):
        if self.is_int:
            return self
        return mknum(z3.simplify(z3.ToInt(self.z)))

    def __ceil__(self):
        if self.is_int:
            return self
        return mknum(z3.simplify(-z3.ToInt(-self.z)))

    def __round__(self, nd=None):
        if self.is_int:
            return self
        if nd is None:
            fl = z3.ToInt(self.z)
            frac = self.z - z3.ToReal(fl)
            half = z3.RealVal("1/2")
            t = z3.If(
                frac < half, fl, z3.If(frac > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))
            )
            return mknum(z3.simplify(t))
        raise Unsupported("round(x, n)")

    def rint(self):
        r = self.__round__()
        return r * 1.0

    def __repr__(self):
        return "Sym(%s)" % (self.z,)

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        if self.is_int:
            return (int, (self.__index__(),))
        raise Unsupported("pickling a symbolic value")

    # numpy object-ufunc protocol
    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def sqrt(self):
        return ssqrt(self)

    def tanh(self):
        return stanh(self)

    def cos(self):
        return uf("cos", self)

    def sin(self):
        return uf("sin", self)

    def square(self):
        return self * self

    def absolute(self):
        return abs(self)

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def conjugate(self):
        return self

    def clip(self, lo, hi):
        return smin(smax(self, lo), hi)

    def item(self):
        return self

    def astype(self, dtype):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        return mkbool(z3.IsInt(self.z)) if not self.is_int else True


# --------------------------------------------------------------------------
# scalar functions usable on symbolic and concrete values


def not_(c):
    if isinstance(c, SymBool):
        return mkbool(z3.Not(c.z))
    if isinstance(c, SymNum):
        return mkbool(c.z == 0)
    return not c


def and_(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = and_(*c)
        if is_sym(c):
            out.append(bterm(c))
        elif not c:
            return False
    if not out:
        return True
    return mkbool(z3.And(*out))


def or_(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = or_(*c)
        if is_sym(c):
            out.append(bterm(c))
        elif c:
            return True
    if not out:
        return False
    return mkbool(z3.Or(*out))


def ite(c, a, b):
    if not is_sym(c):
        return a if c else b
    if cur().opts.get("fork_ite"):
        return a if bool(c) else b
    if (isinstance(a, (bool, SymBool))) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(bterm(c), bterm(a), bterm(b)))
    ta, tb = _coerce_pair(term(a), term(b))
    return mknum(z3.simplify(z3.If(bterm(c), ta, tb)))


def smax(a, b):
    if isinf(a):
        return a if a > 0 else b
    if isinf(b):
        return b if b > 0 else a
    return ite(a >= b, a, b)


def smin(a, b):
    if isinf(a):
        return a if a < 0 else b
    if isinf(b):
        return b if b < 0 else a
    return ite(a <= b, a, b)


def sabs(a):
    return abs(a)


def toreal(x):
    t = term(x)
    if z3.is_int(t):
        t = z3.ToReal(t)
    return t


def fdiv(a, b):
    """Real division without a zero test (torch semantics at b != 0)."""
    if not is_sym(a) and not is_sym(b):
        return mknum(z3.simplify(toreal(a) / toreal(b)))
    if isinf(b):
        return 0.0
    return mknum(z3.simplify(toreal(a) / toreal(b)))


def floordiv(a, b):
    return SymNum._floordivmod(a, b)[0] if (is_sym(a) or is_sym(b)) else a // b


_UFS = {}


def _uf(name, n=1):
    key = (name, n)
    if key not in _UFS:
        _UFS[key] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return _UFS[key]


# real evaluation of the uninterpreted functions (used when a model is replayed)
UF_CONCRETE = {
    "exp": math.exp,
    "log": math.log,
    "tanh": math.tanh,
    "cos": math.cos,
    "sin": math.sin,
}


def uf(name, *args):
    """Application of an uninterpreted real function."""
    if not any(is_sym(a) for a in args) and name in UF_CONCRETE:
        try:
            return UF_CONCRETE[name](*[float(a) for a in args])
        except (ValueError, OverflowError):
            raise Unsupported("domain error in %s" % name)
    f = _uf(name, len(args))
    t = f(*[z3.simplify(toreal(a)) for a in args])
    return SymNum(t)


def sexp(x):
    if not is_sym(x):
        if isinf(x):
            return 0.0 if x < 0 else INF
        if x == 0:
            return 1.0
        return SymNum(_exp_term(toreal(x)))
    return SymNum(_exp_term(z3.simplify(toreal(x))))


def _exp_split(t):
    """exp(sum of c_i * t_i) as a product (integer c_i), for harnesses that opt in."""
    num, den = [], []
    for c in (t.children() if z3.is_add(t) else [t]):
        k, a = 1, c
        if z3.is_mul(c) and len(c.children()) == 2 and z3.is_rational_value(c.arg(0)):
            f = c.arg(0).as_fraction()
            if f.denominator == 1 and abs(f.numerator) <= 4:
                k, a = int(f.numerator), c.arg(1)
        if z3.is_app(a) and a.decl().name() == "log":
            e = a.arg(0)
        else:
            e = _uf("exp")(a)
            cur().lemma(e, e > 0)
        (num if k > 0 else den).extend([e] * abs(k))
    n = z3.Product(*num) if num else z3.RealVal(1)
    return mknum(z3.simplify(n / z3.Product(*den) if den else n))


def _exp_term(t):
    if z3.is_app(t) and t.decl().name() == "log":
        return t.arg(0)
    if cur().opts.get("expsplit"):
        r = _exp_split(t)
        return toreal(r)
    e = _uf("exp")(t)
    cur().lemma(e, e > 0)
    return e


def slog(x):
    if not is_sym(x):
        if x == 1:
            return 0.0
        if x <= 0:
            raise Unsupported("log of non-positive")
    t = z3.simplify(toreal(x))
    if z3.is_app(t) and t.decl().name() == "exp":
        return SymNum(t.arg(0))
    return SymNum(_uf("log")(t))


def ssqrt(x):
    """Nonneg square root via a fresh definition y>=0, y*y==x (x>=0)."""
    if not is_sym(x):
        if x != x or x == INF:
            return x
        r = math.sqrt(x)
        if r * r == x:
            return r
    t = z3.simplify(toreal(x))
    y = _uf("sqrt")(t)
    cur().lemma(y, z3.Implies(t >= 0, z3.And(y >= 0, y * y == t)))
    return SymNum(y)


def stanh(x):
    t = z3.simplify(toreal(x))
    y = _uf("tanh")(t)
    cur().lemma(y, z3.And(y > -1, y < 1, (t > 0) == (y > 0), (t < 0) == (y < 0)))
    return SymNum(y)


def ssigmoid(x):
    t = z3.simplify(toreal(x))
    y = _uf("sigmoid")(t)
    cur().lemma(y, z3.And(y > 0, y < 1))
    return SymNum(y)


def spow(a, b):
    if not is_sym(b):
        if isinstance(b, numbers.Integral) or (float(b) == int(b)):
            n = int(b)
            if n == 0:
                return 1 if isinstance(b, numbers.Integral) else 1.0
            if n < 0:
                return SymNum._div(1, spow(a, -n))
            r = a
            for _ in range(n - 1):
                r = r * a
            return r
        if b == 0.5:
            return ssqrt(a)
        if b == -0.5:
            return SymNum._div(1.0, ssqrt(a))
        return _powuf(a, b)
    if isinstance(b, SymNum) and b.is_int:
        return spow(a, cur().concretize(b.z))
    if not is_sym(a) and a == 1:
        return 1.0
    return _powuf(a, b)


def _powuf(a, b):
    ta, tb = z3.simplify(toreal(a)), z3.simplify(toreal(b))
    y = _uf("pow", 2)(ta, tb)
    # facts valid for every a > 0
    cur().lemma(
        y,
        z3.And(
            z3.Implies(ta > 0, y > 0),
            z3.Implies(z3.And(ta >= 1, tb >= 0), y >= 1),
            z3.Implies(z3.And(ta > 0, ta <= 1, tb >= 0), y <= 1),
            z3.Implies(z3.And(ta >= 1, tb <= 0), y <= 1),
            z3.Implies(z3.And(ta > 0, ta <= 1, tb <= 0), y >= 1),
            z3.Implies(ta == 1, y == 1),
            z3.Implies(z3.And(ta > 0, tb == 0), y == 1),
            z3.Implies(tb == 1, y == ta),
            z3.Implies(z3.And(ta == 0, tb > 0), y == 0),
        ),
    )
    cur().pow_apps.append((ta, tb, y))
    return SymNum(y)


# --------------------------------------------------------------------------
# path context and exploration


class Stats:
    def __init__(self):
        self.paths = 0
        self.completed = 0
        self.aborted = 0
        self.branches = 0
        self.queries = 0
        self.assertions = 0
        self.solver_s = 0.0
        self.max_depth = 0
        self.covers = {}
        self.inputs = 0

    def as_dict(self):
        return dict(self.__dict__)


class PathCtx:
    def __deepcopy__(self, memo):  # networks under test hold a reference
        return self

    symbolic = True

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.stats = stats
        self.opts = opts
        self.pc = []
        self.pos = 0
        self.trace = []  # decisions taken
        self.pending = []  # alternatives (decision lists)
        self._solver = None
        self._added = 0
        self.inputs = {}
        self.asserts = []
        self.lemmas_seen = set()
        self.strict_div = True
        self.pow_apps = []
        self.counter = {}
        self.covered = set()
        self._lin_cache = {}

    # -- basic
    def add(self, c):
        self.pc.append(c)

    @property
    def solver(self):
        """The incremental solver, created and fed lazily."""
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set("timeout", self.opts.get("branch_timeout_ms", 20000))
        if self._added < len(self.pc):
            self._solver.add(*self.pc[self._added:])
            self._added = len(self.pc)
        return self._solver

    def lemma(self, key, c):
        k = key.get_id()
        if k in self.lemmas_seen:
            return
        self.lemmas_seen.add(k)
        self._keep = getattr(self, "_keep", [])
        self._keep.append(key)
        self.add(c)

    def _sat(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            # second opinion by nlsat on a fresh solver
            r = self._hard_check(list(extra))
        return r

    def _hard_check(self, extra, want_model=False):
        t = time.time()
        r = z3.unknown
        m = None
        for mk in (
            lambda: z3.Then("simplify", "solve-eqs", "qfnra-nlsat").solver(),
            lambda: z3.Solver(),
        ):
            s = mk()
            s.set("timeout", self.opts.get("timeout_ms", 60000))
            s.add(*self.pc)
            s.add(*extra)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.stats.queries += 1
            if r == z3.sat:
                m = s.model()
            if r != z3.unknown:
                break
        self.stats.solver_s += time.time() - t
        if want_model:
            return r, m
        return r

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if isinstance(d, tuple):
                raise Unsupported("non-deterministic re-execution")
            self.pos += 1
            self.trace.append(d)
            self.add(cond if d else z3.Not(cond))
            return d
        st = self._sat(cond)
        if st == z3.unknown:
            raise Unsupported("solver unknown on branch")
        if st == z3.unsat:
            # forced: no decision needed, but remember for determinism
            self.pos += 1
            self.trace.append(False)
            self.prefix = self.prefix + (False,)
            self.add(z3.Not(cond))
            return False
        sf = self._sat(z3.Not(cond))
        if sf == z3.unknown:
            raise Unsupported("solver unknown on branch")
        d = True
        if sf == z3.sat:
            self.pending.append(tuple(self.trace) + (False,))
        self.pos += 1
        self.trace.append(d)
        self.prefix = self.prefix + (d,)
        self.add(cond)
        if len(self.trace) > self.opts.get("max_depth", 4000):
            raise Unsupported("path too deep")
        return d

    def concretize(self, z, limit=None):
        """Fork over every feasible value of an integer term."""
        z = z3.simplify(z)
        v = as_value(z)
        if v is not None:
            return int(v)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if not isinstance(d, tuple):
                raise Unsupported("non-deterministic re-execution")
            v = d[1]
            self.pos += 1
            self.trace.append(d)
            self.add(z == v)
            return v
        limit = limit or self.opts.get("concretize_limit", 80)
        self.stats.branches += 1
        vals = []
        excl = []
        while True:
            r = self._sat(*excl)
            if r == z3.unknown:
                raise Unsupported("solver unknown in concretisation")
            if r == z3.unsat:
                break
            m = self.solver.model()
            v = m.eval(z, model_completion=True).as_long()
            vals.append(v)
            excl.append(z != v)
            if len(vals) > limit:
                raise Unsupported("unbounded concretisation of %s" % z)
        if not vals:
            raise PathAbort()
        vals.sort()
        for v in reversed(vals[1:]):
            self.pending.append(tuple(self.trace) + (("v", v),))
        v = vals[0]
        self.pos += 1
        self.trace.append(("v", v))
        self.prefix = self.prefix + (("v", v),)
        self.add(z == v)
        return v

    # -- inputs
    def _name(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        z = z3.Int(name)
        self.inputs[name] = ("int", z)
        if lo is not None:
            self.add(z >= term(lo))
        if hi is not None:
            self.add(z <= term(hi))
        if lo is not None and hi is not None and not is_sym(lo) and not is_sym(hi):
            if lo == hi:
                return lo
        return SymNum(z)

    def real(self, name, lo=None, hi=None, lo_strict=None, hi_strict=None):
        name = self._name(name)
        z = z3.Real(name)
        self.inputs[name] = ("real", z)
        if lo is not None:
            self.add(z >= toreal(lo))
        if hi is not None:
            self.add(z <= toreal(hi))
        if lo_strict is not None:
            self.add(z > toreal(lo_strict))
        if hi_strict is not None:
            self.add(z < toreal(hi_strict))
        return SymNum(z)

    def bool(self, name):
        name = self._name(name)
        z = z3.Bool(name)
        self.inputs[name] = ("bool", z)
        return SymBool(z)

    def choice(self, name, n):
        """Symbolic int in [0, n) made concrete by forking."""
        if n == 1:
            self._name(name)
            return 0
        x = self.int(name, 0, n - 1)
        return self._free_fork(x.z, list(range(n)), lambda v: x.z == v)

    def flag(self, name):
        """Symbolic bool made concrete by forking."""
        b = self.bool(name)
        return self._free_fork(b.z, [True, False], lambda v: b.z if v else z3.Not(b.z))

    def _free_fork(self, z, vals, con):
        """Fork on a fresh variable: every value is feasible, no query needed."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if not isinstance(d, tuple):
                raise Unsupported("non-deterministic re-execution")
            v = d[1]
            self.pos += 1
            self.trace.append(d)
            self.add(con(v))
            return v
        self.stats.branches += 1
        for v in reversed(vals[1:]):
            self.pending.append(tuple(self.trace) + (("v", v),))
        v = vals[0]
        self.pos += 1
        self.trace.append(("v", v))
        self.prefix = self.prefix + (("v", v),)
        self.add(con(v))
        return v

    # -- assumptions and assertions
    def assume(self, c):
        if not is_sym(c):
            if not c:
                raise PathAbort()
            return
        c = bterm(c)
        self.add(c)
        if self._sat() == z3.unsat:
            raise PathAbort()

    def check(self, c, msg="assertion"):
        self.stats.assertions += 1
        if is_sym(c):
            zc = z3.simplify(bterm(c))
            if z3.is_true(zc):
                return
            self.asserts.append((zc, msg))
        elif not c:
            self.asserts.append((z3.BoolVal(False), msg))
            self.flush()  # raises

    def eq(self, a, b):
        return eq(a, b)

    def le(self, a, b):
        r = a <= b
        return r

    def lt(self, a, b):
        return a < b

    def check_eq(self, a, b, msg="equality"):
        self.stats.assertions += 1
        if not is_sym(a) and not is_sym(b):
            ok = bool(a == b)
            if not ok and isinstance(a, numbers.Real) and isinstance(b, numbers.Real):
                # both concrete floats computed by python arithmetic
                ok = math.isclose(float(a), float(b), rel_tol=1e-6, abs_tol=1e-9)
            self.check(ok, "%s: %r != %r" % (msg, a, b))
            return
        if isinf(a) or isinf(b):
            self.check(False, msg + " (inf)")
            return
        ta, tb = _coerce_pair(term(a), term(b))
        t0 = time.time()
        d = z3.simplify(ta - tb, som=True, mul_to_power=False, hoist_mul=False)
        if as_value(d) == 0:  # z3's normal form of the polynomial is 0: the negation is unsatisfiable
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t0
            return
        c = clear_denominator(d)
        if c is not None:
            d = z3.simplify(c[0], som=True, mul_to_power=False, hoist_mul=False)
            if as_value(d) == 0:
                self.stats.queries += 1
                self.stats.solver_s += time.time() - t0
                return
        self.asserts.append((d == 0, msg))
        self.margins = getattr(self, "margins", {})
        self.margins[len(self.asserts) - 1] = d

    def flush(self):
        """Ask the solver whether any pending assertion can fail on this path."""
        if not self.asserts:
            return
        neg = z3.Not(z3.And(*[c for c, _ in self.asserts]))
        r, m = self._valid_query(neg)
        if r == z3.unsat:
            for c, _ in self.asserts:
                self.solver.add(c)
            self.asserts = []
            self.margins = {}
            return
        if r == z3.unknown:
            # try one by one
            for c, msg in self.asserts:
                r1, m1 = self._valid_query(z3.Not(c))
                if r1 == z3.sat:
                    raise Violation(msg, self._extract(m1))
                if r1 == z3.unknown:
                    raise Unsupported("solver unknown on assertion: " + msg)
            self.asserts = []
            self.margins = {}
            return
        # sat: identify the failing assertion, prefer a well-separated model
        margins = getattr(self, "margins", {})
        for i, (c, msg) in enumerate(self.asserts):
            r1, m1 = self._valid_query(z3.Not(c))
            if r1 == z3.sat:
                m2 = self._nice_model(c, margins.get(i))
                raise Violation(msg, self._extract(m2 or m1))
        raise Violation(self.asserts[0][1], self._extract(m))

    def _valid_query(self, neg):
        t = time.time()
        s = z3.Solver()
        s.set("timeout", self.opts.get("timeout_ms", 60000) // 4)
        s.add(*self.pc)
        s.add(neg)
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            return r, s.model()
        if r == z3.unsat:
            return r, None
        return self._hard_check([neg], want_model=True)

    def _nice_model(self, c, d):
        """A counterexample with bounded inputs and a clear margin, if any."""
        box = []
        for k, (kind, z) in self.inputs.items():
            if kind == "real":
                box.append(z3.And(z >= -16, z <= 16))
        for extra in (
            (box + [z3.Or(d >= z3.RealVal("1/4"), d <= z3.RealVal("-1/4"))])
            if d is not None
            else None,
            box,
        ):
            if extra is None:
                continue
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(*self.pc)
            s.add(z3.Not(c))
            s.add(*extra)
            t = time.time()
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r == z3.sat:
                return s.model()
        return None

    def _extract(self, m):
        out = {}
        for k, (kind, z) in self.inputs.items():
            v = m.eval(z, model_completion=True)
            if kind == "bool":
                out[k] = bool(z3.is_true(v))
            elif kind == "int":
                out[k] = v.as_long()
            else:
                out[k] = model_real(v)
        return out

    def path_model(self):
        r = self.solver.check()
        if r == z3.sat:
            return self._extract(self.solver.model())
        r, m = self._hard_check([], want_model=True)
        if r == z3.sat:
            return self._extract(m)
        return None

    def cover(self, label):
        self.covered.add(label)


def model_real(v):
    try:
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        return v.numerator_as_long() / v.denominator_as_long()
    except Exception:
        return 0.0


def eq(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a == b)
    if a is None or b is None:
        return a is b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return mkbool(bterm(a) == bterm(b))
    ta, tb = _coerce_pair(term(a), term(b))
    return mkbool(ta == tb)


class Result:
    def __init__(self):
        self.violations = []  # dicts: msg, inputs, kind
        self.errors = []
        self.stats = Stats()


def explore(harness, opts=None, stop_at_first=True):
    """Run `harness(ctx)` over every feasible path. Returns Result."""
    global CTX
    opts = opts or {}
    res = Result()
    st = res.stats
    work = [()]
    t0 = time.time()
    max_paths = opts.get("max_paths", 200000)
    tlimit = opts.get("time_limit", 800)
    while work:
        prefix = work.pop()
        if st.paths >= max_paths:
            res.errors.append("path limit %d reached" % max_paths)
            break
        if time.time() - t0 > tlimit:
            res.errors.append("time limit %ds reached after %d paths" % (tlimit, st.paths))
            break
        ctx = PathCtx(prefix, st, opts)
        CTX = ctx
        st.paths += 1
        ok = True
        try:
            try:
                harness(ctx)
                ctx.flush()
                st.completed += 1
            except PathAbort:
                st.aborted += 1
                ok = False
            except Violation as v:
                res.violations.append({"kind": "assertion", "msg": v.msg, "inputs": v.model})
                ok = False
            except Unsupported as u:
                m = None
                try:
                    m = ctx.path_model()
                except BaseException:
                    pass
                res.errors.append("unsupported: %s" % (u,))
                res.unsupported_inputs = m
                import traceback

                res.tb = traceback.format_exc()
                ok = False
            except Exception as e:
                import traceback

                tb = traceback.format_exc()
                # The code under test raised on this path.  Any earlier failed
                # assertion is reported too; replay decides.
                m = None
                try:
                    ctx.flush()
                except Violation as v:
                    m = v.model
                except BaseException:
                    pass
                if m is None:
                    m = ctx.path_model()
                if m is None:
                    # cannot happen on a feasible path unless solver unknown
                    res.errors.append("exception on path with no model: %r" % (e,))
                    res.tb = tb
                else:
                    res.violations.append(
                        {
                            "kind": "exception",
                            "msg": "%s: %s" % (type(e).__name__, e),
                            "inputs": m,
                            "tb": tb,
                        }
                    )
                ok = False
        finally:
            CTX = None
        st.max_depth = max(st.max_depth, len(ctx.trace))
        st.inputs = max(st.inputs, len(ctx.inputs))
        if ok:
            for c in ctx.covered:
                st.covers[c] = st.covers.get(c, 0) + 1
        work.extend(ctx.pending)
        if res.violations and stop_at_first:
            if len(res.violations) >= opts.get("max_violations", 8):
                break
        if res.errors and len(res.errors) >= opts.get("max_errors", 1):
            break
    st.wall_s = time.time() - t0
    return res


# --------------------------------------------------------------------------
# concrete replay: the same harness, plain python values, no proxies


class ReplayFailure(BaseException):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class ReplayCtx:
    def __deepcopy__(self, memo):  # networks under test hold a reference
        return self

    """Feeds a counterexample's values to a harness; checks with tolerance."""

    symbolic = False

    def __init__(self, values, rng=None, fill="zero"):
        self.values = values
        self.rng = rng
        self.fill = fill
        self.used = {}
        self.counter = {}
        self.covered = set()
        self.failures = []
        self.strict_div = True
        self.rtol = 1e-3
        self.atol = 1e-4

    _name = PathCtx._name

    def _get(self, name, gen):
        if name in self.values:
            v = self.values[name]
        elif self.rng is not None:
            v = gen()
        else:
            v = gen() if self.fill == "gen" else None
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        l = -8 if lo is None else int(lo)
        h = l + 16 if hi is None else int(hi)
        v = self._get(name, lambda: self.rng.randint(l, max(l, h)))
        if v is None:
            v = l
            self.used[name] = v
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise PathAbort()
        return int(v)

    def real(self, name, lo=None, hi=None, lo_strict=None, hi_strict=None):
        name = self._name(name)
        l = lo if lo is not None else lo_strict
        h = hi if hi is not None else hi_strict
        if l is None:
            l = -3.0 if h is None else h - 6.0
        if h is None:
            h = l + 6.0

        def gen():
            c = self.rng.random()
            if c < 0.15:
                return float(l)
            if c < 0.3:
                return float(h)
            if c < 0.6:
                x = float(round(self.rng.uniform(l, h)))
                return min(max(x, l), h)
            return self.rng.uniform(l, h)

        v = self._get(name, gen)
        if v is None:
            v = min(max(0.0, l), h)
            self.used[name] = v
        v = float(v)
        if (lo is not None and v < lo - 1e-12) or (hi is not None and v > hi + 1e-12):
            raise PathAbort()
        if lo_strict is not None and v <= lo_strict:
            raise PathAbort()
        if hi_strict is not None and v >= hi_strict:
            raise PathAbort()
        return v

    def bool(self, name):
        name = self._name(name)
        v = self._get(name, lambda: self.rng.random() < 0.5)
        if v is None:
            v = False
            self.used[name] = v
        return bool(v)

    def choice(self, name, n):
        if n == 1:
            self._name(name)
            return 0
        return self.int(name, 0, n - 1)

    def flag(self, name):
        return self.bool(name)

    def assume(self, c):
        if not c:
            raise PathAbort()

    def check(self, c, msg="assertion"):
        if not bool(c):
            raise ReplayFailure(msg)

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return bool(a) == bool(b)
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return bool(a == b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a == b
        return math.isclose(a, b, rel_tol=self.rtol, abs_tol=self.atol)

    def le(self, a, b):
        return float(a) <= float(b) or self.eq(a, b)

    def lt(self, a, b):
        return float(a) < float(b)

    def check_eq(self, a, b, msg="equality"):
        if not self.eq(a, b):
            raise ReplayFailure("%s: got %r, expected %r" % (msg, a, b))

    def cover(self, label):
        self.covered.add(label)

    def lemma(self, *a):
        pass

    def flush(self):
        pass


def replay(harness, values, rng=None, tolerate=()):
    """Run concretely. Returns (status, msg, used): status in
    'violated' | 'held' | 'skipped'."""
    ctx = ReplayCtx(values, rng=rng)
    try:
        harness(ctx)
        return "held", None, ctx.used
    except PathAbort:
        return "skipped", None, ctx.used
    except ReplayFailure as f:
        return "violated", f.msg, ctx.used
    except Exception as e:
        import traceback

        return "violated", "exception %s: %s" % (type(e).__name__, e), dict(
            ctx.used, __tb__=traceback.format_exc()
        )
