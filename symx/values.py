"""Symbolic scalars that can be fed to ordinary Python code."""
import builtins
import fractions
from fractions import Fraction
import math
import numbers
import re
import z3
import numpy as np
from . import engine as _e
from .engine import Unsupported

_isinstance = builtins.isinstance


_IV = {}
_HC = {}
_CMPC = {}
_BINC = {}
_SIMP = {}


def _lift(x):
    """python number -> z3 term (None if not a number)"""
    if _isinstance(x, Sym):
        return x.e
    if _isinstance(x, (bool, np.bool_)):
        return z3.IntVal(1 if x else 0)
    if _isinstance(x, (int, np.integer)):
        x = int(x)
        r = _IV.get(x)
        if r is None:
            r = z3.IntVal(x)
            if -1000 < x < 1000:
                _IV[x] = r
        return r
    if _isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    if _isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return None
        return z3.RealVal(str(fractions.Fraction(x)))
    return None


def wrap(e):
    if z3.is_bool(e):
        return SymBool(e)
    if e.sort().kind() == z3.Z3_INT_SORT:
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e)
    return SymReal(e)


def simp(e):
    """z3.simplify with a cache (terms are hash-consed; the cache keeps them alive)"""
    k = e.get_id()
    r = _SIMP.get(k)
    if r is not None:
        return r[1]
    if len(_SIMP) > 200000:
        _SIMP.clear()
    r = z3.simplify(e)
    _SIMP[k] = (e, r)
    return r


class SymBool:
    """symbolic truth value; bool() forks"""
    __slots__ = ("b",)
    __array_priority__ = 1000

    def __init__(self, b):
        self.b = b

    def z3expr(self):
        return self.b

    def __bool__(self):
        return _e.ctx().branch(self.b)

    def __and__(self, o):
        return SymBool(z3.And(self.b, tobool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.b, tobool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.b, tobool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.b))

    def __eq__(self, o):
        return bool(self) == (bool(o) if _isinstance(o, SymBool) else o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def _i(self):
        return SymInt(z3.If(self.b, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __repr__(self):
        return "SymBool(%s)" % self.b


def tobool(x):
    if _isinstance(x, SymBool):
        return x.b
    if z3.is_expr(x):
        return x
    if _isinstance(x, Sym):
        return x.e != 0
    return z3.BoolVal(bool(x))


def _coerce(a, b):
    if a.sort().kind() != b.sort().kind():
        if a.sort().kind() == z3.Z3_INT_SORT:
            a = z3.ToReal(a)
        if b.sort().kind() == z3.Z3_INT_SORT:
            b = z3.ToReal(b)
    return a, b


def _toreal(a):
    return z3.ToReal(a) if a.sort().kind() == z3.Z3_INT_SORT else a


def _linear(e):
    """integer term as ({atom id: (atom, coefficient)}, constant), or None"""
    terms, const = {}, 0

    def add(t, k):
        nonlocal const
        if z3.is_int_value(t):
            const += k * t.as_long()
            return
        d = t.decl().kind()
        if d == z3.Z3_OP_ADD:
            for x in t.children():
                add(x, k)
        elif d == z3.Z3_OP_SUB:
            for i, x in enumerate(t.children()):
                add(x, k if i == 0 else -k)
        elif d == z3.Z3_OP_UMINUS:
            add(t.children()[0], -k)
        elif d == z3.Z3_OP_MUL and len(t.children()) == 2 and z3.is_int_value(t.children()[0]):
            add(t.children()[1], k * t.children()[0].as_long())
        else:
            o = terms.get(t.get_id(), (t, 0))
            terms[t.get_id()] = (t, o[1] + k)
    add(e, 1)
    return terms, const


def _floordiv(a, b):
    """python floor division on z3 terms"""
    if a.sort().kind() == z3.Z3_INT_SORT and b.sort().kind() == z3.Z3_INT_SORT:
        if z3.is_int_value(b):
            if b.as_long() > 0:
                m = b.as_long()
                terms, const = _linear(a)
                # (m*X + Y) // m = X + Y // m
                out = [z3.IntVal(const // m)] + [(k // m) * t for t, k in terms.values() if k // m]
                rest = [(k % m) * t for t, k in terms.values() if k % m]
                if rest:
                    out.append(z3.simplify(z3.Sum(rest + [z3.IntVal(const % m)])) / b)
                return z3.Sum(out)
            return (-a) / (-b)
        # z3 int division is euclidean for b>0 == floor
        return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(z3.ToInt(_toreal(a) / _toreal(b)))


def _floor(e):
    """floor of a real term, by integer division where the term is a rational combination of integers"""
    terms, const, ok = {}, Fraction(0), True

    def add(t, k):
        nonlocal const, ok
        if z3.is_rational_value(t):
            const += k * t.as_fraction()
            return
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            for x in ch:
                add(x, k)
        elif d == z3.Z3_OP_SUB:
            for i, x in enumerate(ch):
                add(x, k if i == 0 else -k)
        elif d == z3.Z3_OP_UMINUS:
            add(ch[0], -k)
        elif d == z3.Z3_OP_MUL and len(ch) == 2 and z3.is_rational_value(ch[0]):
            add(ch[1], k * ch[0].as_fraction())
        elif d == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]) and ch[1].as_fraction():
            add(ch[0], k / ch[1].as_fraction())
        elif d == z3.Z3_OP_TO_REAL:
            o = terms.get(ch[0].get_id(), (ch[0], 0))
            terms[ch[0].get_id()] = (ch[0], o[1] + k)
        else:
            ok = False
    add(e, Fraction(1))
    if not ok:
        return z3.ToInt(e)
    m = math.lcm(const.denominator, *[Fraction(k).denominator for _, k in terms.values()])
    return _floordiv(z3.Sum([z3.IntVal(int(const * m))] + [int(k * m) * t for t, k in terms.values()]), z3.IntVal(m))


_INF = float("inf")


class Sym:
    """symbolic number"""
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def z3expr(self):
        return self.e

    # ---- arithmetic
    def _bin(self, o, f, rev=False):
        if _isinstance(o, np.ndarray):
            return _vec(o, lambda x: self._bin(x, f, rev))
        if type(o).__module__.startswith("pandas"):
            return NotImplemented
        if _isinstance(o, SymBool):
            o = o._i()
        if _isinstance(o, HavocReal):
            return havoc()
        b = _lift(o)
        if b is None:
            if _isinstance(o, (float, np.floating)):
                if math.isnan(o):
                    return o
                return self._inf(o, f, rev)
            return NotImplemented
        key = (f.__code__, rev, self.e.get_id(), b.get_id())
        r = _BINC.get(key)
        if r is not None:
            return r[2]
        a, b2 = _coerce(self.e, b)
        r = wrap(simp(f(b2, a) if rev else f(a, b2)))
        if len(_BINC) > 200000:
            _BINC.clear()
        _BINC[key] = (self.e, b, r)
        return r

    def _inf(self, o, f, rev):
        raise Unsupported("arithmetic with infinity")

    def __add__(self, o):
        if _isinstance(o, float) and math.isinf(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if _isinstance(o, float) and math.isinf(o):
            return o
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if _isinstance(o, float) and math.isinf(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if _isinstance(o, float) and math.isinf(o):
            return o
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if not _isinstance(o, np.ndarray):
            _nonzero(o)
        return self._bin(o, lambda a, b: _toreal(a) / _toreal(b))

    def __rtruediv__(self, o):
        _nonzero(self)
        return self._bin(o, lambda a, b: _toreal(a) / _toreal(b), True)

    def __floordiv__(self, o):
        _nonzero(o)
        return self._bin(o, _floordiv)

    def __rfloordiv__(self, o):
        _nonzero(self)
        return self._bin(o, _floordiv, True)

    def __mod__(self, o):
        _nonzero(o)
        return self._bin(o, lambda a, b: a - b * _floordiv(a, b))

    def __rmod__(self, o):
        _nonzero(self)
        return self._bin(o, lambda a, b: a - b * _floordiv(a, b), True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if _isinstance(o, (int, np.integer)) and 0 <= o <= 4:
            r = 1
            for _ in range(int(o)):
                r = self * r
            return r
        o2 = o if not _isinstance(o, Sym) else o.concrete()
        return self.concrete() ** o2

    def __rpow__(self, o):
        return o ** self.concrete()

    def __neg__(self):
        return wrap(simp(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(simp(z3.If(self.e >= 0, self.e, -self.e)))

    # ---- comparison
    def _cmp(self, o, f, inf):
        if _isinstance(o, np.ndarray):
            return _vecb(o, lambda x: self._cmp(x, f, inf))
        if type(o).__module__.startswith("pandas"):
            return NotImplemented
        if _isinstance(o, SymBool):
            o = o._i()
        b = _lift(o)
        if b is None:
            if _isinstance(o, (float, np.floating)):
                return inf(float(o))
            return NotImplemented
        key = (f.__code__, self.e.get_id(), b.get_id())
        r = _CMPC.get(key)
        if r is not None:
            return r[2]
        a, b2 = _coerce(self.e, b)
        c = simp(f(a, b2))
        if z3.is_true(c):
            r = True
        elif z3.is_false(c):
            r = False
        else:
            r = SymBool(c)
        if len(_CMPC) > 200000:
            _CMPC.clear()
        _CMPC[key] = (self.e, b, r)
        return r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda v: v > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda v: v > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda v: v < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda v: v < 0)

    def __eq__(self, o):
        if o is self:
            return True
        r = self._cmp(o, lambda a, b: a == b, lambda v: False)
        return False if r is NotImplemented and not _pd(o) else r

    def __ne__(self, o):
        if o is self:
            return False
        r = self._cmp(o, lambda a, b: a != b, lambda v: True)
        return True if r is NotImplemented and not _pd(o) else r

    def __bool__(self):
        return _e.ctx().branch(self.e != 0)

    def concrete(self):
        return _e.ctx().concretize(self.e)

    def __hash__(self):
        if HASH_MODE == "eq":  # sets and dicts fall back on ==, i.e. on a branch over equality
            return 7919
        return hash(self.concrete())

    def __float__(self):
        return float(self.concrete())

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        return int(self.concrete())

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.e)

    def __str__(self):
        if STR_MODE == "token":
            return token(self)
        return str(self.concrete() if self.is_int() else float(self))

    def __format__(self, spec):
        if STR_MODE == "token":
            return token(self)
        v = self.concrete()
        return format(v if self.is_int() else float(v), spec)

    def is_int(self):
        return self.e.sort().kind() == z3.Z3_INT_SORT

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    # numpy object-ufunc hooks
    def log2(self):
        return _log("log2", self)

    def log(self):
        return _log("log", self)

    def sqrt(self):
        return math.sqrt(float(self))

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def rint(self):
        return self.__round__()

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False


def _pd(o):
    return type(o).__module__.startswith("pandas")


class SymArray(np.ndarray):
    """object ndarray that keeps symbolic elements under dtype conversion"""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and _anysym(self):
            return self.copy()
        return np.asarray(self).astype(dtype, *a, **k)

    def sum(self, *a, **k):
        return np.asarray(self).sum(*a, **k)

    def min(self, *a, **k):
        return np.asarray(self).min(*a, **k)

    def max(self, *a, **k):
        return np.asarray(self).max(*a, **k)

    def prod(self, *a, **k):
        return np.asarray(self).prod(*a, **k)

    def round(self, n=0, *a, **k):
        out = self.copy()
        for i in np.ndindex(self.shape):
            out[i] = (self[i].__round__(n) if n else self[i].__round__()) if _isinstance(self[i], Sym) else round(self[i], n)
        return out


def _anysym(a):
    return any(_isinstance(x, (Sym, SymBool)) for x in np.asarray(a, dtype=object).ravel())


def _vec(arr, f, dtype=object):
    out = np.empty(arr.shape, dtype=object).view(SymArray)
    for i in np.ndindex(arr.shape):
        out[i] = f(arr[i])
    return out


def _vecb(arr, f):
    out = np.empty(arr.shape, dtype=bool)
    for i in np.ndindex(arr.shape):
        out[i] = bool(f(arr[i]))
    return out


def _nonzero(o):
    if _isinstance(o, Sym):
        if _e.ctx().branch(o.e == 0):
            raise ZeroDivisionError("division by zero")
    elif _isinstance(o, (int, float, np.number)) and o == 0:
        raise ZeroDivisionError("division by zero")


class SymInt(Sym):
    __slots__ = ()

    def __index__(self):
        return int(self.concrete())

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        return round(int(self), n)

    def is_integer(self):
        return True

    def bit_length(self):
        return int(self).bit_length()

    def __lshift__(self, o):
        return int(self) << o

    def __rshift__(self, o):
        return int(self) >> o

    def __and__(self, o):
        return int(self) & int(o)
    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)
    __ror__ = __or__

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1


class SymReal(Sym):
    __slots__ = ()

    def __floor__(self):
        return wrap(simp(_floor(self.e)))

    def __ceil__(self):
        return wrap(simp(-_floor(-self.e)))

    def __trunc__(self):
        return wrap(simp(z3.If(self.e >= 0, _floor(self.e), -_floor(-self.e))))

    def __round__(self, n=None):
        if n is None:
            f = z3.ToInt(self.e)
            fr = self.e - z3.ToReal(f)
            r = z3.If(fr < z3.RealVal("1/2"), f, z3.If(fr > z3.RealVal("1/2"), f + 1, z3.If(f % 2 == 0, f, f + 1)))
            return wrap(simp(r))
        s = 10 ** n
        return round(self * s) / s

    def is_integer(self):
        return SymBool(simp(z3.IsInt(self.e)))


class HavocReal(SymReal):
    """result of an arithmetic the harness abstracts away: an unconstrained real; everything computed from it is
    unconstrained too (sound over-approximation: both outcomes of every comparison are explored)"""
    __slots__ = ()

    def _bin(self, o, f, rev=False):
        if _isinstance(o, np.ndarray):
            return _vec(o, lambda x: havoc())
        if type(o).__module__.startswith("pandas"):
            return NotImplemented
        return havoc()

    def __truediv__(self, o):
        return self._bin(o, None)

    __rtruediv__ = __truediv__

    def __neg__(self):
        return havoc()

    __abs__ = __neg__

    def log2(self):
        return havoc()
    log = log2


def havoc():
    n = _e.ctx().fresh("havoc")
    r = _HC.get(n)
    if r is None:
        r = _HC[n] = HavocReal(z3.Real(n))
    return r


# ---------------------------------------------------------------- logarithms
# Logarithms of symbolic arguments: either branch over the feasible values of the argument (exact floats) or an
# uninterpreted function, depending on the harness.
LOG_MODE = "concrete"
# "concrete": hash() branches over the feasible values; "eq": constant hash, membership is decided by branching on
# equality. "eq" is only for harnesses in which symbolic numbers never meet concrete numbers as keys of one container.
HASH_MODE = "concrete"
# "concrete": writing a symbolic number branches over its values; "token": it is written as a token that stands for it
# (only for text that is shown to the user: no text is compared by the code under test in such harnesses).
STR_MODE = "concrete"
TOKENS = {}
UF = {}


def token(x):
    k = "<<%d>>" % x.e.get_id()
    TOKENS[k] = x
    return k


_CONV = re.compile(r"%(?:%|(?:\([^)]*\))?[#0\- +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?[diouxXeEfFgGcrsa])")


def mod(a, b):
    """a % b of the code under test; text formatting keeps symbolic numbers as tokens in token mode"""
    if STR_MODE == "token" and type(a) is str:
        args = b if type(b) is tuple else (b,)
        if any(_isinstance(x, Sym) for x in args):
            it, out, last = iter(args), [], 0
            for m in _CONV.finditer(a):
                out.append(a[last:m.start()])
                last = m.end()
                if m.group() == "%%":
                    out.append("%")
                    continue
                x = next(it)
                out.append(token(x) if _isinstance(x, Sym) else m.group() % (x,))
            out.append(a[last:])
            return "".join(out)
    return a % b


def _log(name, x):
    if LOG_MODE == "havoc":
        return havoc()
    if LOG_MODE == "uf":
        f = UF.setdefault(name, z3.Function("u_" + name, z3.RealSort(), z3.RealSort()))
        return SymReal(f(simp(_toreal(x.e))))
    return getattr(math, name)(x.concrete())


# ---------------------------------------------------------------- inputs
def sym_int(name, lo=None, hi=None):
    c = _e.ctx()
    v = z3.Int(c.fresh(name))
    c.inputs[name] = v
    if lo is not None:
        c.assume(v >= lo)
    if hi is not None:
        c.assume(v <= hi)
    return SymInt(v)


def sym_real(name, lo=None, hi=None):
    c = _e.ctx()
    v = z3.Real(c.fresh(name))
    c.inputs[name] = v
    if lo is not None:
        c.assume(v >= lo)
    if hi is not None:
        c.assume(v <= hi)
    return SymReal(v)


def sym_bool(name):
    c = _e.ctx()
    v = z3.Bool(c.fresh(name))
    c.inputs[name] = v
    return SymBool(v)


def model_value(model, x):
    """python value of a symbolic input under a model"""
    if _isinstance(x, SymBool):
        x = x.b
    elif _isinstance(x, Sym):
        x = x.e
    elif not z3.is_expr(x):
        return x
    v = model.eval(x, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    raise ValueError("cannot evaluate %s" % v)


numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)
