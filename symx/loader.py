"""Loads /repo's *current* skmine source as package `sxmine`, executed with symbolic-aware builtins.

Nothing of the implementation is copied or rewritten: each module's text is read from /repo on every run, compiled
and executed natively; only (1) the names resolved from `builtins`, (2) a few third-party imports, (3) the `%` operator
(which also formats text, and cannot be overloaded for str) and text formatting, are substituted.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import math as _math
import os
import sys
import types
import random as _random

import numpy as _np
import pandas as _pd

from . import bitmap as _bitmap
from . import values as _v
from . import symstr as _symstr
from .values import Sym, SymInt, SymReal, SymBool, SymArray, _anysym
from .engine import Unsupported

REPO = os.environ.get("SX_REPO", "/repo")
PKG = "sxmine"

# ------------------------------------------------------------------ builtins
_len, _int, _float, _range = builtins.len, builtins.int, builtins.float, builtins.range
_isinstance, _type, _bool, _str = builtins.isinstance, builtins.type, builtins.bool, builtins.str
_abs, _round, _issubclass, _sum = builtins.abs, builtins.round, builtins.issubclass, builtins.sum


def sx_len(x):
    f = getattr(_type(x), "sxlen", None)
    if f is not None:
        return f(x)
    return _len(x)


class _IntMeta(_type):
    def __instancecheck__(cls, o):
        return _isinstance(o, (_int, SymInt))

    def __subclasscheck__(cls, o):
        return _issubclass(o, (_int, SymInt))

    def __eq__(cls, o):
        return o is _int or o is cls or o is SymInt

    def __hash__(cls):
        return hash(_int)


class sx_int(_int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if _isinstance(x, SymInt):
            return x
        if _isinstance(x, SymReal):
            return x.__trunc__()
        if _isinstance(x, SymBool):
            return x._i()
        if _isinstance(x, _symstr.SymStr):
            return x.to_int()
        return _int(x, *a)


class _FloatMeta(_type):
    def __instancecheck__(cls, o):
        return _isinstance(o, (_float, SymReal))

    def __subclasscheck__(cls, o):
        return _issubclass(o, (_float, SymReal))

    def __eq__(cls, o):
        return o is _float or o is cls or o is SymReal

    def __hash__(cls):
        return hash(_float)


class sx_float(_float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if _isinstance(x, SymReal):
            return x
        if _isinstance(x, SymInt):
            return SymReal(_v._toreal(x.e))
        return _float(x)


class _TypeMeta(_type):
    def __instancecheck__(cls, o):
        return _isinstance(o, _type)

    def __call__(cls, *a, **k):
        if _len(a) == 1 and not k:
            o = a[0]
            if _isinstance(o, SymInt):
                return _int
            if _isinstance(o, SymReal):
                return _float
            if _isinstance(o, SymBool):
                return _bool
            f = getattr(_type(o), "sxtype", None)
            return f if f is not None else _type(o)
        return _type(*a, **k)

    def __eq__(cls, o):
        return o is _type or o is cls

    def __hash__(cls):
        return hash(_type)


class sx_type(_type, metaclass=_TypeMeta):
    pass


def _norm_cls(c):
    if _isinstance(c, tuple):
        out = []
        for x in c:
            y = _norm_cls(x)
            out.extend(y if _isinstance(y, tuple) else (y,))
        return tuple(out)
    if c is _int or c is sx_int:
        return (_int, SymInt)
    if c is _float or c is sx_float:
        return (_float, SymReal)
    if c is _bool:
        return (_bool, SymBool)
    if c is sx_type:
        return _type
    if c is _np.integer:
        return (_np.integer, SymInt)
    if c is _np.floating:
        return (_np.floating, SymReal)
    if c is _np.number:
        return (_np.number, Sym)
    return c


def sx_isinstance(o, c):
    if _isinstance(o, c if _isinstance(c, tuple) else c):
        return True
    n = _norm_cls(c)
    if _isinstance(o, n):
        return True
    t = getattr(_type(o), "sxtype", None)
    if t is not None:
        return _issubclass(t, n)
    return False


def sx_issubclass(a, c):
    if a is sx_int:
        a = _int
    if a is sx_float:
        a = _float
    n = _norm_cls(c)
    return _issubclass(a, n)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_range(*a):
    return _range(*[(_int(x) if _isinstance(x, Sym) else x) for x in a])


def sx_round(x, n=None):
    if _isinstance(x, Sym):
        return x.__round__(n) if n is not None else x.__round__()
    return _round(x, n) if n is not None else _round(x)


def sx_bool(x=False):
    return _bool(x)


TEXTS = {}  # path -> symbolic text of a file


class TextFile:
    """an open file of symbolic text"""

    def __init__(self, text):
        self.text, self.pos = text, 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def read(self):
        return self.text

    def readlines(self):
        return self.text.splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def readline(self):
        ls = self.readlines()
        self.pos += 1
        return ls[self.pos - 1] if self.pos <= _len(ls) else ""


def _mk_open(real):
    def sx_open(path, mode="r", *a, **k):
        try:
            t = TEXTS.get(os.fspath(path))
        except TypeError:
            t = None
        return real(path, mode, *a, **k) if t is None else TextFile(t)
    return sx_open


def _gzip():
    import gzip as g
    return Facade(g, dict(open=_mk_open(g.open)))


BUILTINS = dict(builtins.__dict__)
BUILTINS.update(open=_mk_open(builtins.open), len=sx_len, int=sx_int, float=sx_float, isinstance=sx_isinstance, issubclass=sx_issubclass,
                __sx_mod__=_v.mod, __sx_text__=_symstr.text, __sx_plain__=_symstr.plain, type=sx_type, range=sx_range, round=sx_round, sum=sx_sum)


# ------------------------------------------------------------------ numpy facade
def _issym_nested(x, depth=0):
    if _isinstance(x, (Sym, SymBool)):
        return True
    if depth < 4:
        if _isinstance(x, _np.ndarray):
            return x.dtype == object and _anysym(x)
        if _isinstance(x, (list, tuple)):
            return any(_issym_nested(y, depth + 1) for y in x)
        if _isinstance(x, _pd.Series):
            return x.dtype == object and _anysym(x.values)
    return False


def _np_array(obj=None, dtype=None, *a, **k):
    if _issym_nested(obj):
        if _isinstance(obj, _pd.Series):
            obj = obj.values
        return _np.array(obj, dtype=object).view(SymArray)
    if dtype is sx_int:
        dtype = _int
    if dtype is sx_float:
        dtype = _float
    if dtype is None:
        return _np.array(obj, *a, **k)
    return _np.array(obj, dtype, *a, **k)


def _np_asarray(obj, dtype=None, *a, **k):
    if _issym_nested(obj):
        if _isinstance(obj, _np.ndarray):
            return obj
        return _np_array(obj)
    return _np.asarray(obj, _dt(dtype), *a, **k)


def _dt(d):
    if d is sx_int:
        return _int
    if d is sx_float:
        return _float
    return d


FLOAT_AS_OBJECT = False


def _ix(i):
    """bitmaps used as numpy indices (pyroaring bitmaps are sequences of ids)"""
    if _isinstance(i, _bitmap.BitMap):
        return _np.array(list(i), dtype=_np.int64)
    if _isinstance(i, tuple):
        return tuple(_ix(x) for x in i)
    return i


class IdxArray(_np.ndarray):
    def __setitem__(self, i, v):
        _np.ndarray.__setitem__(self, _ix(i), v)

    def __getitem__(self, i):
        return _np.ndarray.__getitem__(self, _ix(i))


class SymIdxArray(SymArray):
    __setitem__ = IdxArray.__setitem__
    __getitem__ = IdxArray.__getitem__


def _mk_alloc(real):
    def alloc(*a, **k):
        if "dtype" in k:
            k["dtype"] = _dt(k["dtype"])
        a = tuple(_dt(x) if (x is sx_int or x is sx_float) else x for x in a)
        r = real(*a, **k)
        if FLOAT_AS_OBJECT and r.dtype.kind in "fiu":
            return _np.array(r, dtype=object).view(SymIdxArray)
        return r.view(IdxArray) if _type(r) is _np.ndarray else r
    return alloc


def _np_log2(x, *a, **k):
    if _isinstance(x, Sym):
        return x.log2()
    if _isinstance(x, (list, tuple, _np.ndarray)) and not a and not k:
        x = _np.asarray(x)
        if x.dtype == object:
            out = _v._vec(x, lambda y: y.log2() if _isinstance(y, Sym) else _np.log2(y))
            return out if out.shape else out.item()
    if _isinstance(x, _int) and x.bit_length() > 63:
        return _math.log2(x)
    return _np.log2(x, *a, **k)


def _np_log(x, *a, **k):
    if _isinstance(x, Sym):
        return x.log()
    return _np.log(x, *a, **k)


def _np_isnan(x, *a, **k):
    if _isinstance(x, Sym):
        return False
    return _np.isnan(x, *a, **k)


def _np_isinf(x, *a, **k):
    if _isinstance(x, Sym):
        return False
    return _np.isinf(x, *a, **k)


def _np_round(x, n=0, *a, **k):
    if _isinstance(x, Sym):
        return sx_round(x, n)
    return _np.round(x, n, *a, **k)


def _np_abs(x, *a, **k):
    if _isinstance(x, Sym):
        return _abs(x)
    return _np.abs(x, *a, **k)


def _np_floor(x, *a, **k):
    if _isinstance(x, Sym):
        return x.__floor__()
    return _np.floor(x, *a, **k)


def _np_ceil(x, *a, **k):
    if _isinstance(x, Sym):
        return x.__ceil__()
    return _np.ceil(x, *a, **k)


def _np_median(x, *a, **k):
    if _issym_nested(x) and not a and not k:
        v = sorted(_np.asarray(x, dtype=object).ravel().tolist())
        n = _len(v)
        if n % 2:
            return sx_float(v[n // 2])
        return (sx_float(v[n // 2 - 1]) + sx_float(v[n // 2])) / 2
    return _np.median(x, *a, **k)


def _np_mean(x, *a, **k):
    if _issym_nested(x) and not a and not k:
        v = _np.asarray(x, dtype=object).ravel().tolist()
        return sx_sum(v, 0) / _len(v)
    return _np.mean(x, *a, **k)


class Facade(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._real, n)


def _np_copy(x, *a, **k):
    if _isinstance(x, SymArray):
        return x.copy()
    if _isinstance(x, _pd.Index) and x.dtype == object:
        return _np.copy(x).view(SymArray)
    return _np.copy(x, *a, **k)


NP = Facade(_np, dict(copy=_np_copy, array=_np_array, asarray=_np_asarray, zeros=_mk_alloc(_np.zeros), ones=_mk_alloc(_np.ones),
                      empty=_mk_alloc(_np.empty), full=_mk_alloc(_np.full), log2=_np_log2, log=_np_log,
                      isnan=_np_isnan, isinf=_np_isinf, round=_np_round, abs=_np_abs, floor=_np_floor,
                      ceil=_np_ceil, median=_np_median, mean=_np_mean))


def _m1(name):
    real = getattr(_math, name)

    def f(x, *a):
        if _isinstance(x, Sym):
            if name in ("log", "log2"):
                r = getattr(x, name)()
                if a:
                    r = r / _math.log(a[0])
                return r
            if name in ("floor", "ceil", "trunc"):
                return getattr(x, "__%s__" % name)()
            if name in ("isnan", "isinf"):
                return False
            if name == "fabs":
                return _abs(x)
            x = x.concrete()
        return real(x, *[(y.concrete() if _isinstance(y, Sym) else y) for y in a])
    return f


MATH = Facade(_math, {n: _m1(n) for n in ("log", "log2", "floor", "ceil", "trunc", "isnan", "isinf", "fabs", "sqrt",
                                          "factorial", "gcd", "exp")})


class SymI64(SymArray):
    """symbolic integers converted to int64: an object array that answers int64 when asked for its dtype"""
    @staticmethod
    def of(vals):
        r = _np.empty(_len(vals), dtype=object).view(SymI64)
        for i, x in enumerate(vals):
            r[i] = x
        return r

    dtype = property(lambda self: _np.dtype("int64"))
    values = property(lambda self: self)

    def plain(self):
        r = _np.empty(_len(self), dtype=object).view(SymArray)
        for i, x in enumerate(self):
            r[i] = x
        return r

    def to_numpy(self, *a, **k):
        return self

    def astype(self, *a, **k):
        return self

    def to_list(self):
        return list(self)

    def copy(self, *a, **k):
        return SymI64.of(list(self))

    def __array_ufunc__(self, ufunc, method, *ins, **k):
        ins = tuple(x.plain() if _isinstance(x, SymI64) else x for x in ins)
        outs = k.pop("out", None)
        r = getattr(ufunc, method)(*ins, **k)
        if outs is not None:
            for i, x in enumerate(r):
                outs[0][i] = x
            return outs[0]
        return r


# ------------------------------------------------------------------ pandas: patched in place (only symbolic Series)
def _has_sym_series(s):
    return s.dtype == object and any(_isinstance(x, (Sym, SymBool)) for x in s.values)


def _patch_pandas():
    if getattr(_pd, "_sx_patched", False):
        return
    _pd._sx_patched = True
    o_astype = _pd.Series.astype

    def astype(self, dtype, *a, **k):
        if _isinstance(self, _pd.Series) and _has_sym_series(self):
            return self.copy()
        return o_astype(self, _dt(dtype), *a, **k)
    _pd.Series.astype = astype

    o_ttd = _pd.to_timedelta

    def to_timedelta(arg, unit=None, *a, **k):
        if _isinstance(arg, Sym):
            return SymDuration.of(arg * {None: 1, "ns": 1, "us": 1000, "ms": 10 ** 6, "s": 10 ** 9}[unit])
        return o_ttd(arg, unit, *a, **k)
    _pd.to_timedelta = to_timedelta
    o_iastype, o_setaxis = _pd.Index.astype, _pd.core.generic.NDFrame._set_axis

    def iastype(self, dtype, *a, **k):
        if self.dtype == object and any(_isinstance(x, Sym) for x in self._values):
            if _str(dtype) not in ("int64", "<class 'int'>", "<class 'numpy.int64'>") and dtype is not sx_int:
                return self.copy()
            return SymI64.of(self._values)
        return o_iastype(self, _dt(dtype), *a, **k)
    _pd.Index.astype = iastype

    def setaxis(self, axis, labels, *a, **k):
        if _isinstance(labels, SymI64):
            labels = _pd.Index(list(labels), dtype=object)
        return o_setaxis(self, axis, labels, *a, **k)
    _pd.core.generic.NDFrame._set_axis = setaxis

    o_mean = _pd.Series.mean

    def mean(self, *a, **k):
        if not a and not k and _len(self) and _has_sym_series(self):
            return sx_sum(list(self.values)) / _len(self)
        return o_mean(self, *a, **k)
    _pd.Series.mean = mean

    o_nl, o_ns = _pd.Series.nlargest, _pd.Series.nsmallest

    def _pick(self, n, desc):
        vals = list(self.values)
        idx = sorted(_range(_len(vals)), key=lambda i: vals[i] * (-1 if desc else 1))
        return self.iloc[idx[:n]]

    def nlargest(self, n=5, keep="first"):
        return _pick(self, n, True) if _has_sym_series(self) else o_nl(self, n, keep)

    def nsmallest(self, n=5, keep="first"):
        return _pick(self, n, False) if _has_sym_series(self) else o_ns(self, n, keep)
    _pd.Series.nlargest, _pd.Series.nsmallest = nlargest, nsmallest

    def _deb(r):
        if _isinstance(r, _pd.Series) and r.dtype == object and _len(r) and \
                all(_isinstance(x, (SymBool, _bool, _np.bool_)) for x in r.values):
            return _pd.Series([_bool(x) for x in r.values], index=r.index, name=r.name, dtype=_bool)
        return r
    for nm in ("map", "apply"):
        def mk(orig):
            def f(self, *a, **k):
                return _deb(orig(self, *a, **k))
            return f
        setattr(_pd.Series, nm, mk(getattr(_pd.Series, nm)))

    o_tn = _pd.to_numeric

    def to_numeric(arg, *a, **k):
        if _isinstance(arg, _pd.Series) and _has_sym_series(arg):
            return arg
        return o_tn(arg, *a, **k)
    _pd.to_numeric = to_numeric


_patch_pandas()


# ------------------------------------------------------------------ joblib: serial
class Parallel:
    def __init__(self, *a, **k):
        pass

    def __call__(self, it):
        return [f(*a, **k) for f, a, k in it]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def delayed(f):
    return lambda *a, **k: (f, a, k)


def _joblib():
    import joblib as j
    return Facade(j, dict(Parallel=Parallel, delayed=delayed))


def _pdb():
    m = types.ModuleType("pdb")

    def set_trace(*a, **k):
        raise RuntimeError("the code stopped in the debugger (pdb.set_trace)")
    m.set_trace = m.post_mortem = set_trace
    return m


def _json():
    """json with symbolic numbers: written as a tagged object and read back"""
    import json as j

    def default(o):
        if _isinstance(o, Sym):
            return {"__sx__": _v.token(o)}
        raise TypeError("Object of type %s is not JSON serializable" % _type(o).__name__)

    def hook(d):
        return _v.TOKENS[d["__sx__"]] if set(d) == {"__sx__"} else d
    return Facade(j, dict(
        dumps=lambda o, **k: j.dumps(o, **dict(dict(default=default), **k)),
        dump=lambda o, f, **k: j.dump(o, f, **dict(dict(default=default), **k)),
        loads=lambda o, **k: j.loads(o, **dict(dict(object_hook=hook), **k)),
        load=lambda f, **k: j.load(f, **dict(dict(object_hook=hook), **k))))


def _datetime():
    """datetime with durations of symbolic length: an integer number of nano-seconds, rounded to micro-seconds"""
    import datetime as d

    class _Meta(_type):
        def __instancecheck__(cls, o):
            return _isinstance(o, (d.timedelta, SymDuration))

        def __getattr__(cls, n):
            return getattr(d.timedelta, n)

    class timedelta(metaclass=_Meta):
        def __new__(cls, *a, **k):
            if any(_isinstance(x, Sym) for x in list(a) + list(k.values())):
                names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
                us = (86400 * 10 ** 6, 10 ** 6, 1, 1000, 60 * 10 ** 6, 3600 * 10 ** 6, 7 * 86400 * 10 ** 6)
                k = dict(zip(names, a), **k)
                t = sx_sum([k[n] * u for n, u in zip(names, us) if n in k])
                return SymDuration.of(sx_round(t) * 1000)
            return d.timedelta(*a, **k)
    return Facade(d, dict(timedelta=timedelta))


class SymDuration(SymInt):
    """a duration of a symbolic number of nano-seconds"""
    __slots__ = ()

    @staticmethod
    def of(x):
        return SymDuration(x.e) if _isinstance(x, Sym) else x


class SymDatetimeIndex(_pd.Index):
    """dates whose nano-seconds since 1970 are symbolic (object index; the code under test sees a DatetimeIndex)"""
    sxtype = _pd.DatetimeIndex
    unit = "ns"

    def __new__(cls, vals):
        r = _pd.Index(list(vals), dtype=object).view()
        r.__class__ = SymDatetimeIndex
        return r

    @property
    def _constructor(self):
        return SymDatetimeIndex

    @classmethod
    def _simple_new(cls, values, name=None, refs=None):
        r = _pd.Index._simple_new.__func__(_pd.Index, values, name, refs) if refs is not None else \
            _pd.Index._simple_new.__func__(_pd.Index, values, name)
        r.__class__ = SymDatetimeIndex
        return r

    def as_unit(self, unit):
        return self

    asi8 = property(lambda self: SymI64.of(self._values))


CLOCK = None  # a harness's clock; None: the real one


def _time():
    import time as t

    def mk(n):
        real = getattr(t, n)
        return lambda *a: real(*a) if CLOCK is None else CLOCK()
    return Facade(t, {n: mk(n) for n in ("time", "monotonic", "perf_counter", "process_time")})


SUBST = {}
# package variants: `sxmine` models pyroaring symbolically; `sxreal` keeps the real pyroaring (inputs branched before)
PKGS = {"sxmine": ("pyroaring", "joblib", "numpy", "math", "pdb", "json", "datetime", "time", "gzip"), "sxreal": ("joblib", "numpy", "math", "pdb")}


def _substitutes():
    if not SUBST:
        b = types.ModuleType("pyroaring")
        b.BitMap = _bitmap.BitMap
        b.FrozenBitMap = _bitmap.FrozenBitMap
        b.AbstractBitMap = _bitmap.AbstractBitMap
        SUBST.update(pyroaring=b, joblib=_joblib(), numpy=NP, math=MATH, pdb=_pdb(), json=_json(), datetime=_datetime(), time=_time(), gzip=_gzip())
    return SUBST


_real_import = builtins.__import__


def _mk_import(pkg):
    allowed = PKGS[pkg]

    def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.split(".")[0]
            if root == "skmine":
                return _real_import(pkg + name[len("skmine"):], globals, locals, fromlist, 0)
            if name in allowed:
                return _substitutes()[name]
        return _real_import(name, globals, locals, fromlist, level)
    return sx_import


BUILTINS_OF = {p: dict(BUILTINS, __import__=_mk_import(p)) for p in PKGS}


class _Mod(ast.NodeTransformer):
    """x % y -> __sx_mod__(x, y); f"..", str(..) and ..format(..) -> __sx_text__(..): text formatting cannot be overloaded.
    The only rewriting of the code under test."""
    def _text(self, node):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__sx_text__", ast.Load()), node), [node], []), node)

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if node.name in ("__str__", "__repr__", "__format__"):
            node.decorator_list.append(ast.copy_location(ast.Name("__sx_plain__", ast.Load()), node))
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return self._text(node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if (_isinstance(f, ast.Name) and f.id in ("str", "repr")) or (_isinstance(f, ast.Attribute) and f.attr == "format"):
            return self._text(node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if _isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__sx_mod__", ast.Load()), node),
                                              [node.left, node.right], []), node)
        return node


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path, target=None):
        if fullname.split(".")[0] not in PKGS:
            return None
        rel = fullname.split(".")[1:]
        base = os.path.join(REPO, "skmine", *rel)
        if os.path.isdir(base):
            fn, pkg = os.path.join(base, "__init__.py"), True
        else:
            fn, pkg = base + ".py", False
        if not os.path.exists(fn):
            return None
        return importlib.util.spec_from_file_location(fullname, fn, loader=self,
                                                      submodule_search_locations=[base] if pkg else None)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, encoding="utf-8") as f:
            src = f.read()
        tree = _Mod().visit(ast.parse(src, fn))
        code = compile(tree, fn, "exec")
        module.__dict__["__builtins__"] = BUILTINS_OF[module.__name__.split(".")[0]]
        module.__dict__["__file__"] = fn
        FILES.add(os.path.relpath(fn, REPO))
        exec(code, module.__dict__)


FILES = set()
_finder = _Finder()


def install():
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)


def load(name, pkg=PKG):
    """load('skmine.itemsets.lcm') -> the symbolic twin of the module, from /repo's current source"""
    install()
    import importlib
    return importlib.import_module(pkg + name[len("skmine"):])


# ------------------------------------------------------------------ call coverage: which functions were executed
class Profiler:
    def __init__(self):
        self.seen = set()

    def __call__(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if fn.startswith(REPO):
                self.seen.add((os.path.relpath(fn, REPO), co.co_qualname))
