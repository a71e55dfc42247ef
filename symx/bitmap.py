"""Symbolic model of pyroaring.BitMap.

A bitmap holds elements from a concrete small universe of ids.  Membership of each id is a z3 Bool, and every id t has
a weight w(t): the (symbolic, non-negative) number of identical transactions it stands for, 1 by default.  `len` is the
weighted cardinality.  With weights, one representative id per transaction *type* describes every database over the
items, whatever its number of transactions.
"""
import z3
from . import engine as _e
from .engine import Unsupported
from .values import SymInt, SymBool, Sym, wrap, simp, tobool

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
_LENCACHE = {}
WEIGHTS = {}  # id -> z3 Int term; absent = 1
MAXW = None


def set_weights(w):
    if len(w) != len(WEIGHTS) or any(not (k in WEIGHTS and WEIGHTS[k].eq(v)) for k, v in w.items()):
        _LENCACHE.clear()
        WEIGHTS.clear()
        WEIGHTS.update(w)


def w_of(t):
    return WEIGHTS.get(t)


class BitMap:
    __slots__ = ("m",)
    __array_priority__ = 1000

    def __init__(self, values=None, copy_on_write=False, optimize=True):
        self.m = {}
        if values is None:
            return
        if isinstance(values, BitMap):
            self.m = dict(values.m)
            return
        for v in values:
            self.add(v)

    # ---- construction / element ops
    @staticmethod
    def _id(v):
        if isinstance(v, Sym):
            v = v.concrete()
        v = int(v)
        if v < 0 or v >= 2 ** 32:
            raise OverflowError("can't convert to uint32_t")
        return v

    def add(self, v):
        self.m[self._id(v)] = True

    def discard(self, v):
        self.m.pop(self._id(v), None)

    def remove(self, v):
        v = self._id(v)
        if not self._has(v):
            raise KeyError(v)
        self.m.pop(v)

    def clear(self):
        self.m = {}

    def copy(self):
        b = BitMap()
        b.m = dict(self.m)
        return b

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    @staticmethod
    def _mk(m):
        b = BitMap()
        b.m = {k: v for k, v in m.items() if v is not False}
        return b

    @staticmethod
    def _co(o):
        if isinstance(o, BitMap):
            return o
        raise TypeError("Argument 'other' has incorrect type (expected pyroaring.AbstractBitMap, got %s)"
                        % type(o).__name__)

    # ---- set algebra
    def intersection(self, *os):
        m = self.m
        for o in os:
            o = self._co(o)
            m = {k: _and(v, o.m[k]) for k, v in m.items() if k in o.m}
        return self._mk(m)

    def union(self, *os):
        m = dict(self.m)
        for o in os:
            o = self._co(o)
            for k, v in o.m.items():
                m[k] = _or(m[k], v) if k in m else v
        return self._mk(m)

    def difference(self, *os):
        m = self.m
        for o in os:
            o = self._co(o)
            m = {k: (_and(v, _not(o.m[k])) if k in o.m else v) for k, v in m.items()}
        return self._mk(m)

    def symmetric_difference(self, o):
        return self.union(o).difference(self.intersection(o))

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, BitMap) else NotImplemented

    def __or__(self, o):
        return self.union(o) if isinstance(o, BitMap) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, BitMap) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if isinstance(o, BitMap) else NotImplemented

    def __iand__(self, o):
        self.m = self.intersection(o).m
        return self

    def __ior__(self, o):
        self.m = self.union(o).m
        return self

    def __isub__(self, o):
        self.m = self.difference(o).m
        return self

    def __ixor__(self, o):
        self.m = self.symmetric_difference(o).m
        return self

    intersection_update = lambda self, *os: setattr(self, "m", self.intersection(*os).m)
    difference_update = lambda self, *os: setattr(self, "m", self.difference(*os).m)

    def update(self, *os):
        for o in os:
            self.m = self.union(o if isinstance(o, BitMap) else BitMap(o)).m

    # ---- cardinality
    def _key(self):
        """hashable key when every membership is concrete"""
        for v in self.m.values():
            if v is not True:
                return None
        return frozenset(self.m)

    def sxlen(self):
        key = self._key()
        if key is not None:
            r = _LENCACHE.get(("len", key))
            if r is not None:
                return r
        terms = []
        n = 0
        for k in sorted(self.m):
            w = w_of(k)
            v = self.m[k]
            if v is True:
                if w is None:
                    n += 1
                else:
                    terms.append(w)
            else:
                terms.append(z3.If(v, z3.IntVal(1) if w is None else w, z3.IntVal(0)))
        if not terms:
            return n
        if n:
            terms.append(z3.IntVal(n))
        r = wrap(simp(z3.Sum(terms)))
        if key is not None:
            _LENCACHE[("len", key)] = r
        return r

    def z3m(self, k):
        """membership of id k as a z3 Bool"""
        v = self.m.get(k, False)
        return v if z3.is_expr(v) else z3.BoolVal(v)

    # no __len__: code under test gets `len` through the loader's builtins (symbolic); third-party code (numpy,
    # pandas) must treat a bitmap as an opaque object instead of forcing its cardinality to a concrete number

    def intersection_cardinality(self, o):
        return self.intersection(o).sxlen()

    def union_cardinality(self, o):
        return self.union(o).sxlen()

    def difference_cardinality(self, o):
        return self.difference(o).sxlen()

    def symmetric_difference_cardinality(self, o):
        return self.symmetric_difference(o).sxlen()

    def get_cardinality(self):
        return self.sxlen()

    def jaccard_index(self, o):
        return self.intersection_cardinality(o) / self.union_cardinality(o)

    def _present(self, k):
        v = self.m.get(k, False)
        w = w_of(k)
        if w is None:
            return z3.BoolVal(v) if isinstance(v, bool) else v
        if v is False:
            return FALSE
        return w > 0 if v is True else z3.And(v, w > 0)

    def nonempty_expr(self):
        key = self._key()
        if key is not None:
            r = _LENCACHE.get(("ne", key))
            if r is not None:
                return r
        r = simp(z3.Or([self._present(k) for k in sorted(self.m)] or [FALSE]))
        if key is not None:
            _LENCACHE[("ne", key)] = r
        return r

    def __bool__(self):
        return _e.ctx().branch(self.nonempty_expr())

    # ---- predicates
    def subset_expr(self, o):
        d = self.difference(self._co(o))
        key = d._key()
        if key is not None:
            r = _LENCACHE.get(("sub", key))
            if r is None:
                r = _LENCACHE[("sub", key)] = simp(z3.Not(d.nonempty_expr()))
            return r
        return z3.Not(d.nonempty_expr())

    def issubset(self, o):
        return SymBool(self.subset_expr(o))

    def issuperset(self, o):
        return SymBool(simp(self._co(o).subset_expr(self)))

    def isdisjoint(self, o):
        return SymBool(simp(z3.Not(self.intersection(o).nonempty_expr())))

    def intersect(self, o):
        return SymBool(simp(self.intersection(o).nonempty_expr()))

    def eq_expr(self, o):
        return simp(z3.And(self.subset_expr(o), o.subset_expr(self)))

    def __eq__(self, o):
        if not isinstance(o, BitMap):
            return NotImplemented
        return SymBool(self.eq_expr(o))

    def __ne__(self, o):
        if not isinstance(o, BitMap):
            return NotImplemented
        return SymBool(z3.Not(self.eq_expr(o)))

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return SymBool(z3.And(self.subset_expr(o), z3.Not(self.eq_expr(o))))

    def __gt__(self, o):
        return SymBool(z3.And(o.subset_expr(self), z3.Not(self.eq_expr(o))))

    __hash__ = None

    def _has(self, k):
        return _e.ctx().branch(self._present(k))

    def __contains__(self, v):
        return self._has(self._id(v))

    # ---- enumeration (branches on the presence of every id)
    def __iter__(self):
        for k in sorted(self.m):
            if self._has(k):
                yield k

    def __reversed__(self):
        for k in sorted(self.m, reverse=True):
            if self._has(k):
                yield k

    def to_array(self):
        import array
        return array.array("I", list(self))

    def __getitem__(self, i):
        if WEIGHTS:
            raise Unsupported("positional access to a weighted bitmap")
        l = list(self)
        return BitMap(l[i]) if isinstance(i, slice) else l[i]

    def min(self):
        for k in self:
            return k
        raise ValueError("Empty roaring bitmap, there is no minimum.")

    def max(self):
        for k in reversed(self):
            return k
        raise ValueError("Empty roaring bitmap, there is no maximum.")

    def __repr__(self):
        return "SymBitMap(%s)" % {k: str(v) for k, v in self.m.items()}

    def __reduce__(self):
        raise Unsupported("pickling a symbolic bitmap")


def _and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return simp(z3.And(a, b))


def _or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return simp(z3.Or(a, b))


def _not(a):
    if isinstance(a, bool):
        return not a
    return simp(z3.Not(a))


FrozenBitMap = BitMap
AbstractBitMap = BitMap
