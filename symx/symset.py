"""Symbolic finite set over a concrete universe (membership of each element is a z3 Bool)."""
import z3
from . import engine as _e
from .values import SymBool, wrap, simp
from .bitmap import _and, _or, _not


def _b(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


class SymSet:
    sxtype = frozenset
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v is not False}

    @classmethod
    def fresh(cls, name, universe):
        c = _e.ctx()
        m = {}
        for u in universe:
            m[u] = z3.Bool(c.fresh("%s_%s" % (name, u)))
        return cls(m)

    @staticmethod
    def _co(o):
        if isinstance(o, SymSet):
            return o
        return SymSet({k: True for k in o})

    def sxlen(self):
        n = sum(1 for v in self.m.values() if v is True)
        t = [z3.If(v, z3.IntVal(1), z3.IntVal(0)) for v in self.m.values() if v is not True]
        return wrap(simp(z3.Sum(t) + n)) if t else n

    def __len__(self):
        n = self.sxlen()
        return n if isinstance(n, int) else int(n)

    def __bool__(self):
        return _e.ctx().branch(z3.Or([_b(v) for v in self.m.values()] or [z3.BoolVal(False)]))

    def has(self, k):
        return _b(self.m.get(k, False))

    def __contains__(self, k):
        return _e.ctx().branch(self.has(k))

    def __iter__(self):
        for k in list(self.m):
            if _e.ctx().branch(_b(self.m[k])):
                yield k

    def __hash__(self):
        return hash(frozenset(self))

    # relations
    def sub_expr(self, o):
        o = self._co(o)
        return simp(z3.And([z3.Implies(_b(v), o.has(k)) for k, v in self.m.items()] or [z3.BoolVal(True)]))

    def eq_expr(self, o):
        o = self._co(o)
        return simp(z3.And(self.sub_expr(o), o.sub_expr(self)))

    def issubset(self, o):
        return SymBool(self.sub_expr(o))

    def issuperset(self, o):
        return SymBool(self._co(o).sub_expr(self))

    def isdisjoint(self, o):
        return not bool(self & o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        o = self._co(o)
        return SymBool(simp(z3.And(self.sub_expr(o), z3.Not(o.sub_expr(self)))))

    def __gt__(self, o):
        return self._co(o).__lt__(self)

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return NotImplemented
        return SymBool(self.eq_expr(o))

    def __ne__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return NotImplemented
        return SymBool(simp(z3.Not(self.eq_expr(o))))

    # algebra
    def intersection(self, *os):
        m = self.m
        for o in os:
            o = self._co(o)
            m = {k: _and(v, o.m[k]) for k, v in m.items() if k in o.m}
        return SymSet(m)

    def union(self, *os):
        m = dict(self.m)
        for o in os:
            for k, v in self._co(o).m.items():
                m[k] = _or(m[k], v) if k in m else v
        return SymSet(m)

    def difference(self, *os):
        m = self.m
        for o in os:
            o = self._co(o)
            m = {k: (_and(v, _not(o.m[k])) if k in o.m else v) for k, v in m.items()}
        return SymSet(m)

    def symmetric_difference(self, o):
        return self.union(o).difference(self.intersection(o))

    __and__ = __rand__ = lambda self, o: self.intersection(o)
    __or__ = __ror__ = lambda self, o: self.union(o)
    __sub__ = lambda self, o: self.difference(o)
    __rsub__ = lambda self, o: self._co(o).difference(self)
    __xor__ = __rxor__ = lambda self, o: self.symmetric_difference(o)

    def copy(self):
        return SymSet(dict(self.m))

    def __repr__(self):
        return "SymSet(%s)" % {k: str(v) for k, v in self.m.items()}
