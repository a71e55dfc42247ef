import itertools
import traceback
import z3
from symx import engine, loader, bitmap, values
from symx.values import SymInt, SymReal, SymBool, Sym, sym_int, sym_real, sym_bool, model_value
from symx.runner import Harness


def E(x):
    """z3 term of a symbolic or concrete number"""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, bool):
        return z3.BoolVal(x)
    r = values._lift(x)
    if r is None:
        raise TypeError("not a number: %r" % (x,))
    return r


def real(fn, *a, **k):
    """call the real code; returns (value, None) or (None, problem)"""
    try:
        return fn(*a, **k), None
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = next((f for f in reversed(tb) if "/skmine/" in f.filename), tb[-1])
        return None, ["exception:%s:%s" % (type(ex).__name__, where.name),
                      "%s: %s (in %s)" % (type(ex).__name__, str(ex)[:200], where.name)]


def subsets(items, lo=1):
    for r in range(lo, len(items) + 1):
        yield from itertools.combinations(items, r)


# ---------------------------------------------------------------------------------- weighted databases
class WDB:
    """Every database over `items`: one representative transaction per non-empty type, with a symbolic multiplicity.

    multiplicities are unbounded non-negative integers, unless max_w is given."""

    def __init__(self, c, items, order=None, max_w=None, types=None, nonempty=True, pad=0):
        self.items = list(items)
        self.types = types or [list(S) for S in subsets(self.items)]
        if order == "desc":
            self.types = [list(reversed(t)) for t in reversed(self.types)]
        self.w = [z3.Int("n_" + "".join(map(str, t))) for t in self.types]
        for v in self.w:
            c.assume(z3.And(v >= 0, v <= max_w) if max_w is not None else v >= 0)
        if nonempty:
            c.assume(z3.Sum(self.w) >= 1)
        # `pad` leading empty transactions: ids below `pad` stay free for other data handled by the code
        self.types = [[] for _ in range(pad)] + self.types
        self.w = [z3.IntVal(0)] * pad + self.w
        self.weights = {k: w for k, w in enumerate(self.w) if k >= pad}
        bitmap.set_weights(self.weights)
        c.small = [z3.And([v <= 1 for v in self.w]), z3.And([v <= 2 for v in self.w]),
                   z3.And([v <= 6 for v in self.w]), z3.And([v <= 30 for v in self.w])]

    def sup(self, S):
        S = set(S)
        t = [w for w, ty in zip(self.w, self.types) if S <= set(ty)]
        return z3.Sum(t) if t else z3.IntVal(0)

    def total(self):
        return z3.Sum(self.w)

    def concrete(self, model):
        """the concrete database described by a model"""
        D = []
        for t, w in zip(self.types, self.w):
            D += [list(t)] * model_value(model, w)
        return D


class BDB:
    """database with n transactions over `items`; membership of item i in transaction t is a z3 Bool (branched on
    when the transactional list is handed to the code)"""

    def __init__(self, c, items, n, nonempty_rows=True):
        self.items, self.n = list(items), n
        self.bits = [[z3.Bool("d_%d_%s" % (t, i)) for i in self.items] for t in range(n)]
        if nonempty_rows:
            for r in self.bits:
                c.assume(z3.Or(r))

    def rows(self, c):
        return [[i for i, b in zip(self.items, r) if c.branch(b)] for r in self.bits]

    def concrete(self, model):
        return [[i for i, b in zip(self.items, r) if model_value(model, b)] for r in self.bits]


# ---------------------------------------------------------------------------------- independent oracles
def o_support(D, S):
    S = set(S)
    return sum(1 for t in D if S <= set(t))


def o_tids(D, S):
    S = set(S)
    return [k for k, t in enumerate(D) if S <= set(t)]


def o_frequent(D, ms):
    items = sorted({i for t in D for i in t})
    return {frozenset(S): o_support(D, S) for S in subsets(items) if o_support(D, S) >= ms}


def o_closed(D, ms):
    f = o_frequent(D, ms)
    return {S: s for S, s in f.items() if not any(S < T and f[T] == s for T in f)}


def o_maximal(D, ms):
    f = o_frequent(D, ms)
    return {S: s for S, s in f.items() if not any(S < T for T in f)}
