"""Stand-ins for numpy's random generators: every draw is symbolic (anything the distribution can give), the k-th draw of
generators with the same seed is the same.  In replays the draws are those of the counterexample."""
import contextlib

import numpy as np
import numpy.random as npr
import pandas as pd
import z3

from symx import engine
from symx.engine import Unsupported
from symx.values import Sym, SymArray, SymInt, sym_int, sym_real, model_value, tobool

REAL = npr.RandomState


class Source:
    """one per path (or replay): the streams of draws"""

    def __init__(self, script=None):
        self.script, self.fresh, self.log, self.memo = script, 0, {}, {}

    def new_key(self):
        self.fresh += 1
        return "?%d" % self.fresh

    def number(self, key, k, i, lo, hi, kind="int"):
        """i-th number of the k-th draw of stream `key`"""
        n = "%s.%d.%d" % (key, k, i)
        if self.script is not None:
            v = self.script.get(n)
            if v is None or not lo <= v <= hi:
                v = lo if kind == "int" else float(lo)
            return int(v) if kind == "int" else v
        if n not in self.memo:
            self.memo[n] = sym_int(n) if kind == "int" else sym_real(n)
        v = self.memo[n]
        c = engine.ctx()
        lo, hi = [x.e if isinstance(x, Sym) else x for x in (lo, hi)]
        c.assume(z3.And(v.e >= lo, v.e <= hi))
        return v

    def payload(self, mo):
        return {n: model_value(mo, v) for n, v in self.memo.items()}


SRC = None


def _int(x):
    return int(x) if not isinstance(x, Sym) else x.__index__()


def _array(vals):
    if any(isinstance(v, Sym) for v in vals):
        out = np.empty(len(vals), dtype=object)
        out[:] = vals
        return out.view(SymArray)
    return np.array(vals)


class Draws:
    def __init__(self, seed=None):
        if isinstance(seed, Draws):
            raise TypeError("Cannot cast a generator to a seed")
        self.seed(seed)

    def seed(self, seed=None):
        self.key, self.k = (SRC.new_key() if seed is None else "s%s" % (seed,)), 0

    def _draw(self, size, one):
        self.k += 1
        if size is None:
            return one(0)
        if isinstance(size, (tuple, list)):
            if len(size) != 1:
                raise Unsupported("draw of several dimensions")
            size = size[0]
        return _array([one(i) for i in range(_int(size))])

    def _number(self, lo, hi, kind="int"):
        return lambda i: SRC.number(self.key, self.k, i, lo, hi, kind)

    def binomial(self, n, p, size=None):
        if isinstance(n, Sym):
            n = n // 1
        else:
            n = int(n)
        if not (isinstance(p, (int, float)) and 0 < p < 1):
            raise Unsupported("binomial with p=%r" % (p,))
        return self._draw(size, self._number(0, n))

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        low, high = (0, low) if high is None else (low, high)
        return self._draw(size, self._number(low, high - (0 if endpoint else 1)))

    integers = randint

    def random_sample(self, size=None):
        return self._draw(size, self._number(0, 1, "real"))

    random = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw(size, self._number(low, high, "real"))

    def rand(self, *size):
        return self.random_sample(size or None)

    def _order(self, n, m=None):
        """m different numbers below n"""
        self.k += 1
        out = []
        for i in range(n if m is None else m):
            v = SRC.number(self.key, self.k, i, 0, n - 1)
            if isinstance(v, Sym):
                engine.ctx().assume(z3.And([v.e != x for x in out] + [z3.BoolVal(True)]))
                v = v.__index__()
            elif v in out:  # replay of other draws
                v = next(x for x in range(n) if x not in out)
            out.append(v)
        return np.array(out, dtype=int)

    def choice(self, a, size=None, replace=True, p=None, **k):
        pop = None if isinstance(a, (int, np.integer)) else np.asarray(a, dtype=object)
        n = int(a) if pop is None else len(pop)
        if p is not None or k:
            raise Unsupported("choice with weights")
        m = None if size is None else _int(size[0] if isinstance(size, (tuple, list)) else size)
        if n == 0 and m != 0:
            raise ValueError("a must be non-empty")
        if replace or m is None:
            r = self._draw(size, self._number(0, n - 1))
            idx = [_int(x) for x in np.atleast_1d(r)]
            r = idx if pop is None else [pop[i] for i in idx]
            return r[0] if m is None else _array(r)
        if m > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        if m < 0:
            raise ValueError("negative dimensions are not allowed")
        if pop is None or SRC.script is not None or len(set(map(str, pop))) < n or any(not isinstance(x, (int, np.integer)) for x in pop):
            o = self._order(n, m)
            return o if pop is None else _array([pop[i] for i in o])
        self.k += 1  # the members stay symbolic
        c, out = engine.ctx(), []
        for i in range(m):
            v = SRC.number(self.key, self.k, i, 0, n - 1)
            c.assume(z3.And([v.e != x for x in out] + [z3.BoolVal(True)]))
            out.append(v.e)
        vals = []
        for v in out:
            e = z3.IntVal(int(pop[-1]))
            for j in range(n - 1):
                e = z3.If(v == j, z3.IntVal(int(pop[j])), e)
            vals.append(SymInt(e) if n > 1 else int(pop[0]))
        return _array(vals) if vals else np.array([], dtype=int)

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            return self._order(int(x))
        x = np.asarray(x)
        return x[self._order(len(x))]

    def shuffle(self, x):
        o = self._order(len(x))
        y = [x[i] for i in o]
        for i, v in enumerate(y):
            x[i] = v

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("random draw " + n)


@contextlib.contextmanager
def standin(src):
    """numpy's generators (and its global one) are the stand-ins"""
    global SRC
    SRC = src
    g = Draws()
    new = {"RandomState": Draws, "default_rng": Draws, "Generator": Draws}
    for n in ("choice", "permutation", "shuffle", "binomial", "randint", "random_sample", "random", "uniform", "rand", "seed"):
        new[n] = getattr(g, n)
    old = {n: getattr(npr, n) for n in new}
    oldm = {n: getattr(npr.mtrand, n) for n in ("RandomState", "_rand")}
    try:
        for n, v in new.items():
            setattr(npr, n, v)
        npr.mtrand.RandomState, npr.mtrand._rand = Draws, g
        yield
    finally:
        for n, v in old.items():
            setattr(npr, n, v)
        for n, v in oldm.items():
            setattr(npr.mtrand, n, v)
        SRC = None
