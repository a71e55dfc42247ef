"""C11: maximal / minimal itemset filtering is exact"""
from .common import *
from symx.symset import SymSet

INFO = {"explanation": "filter_maximal / filter_minimal executed on symbolic sets: the list length is fixed, every "
                       "set is any subset of the universe."}


def h(fname, n, u, many=None):
    def run(c):
        U = list(range(u))
        sets = [SymSet.fresh("s%d" % k, U[:4] if many else U) for k in range(n)]
        if many:
            other = [SymSet({x: True for x in s}) for s in itertools.combinations(U, 2 if u < 7 else 3)]
            sets = sets[:1] + other[:8] + sets[1:2] + other[8:] + sets[2:]
            if c.choice("reverse", [False, True]):
                sets.reverse()
        c.payload = lambda mo: {"f": fname, "sets": [[x for x in U if model_value(mo, s.has(x))] for s in sets]}
        f = getattr(loader.load("skmine.utils"), fname)
        out = list(f(list(sets)))
        conds = []
        lt = (lambda a, b: (a > b).b) if fname == "filter_maximal" else (lambda a, b: (a < b).b)
        best = [z3.Not(z3.Or([lt(t, s) for t in sets if t is not s] or [z3.BoolVal(False)])) for s in sets]
        out = [o if isinstance(o, SymSet) else SymSet({k: True for k in o}) for o in out]
        for s, b in zip(sets, best):
            conds.append(b == z3.Or([o.eq_expr(s) for o in out] or [z3.BoolVal(False)]))
        for o in out:
            conds.append(z3.Or([z3.And(o.eq_expr(s), b) for s, b in zip(sets, best)]))
        c.prove(z3.And(conds), fname)
    return run


def harnesses(tier):
    q = tier == "quick"
    hs = []
    for f in ("filter_maximal", "filter_minimal"):
        for n, u in ([(1, 3), (2, 4), (3, 4), (4, 3)] if q else [(2, 5), (3, 5), (4, 4), (5, 3)]):
            hs.append(Harness("%s-%d-%d" % (f, n, u), h(f, n, u), "every list of %d sets over %d elements" % (n, u), witness_every=5))
        hs.append(Harness("%s-many" % f, h(f, 2, 6, True), "15 two-element sets out of 6 elements plus 2 sets symbolic on 4 of them, in 2 orders", witness_every=5))
        if not q:
            hs.append(Harness("%s-many3" % f, h(f, 3, 6, True), "15 two-element sets plus 3 symbolic ones", witness_every=20))
        hs.append(Harness("%s-0" % f, h(f, 0, 2), "empty list"))
    return hs


def replay(p):
    d = p["data"]
    import skmine.utils as U
    f = getattr(U, d["f"])
    pr = []
    for mk in (set, frozenset):
        sets = [mk(s) for s in d["sets"]]
        r, err = real(lambda: list(f(list(sets))))
        if err:
            return [err]
        if d["f"] == "filter_maximal":
            want = {frozenset(s) for s in sets if not any(t > s for t in sets)}
        else:
            want = {frozenset(s) for s in sets if not any(t < s for t in sets)}
        if {frozenset(x) for x in r} != want:
            pr.append(["wrong", "%s(%s) gave %s, expected %s" % (d["f"], sets, r, sorted(map(sorted, want)))])
    return pr
