"""C12: border difference and border-to-pattern enumeration are exact"""
from .common import *
from symx.symset import SymSet

INFO = {"explanation": "border_diff, mbdllborder and borders_to_patterns executed on symbolic sets; the resulting "
                       "borders are compared with the set difference they must represent for every itemset."}


def in_border(L, R, X):
    """z3: X lies between the left border L and the right border R"""
    X = set(X)
    ex = [z3.And([z3.BoolVal(k in X) if v is True else z3.Implies(v, z3.BoolVal(k in X)) for k, v in
                  (l.m if isinstance(l, SymSet) else {k: True for k in l}).items()] or [z3.BoolVal(True)]) for l in L]
    R = R if isinstance(R, SymSet) else SymSet({k: True for k in R})
    return z3.And(z3.Or(ex or [z3.BoolVal(False)]), z3.And([R.has(x) for x in X] or [z3.BoolVal(True)]))


def sub_c(X, s):
    return z3.And([s.has(x) for x in X] or [z3.BoolVal(True)])


def h_diff(n, u, fixed=(), over=None):
    def run(c):
        U0 = list(range(1, u + 1))
        U = set(U0)
        S = [SymSet.fresh("s%d" % k, U0[:over]) for k in range(n)]
        S = S[:1] + [SymSet({x: True for x in f}) for f in fixed] + S[1:]
        c.payload = lambda mo: {"f": "diff", "U": U0, "S": [[x for x in U0 if model_value(mo, s.has(x))] for s in S]}
        L, R = loader.load("skmine.emerging.mbdldorber").border_diff(U, S)
        conds = []
        for X in subsets(U0, 0):
            want = z3.And([z3.Not(sub_c(X, s)) for s in S] or [z3.BoolVal(True)])
            conds.append(in_border(L, R, X) == want)
        c.prove(z3.And(conds), "border_diff")
        # the left border is an antichain
        for a in L:
            for b in L:
                if set(a) < set(b):
                    c.fail("left border not minimal")
    return run


def h_mbd(n1, n2, u, fixed=()):
    def run(c):
        U0 = list(range(1, u + 1))
        A = [SymSet.fresh("a%d" % k, U0[:3] if fixed else U0) for k in range(n1)]
        A += [SymSet({x: True for x in f}) for f in fixed]
        # the second collection is handed as plain sets (its elements are unpacked by the code)
        B = [SymSet.fresh("b%d" % k, U0) for k in range(n2)]
        for s in B:
            c.assume(z3.Or([s.has(x) for x in U0]))
        c.payload = lambda mo: {"f": "mbd", "A": [[x for x in U0 if model_value(mo, s.has(x))] for s in A],
                                "B": [[x for x in U0 if model_value(mo, s.has(x))] for s in B]}
        borders = loader.load("skmine.emerging.mbdldorber").mbdllborder(A, B)
        conds = []
        for X in subsets(U0, 0):
            want = z3.And(z3.Or([sub_c(X, s) for s in B] or [z3.BoolVal(False)]),
                          z3.Not(z3.Or([sub_c(X, s) for s in A] or [z3.BoolVal(False)])))
            got = z3.Or([in_border(L, R, X) for L, R in borders] or [z3.BoolVal(False)])
            conds.append(got == want)
        c.prove(z3.And(conds), "mbdllborder")
    return run


def h_pat(nl, u):
    def run(c):
        U0 = list(range(1, u + 1))
        L = [SymSet.fresh("l%d" % k, U0) for k in range(nl)]
        ms = sym_int("min_size", 1, u)
        c.payload = lambda mo: {"f": "pat", "U": U0, "L": [[x for x in U0 if model_value(mo, s.has(x))] for s in L],
                                "min_size": model_value(mo, ms)}
        ser = loader.load("skmine.emerging.mbdldorber").borders_to_patterns(L, set(U0), min_size=ms)
        pats = [tuple(x) for x in ser]
        sizes = [len(x) for x in pats]
        if sizes != sorted(sizes, reverse=True):
            c.fail("smaller pattern before a bigger one")
        got = [frozenset(x) for x in pats]
        if len(set(got)) != len(got):
            c.fail("pattern listed twice")
        conds = []
        for X in subsets(U0, 0):
            if len(X) == u:
                want = z3.BoolVal(False)
            else:
                want = z3.And(len(X) >= ms.e, z3.Or([(s < frozenset(X)).b for s in L] or [z3.BoolVal(False)]))
            conds.append(want if frozenset(X) in got else z3.Not(want))
        c.prove(z3.And(conds), "borders_to_patterns")
    return run


def harnesses(tier):
    q = tier == "quick"
    hs = [Harness("diff-%d-%d" % (n, u), h_diff(n, u), "U of %d elements, every list of %d subsets" % (u, n), witness_every=5)
          for n, u in ([(0, 3), (1, 4), (2, 4), (3, 3)] if q else [(0, 3), (1, 5), (2, 5), (3, 4), (4, 3)])]
    hs.append(Harness("diff-wide", h_diff(1, 6, [(1, 2), (3, 5)], 4), "U of 6 elements, two fixed sets (left borders of more than ten sets) and a set symbolic on 4 elements", witness_every=2))
    hs.append(Harness("diff-wide0", h_diff(0, 8, [(1, 2, 7), (3, 5, 8)]), "U of 8 elements, two fixed sets", witness_every=1))
    hs += [Harness("mbd-%d-%d-%d" % (a, b, u), h_mbd(a, b, u), "%d and %d sets over %d elements" % (a, b, u), witness_every=5)
           for a, b, u in ([(0, 1, 3), (1, 1, 3), (2, 1, 3), (1, 2, 3)] if q else [(0, 2, 3), (1, 1, 4), (2, 1, 4), (2, 2, 3), (3, 1, 3)])]
    hs.append(Harness("mbd-wide", h_mbd(1, 1, 6, [(1, 2, 3), (3, 4, 5), (6,)]), "1 symbolic and 3 fixed sets against 1 symbolic set over 6 elements", witness_every=5))
    hs += [Harness("pat-%d-%d" % (n, u), h_pat(n, u), "left border of %d sets over %d elements, every min_size" % (n, u), witness_every=5)
           for n, u in ([(1, 4), (2, 3)] if q else [(1, 5), (2, 4)])]
    return hs


def replay(p):
    d = p["data"]
    import skmine.emerging.mbdldorber as M
    pr = []

    def between(L, R, X):
        X = set(X)
        return any(set(l) <= X for l in L) and X <= set(R)
    if d["f"] == "diff":
        r, err = real(lambda: M.border_diff(set(d["U"]), [set(s) for s in d["S"]]))
        if err:
            return [err]
        L, R = r
        for X in subsets(d["U"], 0):
            want = not any(set(X) <= set(s) for s in d["S"])
            if between(L, R, X) != want:
                pr.append(["diff", "border_diff(%s, %s) = %s: wrong about %s" % (d["U"], d["S"], r, X)])
                break
        if any(set(a) < set(b) for a in L for b in L):
            pr.append(["antichain", "left border %s is not minimal" % (L,)])
    elif d["f"] == "mbd":
        A, B = [set(s) for s in d["A"]], [set(s) for s in d["B"]]
        r, err = real(lambda: M.mbdllborder(A, B))
        if err:
            return [err]
        for X in subsets(sorted(set().union(*B, *A)), 0):
            X = set(X)
            want = any(X <= b for b in B) and not any(X <= a for a in A)
            if any(between(L, R, X) for L, R in r) != want:
                pr.append(["mbd", "mbdllborder(%s, %s) = %s: wrong about %s" % (A, B, r, X)])
                break
    else:
        L = [set(s) for s in d["L"]]
        r, err = real(lambda: [tuple(x) for x in M.borders_to_patterns(L, set(d["U"]), min_size=d["min_size"])])
        if err:
            return [err]
        want = {frozenset(X) for X in subsets(d["U"], 0) if len(X) < len(d["U"]) and len(X) >= d["min_size"]
                and any(l < set(X) for l in L)}
        if set(map(frozenset, r)) != want or len(r) != len(want) or [len(x) for x in r] != sorted(map(len, r), reverse=True):
            pr.append(["pat", "borders_to_patterns(%s, %s, %s) = %s" % (L, d["U"], d["min_size"], r)])
    return pr
