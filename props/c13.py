"""C13: MBD-LLBorder discovers exactly what separates the two collections"""
from .common import *

INFO = {"explanation": "MBDLLBorder.fit/discover executed on symbolic databases (membership bits branched at ingest) "
                       "with a symbolic real min_supp."}


def in_b(L, R, X):
    X = set(X)
    return any(set(l) <= X for l in L) and X <= set(R)


def h(n1, n2, m, gr, shuffle=False):
    def run(c):
        import pandas as pd
        import numpy as np
        items = ["a", "b", "c", "d"][:m]
        d1, d2 = BDB(c, items, n1), None
        bits2 = [[z3.Bool("e_%d_%s" % (t, i)) for i in items] for t in range(n2)]
        for r in bits2:
            c.assume(z3.Or(r))
        ms = sym_real("min_supp", 0)
        c.assume(z3.And(ms.e > 0, ms.e <= 1))
        for n, f in ((n1, 1), (n2, gr)):
            for k in range(0, n + 1):
                x = ms.e * values._lift(float(f)) * n - k
                c.assume(z3.Or(x >= z3.RealVal("1/1000000"), x <= z3.RealVal("-1/1000000")))

        size = [1]

        def conc(mo):
            e = [[i for i, b in zip(items, r) if model_value(mo, b)] for r in bits2]
            return {"D1": d1.concrete(mo), "D2": e, "min_supp": model_value(mo, ms), "gr": gr, "shuffle": shuffle, "size": size[0]}
        c.payload = conc
        r1 = d1.rows(c)
        r2 = [[i for i, b in zip(items, r) if c.branch(b)] for r in bits2]
        D, y = layout(r1, r2, shuffle)
        M = loader.load("skmine.emerging.mbdldorber", "sxreal")
        grz = values._lift(float(gr))
        est = M.MBDLLBorder(min_growth_rate=gr, min_supp=ms)
        try:
            mod = est.fit(D, y)
        except ValueError:  # a threshold above the whole second class may be refused
            c.prove(ms.e * grz > 1, "ValueError although growth rate x minimum support <= 1")
            return
        conds = []
        for X in subsets(items):
            want = z3.And(ms.e * grz * n2 <= o_support(r2, X), ms.e * n1 > o_support(r1, X))
            got = any(in_b(L, R, X) for L, R in mod.borders_)
            conds.append(want if got else z3.Not(want))
        c.prove(z3.And(conds), "borders")
        size[0] = c.choice("min_size", [None, 1, 2])
        pats = [tuple(x) for x in (mod.discover() if size[0] is None else mod.discover(min_size=size[0]))]
        conds = []
        for X in pats:
            conds.append(z3.And(ms.e * grz * n2 <= o_support(r2, X), ms.e * n1 > o_support(r1, X)))
        c.prove(z3.And(conds), "discovered patterns are emerging")
        want = sorted(tuple(sorted(X)) for L, R in mod.borders_ for X in subsets(sorted(R))
                      if (size[0] or 3) <= len(X) < len(R) and any(set(l) < set(X) for l in L))
        c.prove(sorted(tuple(sorted(x)) for x in pats) == want, "discover() = interior of the borders")
    return run


def layout(r1, r2, shuffle):
    import pandas as pd
    import numpy as np
    if not shuffle:
        return pd.Series(r1 + r2), pd.Series(["x"] * len(r1) + ["y"] * len(r2))
    rows, y = [], []
    a, b = list(r1), list(r2)
    while a or b:
        if b:
            rows.append(b.pop(0)); y.append(1)
        if a:
            rows.append(a.pop(0)); y.append(0)
    ix = [5 * k + 2 for k in range(len(rows))]
    return pd.Series(rows, index=ix), np.array(y)


def harnesses(tier):
    q = tier == "quick"
    hs = [Harness("d1-2x2-d2-2x2", h(2, 2, 2, 1.5), "2+2 transactions over 2 items, every real min_supp, growth rate 1.5", witness_every=5),
          Harness("d1-1x3-d2-2x3", h(1, 2, 3, 1.5, True), "1+2 transactions over 3 items, interleaved", witness_every=5),
          Harness("d1-2x3-d2-1x3", h(2, 1, 3, 2), "2+1 transactions over 3 items, growth rate 2", witness_every=5),
          Harness("d1-1x4-d2-1x4", h(1, 1, 4, 1.5), "1+1 transactions over 4 items, every min_size up to the default", witness_every=5)]
    if not q:
        hs += [Harness("d1-2x3-d2-2x3", h(2, 2, 3, 1.25, True), "2+2 transactions over 3 items", witness_every=20),
               Harness("d1-3x2-d2-3x2", h(3, 3, 2, 2), "3+3 transactions over 2 items", witness_every=20)]
    return hs


def replay(p):
    d = p["data"]
    import skmine.emerging.mbdldorber as M
    D, y = layout(d["D1"], d["D2"], d["shuffle"])
    ms = float(d["min_supp"])
    mod, err = real(lambda: M.MBDLLBorder(min_growth_rate=d["gr"], min_supp=ms).fit(D, y))
    if err:
        return [] if err[0].startswith("exception:ValueError") and ms * d["gr"] > 1 else [err]
    pats, err = real(lambda: [tuple(x) for x in (mod.discover() if d["size"] is None else mod.discover(min_size=d["size"]))])
    if err:
        return [err]
    pr = []
    items = sorted({i for t in d["D1"] + d["D2"] for i in t})
    em = lambda X: (o_support(d["D2"], X) >= ms * d["gr"] * len(d["D2"]) and o_support(d["D1"], X) < ms * len(d["D1"]))
    for X in subsets(items):
        if em(X) != any(in_b(L, R, X) for L, R in mod.borders_):
            pr.append(["border", "borders %s are wrong about %s" % (mod.borders_, X)])
            break
    for X in pats:
        if not em(X):
            pr.append(["pattern", "discovered %s does not emerge" % (X,)])
            break
    want = sorted(tuple(sorted(X)) for L, R in mod.borders_ for X in subsets(sorted(R))
                  if (d["size"] or 3) <= len(X) < len(R) and any(set(l) < set(X) for l in L))
    if sorted(tuple(sorted(x)) for x in pats) != want:
        pr.append(["discover", "discover() = %s, expected %s" % (sorted(pats), want)])
    return pr
