"""C02: LCM output options are consistent projections of one exact result; calls and refits do not interfere"""
from .lcmcommon import *
from .c01 import make_container

INFO = {"explanation": "fit/transform with return_tids, symbolic max_length, item ordering and file output, in "
                       "sequences of calls on one estimator, compared with the exact closed itemsets.",
        "assumptions": ["out= is exercised inside a scratch directory"]}
CLS = "LCM"
SPEC = staticmethod(closed_spec)
ORACLE = staticmethod(o_closed)


def _cls(name):
    return getattr(loader.load("skmine.itemsets.lcm"), name)


def h_options(cls, spec, m, refit=False, max_w=None, min_ml=-1):
    def run(c):
        db = WDB(c, ITEMS[:m], max_w=max_w)
        ms = sym_int("min_supp", 1)
        ml = sym_int("max_length", -1, m + 1)
        c.assume(ml.e != 0)
        c.payload = lambda mo: {"mode": "seq", "cls": cls, "D": db.concrete(mo), "min_supp": model_value(mo, ms),
                                "max_length": model_value(mo, ml), "refit": refit}
        c.small = [z3.And(s, ms.e <= 3) for s in c.small] + c.small
        l = _cls(cls)(min_supp=ms)
        if refit:
            bitmap.set_weights({})
            D0 = [[5, 1], [5, 1], [5, 2, 3]][-1:] * 3 + [[4, 5, 1]]
            l.set_params(min_supp=1)
            l.fit(D0).transform(D0)
            l.set_params(min_supp=ms)
            bitmap.set_weights(dict(enumerate(db.w)))
        l.fit(db.types)
        a = l.transform(db.types, return_tids=True, max_length=ml)
        c.prove(compare(c, db, collect(c, a, db, True), spec, ms.e, True, ml.e), "return_tids+max_length")
        b = l.transform(db.types, lexicographic_order=False)
        c.prove(compare(c, db, collect(c, b, db, ordered=False), spec, ms.e), "default after options, unordered")
        d = l.transform(db.types, return_tids=True)
        c.prove(compare(c, db, collect(c, d, db, True), spec, ms.e, True), "return_tids")
    return run


def h_file(cls, oracle, n, m, tids, container="list"):
    def run(c):
        items = [20, 3, 11][:m]
        db = BDB(c, items, n)
        ms = sym_int("min_supp", 1, n + 1)
        ml = sym_int("max_length", -1, m)
        c.assume(ml.e != 0)
        c.payload = lambda mo: {"mode": "file", "cls": cls, "D": db.concrete(mo), "min_supp": model_value(mo, ms),
                                "max_length": model_value(mo, ml), "tids": tids, "container": container}
        rows = db.rows(c)
        D = make_container(rows, container)
        r = _cls(cls)(min_supp=ms).fit(D).transform(D, out="sx_out.dat", return_tids=tids, max_length=ml)
        if r is not None:
            c.fail("out= returned a value")
        got = {}
        for its, sup, td in read_out("sx_out.dat", tids):
            if its != sorted(its) or tuple(its) in got:
                c.fail("malformed file")
            got[tuple(its)] = (sup, td)
        conds = []
        base = {thr: oracle(rows, thr) for thr in range(1, n + 2)}
        for S in subsets(sorted(items)):
            FS = frozenset(S)
            exp = z3.Or([z3.And(ms.e == t, z3.BoolVal(FS in base[t])) for t in base])
            exp = z3.And(exp, z3.Or(ml.e == -1, len(S) <= ml.e))
            if S in got:
                ok = got[S][0] == o_support(rows, S) and (not tids or got[S][1] == o_tids(rows, S))
                conds.append(z3.And(exp, ok))
            else:
                conds.append(z3.Not(exp))
        c.prove(z3.And(conds), "file output")
    return run


def h_file_wide(cls, oracle, tids, kind):
    """more than ten root items in the file, few distinct transactions"""
    def run(c):
        types = wide_types(kind)
        rows = [c.choice("row%d" % k, types) for k in range(3)]
        ms = sym_int("min_supp", 1, 4)
        ml = c.choice("max_length", [-1, 2, 6])
        c.payload = lambda mo: {"mode": "filewide", "cls": cls, "D": rows, "min_supp": model_value(mo, ms),
                                "max_length": ml, "tids": tids, "container": "list"}
        _cls(cls)(min_supp=ms).fit(rows).transform(rows, out="sx_out.dat", return_tids=tids, max_length=ml)
        got = {}
        for its, sup, td in read_out("sx_out.dat", tids):
            if its != sorted(its) or tuple(its) in got:
                c.fail("malformed file")
            got[tuple(its)] = (sup, td)
        conds = []
        base = {thr: o_wide(rows, thr, oracle is o_maximal) for thr in range(1, 5)}
        cand = meets(rows)
        for S in got:
            if frozenset(S) not in cand:
                c.fail("unexpected itemset")
        for FS in cand:
            S = tuple(sorted(FS))
            exp = z3.And(z3.Or([z3.And(ms.e == t, z3.BoolVal(FS in base[t])) for t in base]), ml == -1 or len(S) <= ml)
            if S in got:
                ok = got[S][0] == o_support(rows, S) and (not tids or got[S][1] == o_tids(rows, S))
                conds.append(z3.And(exp, ok))
            else:
                conds.append(z3.Not(exp))
        c.prove(z3.And(conds), "file output")
    return run


def rel_ok(c, ms, n):
    """keep the relative threshold off the integers/n by more than rounding, so that reals and floats agree"""
    c.assume(z3.And(ms.e > 0, ms.e <= 1))
    for k in range(0, n + 1):
        c.assume(z3.Or(ms.e == z3.Q(k, n) if n in (1, 2, 4) else False,
                       ms.e * n - k >= z3.RealVal("1/1000000"), k - ms.e * n >= z3.RealVal("1/1000000")))


D_REL = [["a", "b"], ["a"], ["b"], ["a", "b", "c"], ["c"], ["b"], ["a", "b"], ["a", "c"]]


def h_rel(cls, oracle, n, m, refit):
    """fractional minimum support, empty transactions allowed, optionally on a miner fitted on other data"""
    def run(c):
        items = ["b", "a", "c"][:m]
        db = BDB(c, items, n, nonempty_rows=False)
        c.assume(z3.Or(db.bits[-1]))
        ms = sym_real("min_supp", 0, 1)
        rel_ok(c, ms, n)
        c.payload = lambda mo: {"mode": "rel", "cls": cls, "D": db.concrete(mo), "min_supp": model_value(mo, ms),
                                "max_length": -1, "refit": refit}
        rows = db.rows(c)
        l = _cls(cls)(min_supp=ms)
        if refit:
            rel_ok(c, ms, len(D_REL))
            l.fit(D_REL).transform(D_REL)
        df = l.fit(rows).transform(rows)
        got = {}
        for it, s in zip(df["itemset"], df["support"]):
            if list(it) != sorted(it) or tuple(it) in got:
                c.fail("malformed itemset")
            got[tuple(it)] = s
        conds = []
        base = {thr: oracle(rows, thr) for thr in range(1, n + 1)}
        for S in subsets(sorted(items)):
            FS = frozenset(S)
            exp = z3.Or([z3.And(ms.e * n > t - 1, ms.e * n <= t, z3.BoolVal(FS in base[t])) for t in base])
            conds.append(z3.And(exp, E(got[S]) == o_support(rows, S)) if S in got else z3.Not(exp))
        c.prove(z3.And(conds), "fractional minimum support")
    return run


def make(cls, spec, oracle, tier):
    hs = [
        Harness("options-3items", h_options(cls, spec, 3),
                "3 items, unbounded multiplicities, every min_supp>=1, every max_length in {-1,1..4}; 3 transform calls on one fit"),
        Harness("refit-3items", h_options(cls, spec, 3, refit=True),
                "same after a previous fit+transform on another database"),
        Harness("file-tids", h_file(cls, oracle, 3, 2, True), "out= file with tids; 3 transactions x 2 items, every min_supp, max_length"),
        Harness("file", h_file(cls, oracle, 2, 3, False, "series"), "out= file; 2 transactions x 3 items"),
        Harness("relative", h_rel(cls, oracle, 4, 2, False), "4 transactions (empty ones allowed) x 2 items, every real min_supp in (0,1]", witness_every=5),
        Harness("relative-refit", h_rel(cls, oracle, 3, 2, True), "same with 3 transactions after a fit on 8 other transactions", witness_every=5),
    ]
    hs += [
        Harness("wide", h_wide(cls, spec, "int"), "13 items, 5 transaction types with unbounded multiplicities, every min_supp, tids", witness_every=5),
        Harness("file-wide", h_file_wide(cls, oracle, True, "int"), "out= file: every 3 of 5 transactions over 13 items, every min_supp, 3 length limits", witness_every=5),
    ]
    if tier == "thorough":
        hs.append(Harness("options-4items", h_options(cls, spec, 4),
                          "4 items, unbounded multiplicities", witness_every=50))
        hs.append(Harness("relative-5", h_rel(cls, oracle, 5, 2, False), "5 transactions x 2 items", witness_every=10))
        hs.append(Harness("relative-3items", h_rel(cls, oracle, 3, 3, True), "3 transactions x 3 items, refit", witness_every=10))
    return hs


def harnesses(tier):
    return make("LCM", closed_spec, o_closed, tier)


def replay_with(p, oracle):
    import os
    d = p["data"]
    import skmine.itemsets.lcm as L
    cls = getattr(L, d["cls"])
    if d["mode"] == "wide":
        return replay_wide(d, oracle)
    D, ms, ml = d["D"], d["min_supp"], d["max_length"]
    if not D:
        return []
    if d["mode"] == "rel":
        ms = float(ms)

        def go():
            l = cls(min_supp=ms)
            if d["refit"]:
                l.fit(D_REL).transform(D_REL)
            return l.fit(D).transform(D)
        df, err = real(go)
        return [err] if err else check_df(df, oracle(D, ms * len(D)), D)
    exp = o_wide(D, ms, oracle is o_maximal) if d["mode"] == "filewide" else oracle(D, ms)
    pr = []
    if d["mode"] in ("file", "filewide"):
        cont = make_container(D, d["container"])
        r, err = real(lambda: cls(min_supp=ms).fit(cont).transform(cont, out="sx_out.dat", return_tids=d["tids"], max_length=ml))
        if err:
            return [err]
        if r is not None:
            pr.append(["out-value", "out= returned a value"])
        try:
            rows = read_out("sx_out.dat", d["tids"])
        except Exception as e:
            return [["out-format", "unreadable output file: %r" % e]]
        os.remove("sx_out.dat")
        import pandas as pd
        df = pd.DataFrame(rows, columns=["itemset", "support", "tids"])
        if not d["tids"]:
            df = df[["itemset", "support"]]
        return pr + check_df(df, exp, D, d["tids"], True, ml)

    def go():
        l = cls(min_supp=ms)
        if d["refit"]:
            D0 = [[5, 1], [5, 1], [5, 2, 3]][-1:] * 3 + [[4, 5, 1]]
            l.set_params(min_supp=1)
            l.fit(D0).transform(D0)
            l.set_params(min_supp=ms)
        l.fit(D)
        return (l.transform(D, return_tids=True, max_length=ml), l.transform(D, lexicographic_order=False),
                l.transform(D, return_tids=True), l.transform(D))
    r, err = real(go)
    if err:
        return [err]
    pr += check_df(r[0], exp, D, True, True, ml)
    pr += check_df(r[1], exp, D, False, False)
    pr += check_df(r[2], exp, D, True, True)
    pr += check_df(r[3], exp, D, False, True)
    return pr


def replay(p):
    return replay_with(p, o_closed)
