"""C01: LCM returns exactly the closed frequent itemsets"""
from .lcmcommon import *

INFO = {"explanation": "LCM.fit/transform executed symbolically over weighted transaction types (every database over "
                       "the items, any number of transactions) and a symbolic integer min_supp; and over symbolic "
                       "membership bits for ingest and relative min_supp.",
        "assumptions": ["items outside the bound (more than 4 distinct items) are not covered",
                        "tids are used by the code only through bitmap operations (weighted harness)"]}

lcm = None


def _mod():
    return loader.load("skmine.itemsets.lcm")


def h_weighted(m, order=None, freq_order=None):
    def run(c):
        db = WDB(c, ITEMS[:m], order=order)
        ms = sym_int("min_supp", 1)
        if freq_order:
            for a, b in zip(freq_order, freq_order[1:]):
                c.assume(db.sup([a]) >= db.sup([b]))
        c.payload = lambda mo: {"D": db.concrete(mo), "min_supp": model_value(mo, ms)}
        c.small = [z3.And(s, ms.e <= 3) for s in c.small] + c.small
        l = _mod().LCM(min_supp=ms)
        df = l.fit(db.types).transform(db.types)
        got = collect(c, df, db)
        c.prove(compare(c, db, got, closed_spec, ms.e), "closed frequent itemsets")
    return run


def h_bits(n, m, relative, container="list", dup=False, items0=None):
    """ingest: real transactional container, membership bits branched; min_supp symbolic (real in (0,1] or int)"""
    def run(c):
        items = (items0 or ["b", "a", "c"])[:m]
        db = BDB(c, items, n)
        ms = sym_real("min_supp", 0, 1) if relative else sym_int("min_supp", 1, n + 1)
        if relative:
            c.assume(ms.e > 0)
            # keep the relative threshold off the integers/n by more than rounding, so that reals and floats agree
            for k in range(0, n + 1):
                c.assume(z3.Or(ms.e == z3.Q(k, n) if n in (1, 2, 4) else False,
                               ms.e * n - k >= z3.RealVal("1/1000000"), k - ms.e * n >= z3.RealVal("1/1000000")))
        c.payload = lambda mo: {"D": db.concrete(mo), "min_supp": model_value(mo, ms), "rel": relative,
                                "container": container, "dup": dup}
        rows = db.rows(c)
        D = make_container(rows, container, dup)
        l = _mod().LCM(min_supp=ms)
        df = l.fit(D).transform(D)
        exp_all = {S: o_support(rows, S) for S in subsets(sorted(items))}
        got = {}
        for it, s in zip(df["itemset"], df["support"]):
            if list(it) != sorted(it):
                c.fail("unsorted")
            if tuple(it) in got or tuple(it) not in exp_all:
                c.fail("dup/malformed")
            got[tuple(it)] = s
        conds = []
        for S, sup in exp_all.items():
            closed = sup > 0 and not any(set(S) < set(T) and s2 == sup for T, s2 in exp_all.items())
            exp = z3.And(closed, E(ms) * (n if relative else 1) <= sup)
            conds.append(z3.And(exp, E(got[S]) == sup) if S in got else z3.Not(exp))
        c.prove(z3.And(conds), "closed frequent itemsets (ingest)")
    return run


def make_container(rows, container, dup=False):
    import numpy as np
    import pandas as pd
    rows = [list(r) + (list(r)[:1] if dup else []) for r in rows]
    if container == "list":
        return rows
    if container == "sets":
        return [set(r) for r in rows]
    if container == "series":
        return pd.Series(rows)
    if container == "series_idx":
        return pd.Series(rows, index=[7 * (k + 1) for k in range(len(rows))])
    if container == "array":
        a = np.empty(len(rows), dtype=object)
        for k, r in enumerate(rows):
            a[k] = r
        return a
    raise ValueError(container)


def harnesses(tier):
    hs = [
        Harness("weighted-3items", h_weighted(3), "3 items, every multiplicity of the 7 transaction types (unbounded), every int min_supp>=1"),
        Harness("weighted-3items-desc", h_weighted(3, "desc"), "same, items first seen in descending order"),
        Harness("ingest-rel", h_bits(3, 2, True), "3 transactions x 2 items, real min_supp in (0,1]"),
        Harness("ingest-rel4", h_bits(4, 2, True, "series_idx"), "4 transactions x 2 items, pandas Series, real min_supp"),
        Harness("ingest-abs-dup", h_bits(3, 2, False, "list", True), "3 transactions x 2 items, repeated items in a transaction"),
        Harness("ingest-abs-array", h_bits(2, 3, False, "array"), "2 transactions x 3 items, numpy object array"),
        Harness("ingest-abs-sets", h_bits(3, 2, False, "sets"), "3 transactions x 2 items, list of sets"),
    ]
    hs += [
        Harness("ingest-zero", h_bits(3, 3, False, "list", False, [0, 1, -1]), "3 transactions x 3 items, items -1, 0 and 1"),
        Harness("ingest-empty-name", h_bits(3, 2, False, "series", False, ["", "a"]), "3 transactions x 2 items, one item is the empty string"),
        Harness("wide-int", h_wide("LCM", closed_spec, "int"), "13 integer items, 5 transaction types with unbounded multiplicities, every min_supp", witness_every=5),
        Harness("wide-str", h_wide("LCM", closed_spec, "str"), "13 string items, 5 transaction types with unbounded multiplicities, every min_supp", witness_every=5),
    ]
    if tier == "quick":
        hs.append(Harness("weighted-4items-sym", h_weighted(4, None, [3, 1, 4, 2]),
                          "4 items, unbounded multiplicities, every min_supp, frequency order of the items fixed to 3>=1>=4>=2",
                          witness_every=20))
    else:
        hs.append(Harness("weighted-4items", h_weighted(4), "4 items, unbounded multiplicities, every min_supp",
                          witness_every=50))
    return hs


def replay(p):
    d = p["data"]
    from skmine.itemsets import LCM
    if d.get("mode") == "wide":
        return replay_wide(d, o_closed)
    D = d["D"]
    ms = d["min_supp"]
    if d.get("rel"):
        ms = float(ms)
        thr = ms * len(D)
    else:
        thr = ms
    if not D:
        return []
    cont = make_container(D, d.get("container", "list"), d.get("dup", False))
    df, err = real(lambda: LCM(min_supp=ms).fit(cont).transform(cont))
    if err:
        return [err]
    return check_df(df, o_closed(D, thr), D)
