"""C03: LCMMax returns exactly the maximal frequent itemsets, under every output option"""
from .lcmcommon import *
from . import c02
from .c01 import make_container

INFO = {"explanation": "LCMMax.fit/transform executed symbolically over weighted transaction types and options."}


def h_weighted(m, order=None, freq_order=None):
    def run(c):
        db = WDB(c, ITEMS[:m], order=order)
        ms = sym_int("min_supp", 1)
        if freq_order:
            for a, b in zip(freq_order, freq_order[1:]):
                c.assume(db.sup([a]) >= db.sup([b]))
        c.payload = lambda mo: {"mode": "plain", "D": db.concrete(mo), "min_supp": model_value(mo, ms)}
        c.small = [z3.And(s, ms.e <= 3) for s in c.small] + c.small
        l = loader.load("skmine.itemsets.lcm").LCMMax(min_supp=ms)
        df = l.fit(db.types).transform(db.types)
        got = collect(c, df, db)
        c.prove(compare(c, db, got, maximal_spec, ms.e), "maximal frequent itemsets")
    return run


def harnesses(tier):
    hs = c02.make("LCMMax", maximal_spec, o_maximal, tier)
    hs += [Harness("weighted-3items-desc", h_weighted(3, "desc"), "3 items, unbounded multiplicities, every min_supp")]
    if tier == "quick":
        hs.append(Harness("weighted-4items-sym", h_weighted(4, None, [3, 1, 4, 2]),
                          "4 items, unbounded multiplicities, item frequency order fixed to 3>=1>=4>=2", witness_every=20))
    else:
        hs.append(Harness("weighted-4items", h_weighted(4), "4 items, unbounded multiplicities", witness_every=50))
    return hs


def replay(p):
    d = p["data"]
    if d["mode"] != "plain":
        return c02.replay_with(p, o_maximal)
    from skmine.itemsets.lcm import LCMMax
    D = d["D"]
    if not D:
        return []
    df, err = real(lambda: LCMMax(min_supp=d["min_supp"]).fit(D).transform(D))
    if err:
        return [err]
    return check_df(df, o_maximal(D, d["min_supp"]), D)
