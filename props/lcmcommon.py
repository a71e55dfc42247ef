from .common import *

ITEMS = [1, 2, 3, 4, 5]


def closed_spec(db, S, ms):
    """z3: S is a closed frequent itemset"""
    sup = db.sup(S)
    return z3.And(sup >= ms, z3.And([sup > db.sup(tuple(S) + (j,)) for j in db.items if j not in S]))


def maximal_spec(db, S, ms):
    return z3.And(db.sup(S) >= ms, z3.And([db.sup(tuple(S) + (j,)) < ms for j in db.items if j not in S]))


def collect(c, df, db, with_tids=False, ordered=True):
    """result rows -> {frozenset: (support term, tids)}; fails on malformed rows"""
    got = {}
    cols = list(df.columns)
    for k in range(len(df)):
        row = df.iloc[k]
        it = list(row["itemset"])
        if len(set(it)) != len(it) or not set(it) <= set(db.items):
            c.fail("malformed itemset %r" % (it,))
        if ordered and it != sorted(it):
            c.fail("itemset not sorted %r" % (it,))
        S = frozenset(it)
        if S in got:
            c.fail("duplicate itemset %r" % (it,))
        got[S] = (row["support"], row["tids"] if with_tids else None)
    return got


def compare(c, db, got, spec, ms, with_tids=False, max_length=None):
    conds = []
    for S in subsets(db.items):
        exp = spec(db, S, ms)
        if max_length is not None:
            exp = z3.And(exp, z3.Or(max_length == -1, len(S) <= max_length))
        g = got.get(frozenset(S))
        if g is None:
            conds.append(z3.Not(exp))
        else:
            conds.append(exp)
            conds.append(E(g[0]) == db.sup(S))
            if with_tids:
                want = bitmap.BitMap([t for t, ty in enumerate(db.types) if set(S) <= set(ty)])
                if not isinstance(g[1], bitmap.BitMap):
                    c.fail("tids is not a bitmap")
                conds.append(g[1].eq_expr(want))
    return z3.And(conds)


# ---------------------------------------------------------------------------------- many items
def wide_types(kind):
    """few transaction types over 13 items (zero, negative and two-digit ones included, or strings with the empty one)"""
    it = [7, 0, 12, 3, 10, 1, 11, 2, 9, 5, 100, 4, -1] if kind == "int" else \
        ["10", "9", "", "b", "a", "B", "aa", "0", "1", " x", "x y", "é", "z"]
    if kind == "full":
        return [it[:]]
    return [it[:12], it[:4] + it[6:8] + it[12:], it[3:9], [it[1], it[11]], it[5:7] + it[10:12]]


def meets(types):
    """every intersection of some of the types: the only sets that can be closed"""
    out = set()
    for t in types:
        out |= {frozenset(t)} | {frozenset(t) & o for o in out}
    return {o for o in out if o}


def h_wide(cls, spec, kind, tids=True):
    def run(c):
        types = wide_types(kind)
        items = sorted({i for t in types for i in t})
        w = [z3.Int("n_%d" % k) for k in range(len(types))]
        db = WDB.__new__(WDB)
        db.items, db.types, db.w = items, types, w
        for v in w:
            c.assume(v >= 0)
        c.assume(z3.Sum(w) >= 1)
        db.weights = dict(enumerate(w))
        bitmap.set_weights(db.weights)
        ms = sym_int("min_supp", 1)
        c.small = [z3.And(ms.e <= 3, *[v <= b for v in w]) for b in (1, 2, 5)]
        c.payload = lambda mo: {"mode": "wide", "cls": cls, "D": db.concrete(mo), "min_supp": model_value(mo, ms)}
        l = getattr(loader.load("skmine.itemsets.lcm"), cls)(min_supp=ms)
        df = l.fit(db.types).transform(db.types, return_tids=tids)
        got = collect(c, df, db, tids)
        conds = []
        cand = meets(types)
        for S in got:
            if S not in cand:
                c.fail("%r is not closed in any database of these transactions" % (sorted(S),))
        for S in cand:
            exp = spec(db, tuple(S), ms.e)
            if S in got:
                conds += [exp, E(got[S][0]) == db.sup(S)]
                if tids:
                    conds.append(got[S][1].eq_expr(bitmap.BitMap([t for t, ty in enumerate(types) if S <= set(ty)])))
            else:
                conds.append(z3.Not(exp))
        c.prove(z3.And(conds), "itemsets over 13 items")
    return run


def replay_wide(d, oracle):
    import skmine.itemsets.lcm as L
    D = d["D"]
    if not D:
        return []
    df, err = real(lambda: getattr(L, d["cls"])(min_supp=d["min_supp"]).fit(D).transform(D, return_tids=True))
    if err:
        return [err]
    return check_df(df, o_wide(D, d["min_supp"], oracle is o_maximal), D, True)


def o_wide(D, ms, maximal=False):
    cand = {S: o_support(D, S) for S in meets([list(t) for t in {tuple(t) for t in D}])}
    f = {S: s for S, s in cand.items() if s >= ms}
    return {S: s for S, s in f.items() if not any(S < T and (maximal or f[T] == s) for T in f)}


# ---------------------------------------------------------------------------------- concrete oracle
def check_df(df, expected, D, want_tids=False, ordered=True, max_length=-1):
    """problems of a result frame against {frozenset: support}"""
    pr = []
    seen = {}
    if max_length != -1:
        expected = {S: s for S, s in expected.items() if len(S) <= max_length}
    cols = ["itemset", "support"] + (["tids"] if want_tids else [])
    if sorted(df.columns) != sorted(cols):
        pr.append(["columns", "columns %s" % list(df.columns)])
        return pr
    for _, row in df.iterrows():
        it = list(row["itemset"])
        S = frozenset(it)
        if len(it) != len(S):
            pr.append(["repeated-item", "item repeated in %r" % it])
        if ordered and it != sorted(it):
            pr.append(["unsorted", "not sorted: %r" % it])
        if S in seen:
            pr.append(["duplicate", "itemset %r reported twice" % sorted(it)])
        seen[S] = row["support"]
        if S not in expected:
            pr.append(["extra", "itemset %r reported but not expected" % sorted(it)])
        elif int(row["support"]) != expected[S]:
            pr.append(["support", "support of %r is %s, expected %s" % (sorted(it), row["support"], expected[S])])
        if want_tids and sorted(row["tids"]) != o_tids(D, S):
            pr.append(["tids", "tids of %r are %r" % (sorted(it), sorted(row["tids"]))])
    for S in expected:
        if S not in seen:
            pr.append(["missing", "itemset %r missing" % sorted(S)])
    return pr


def read_out(fn, with_tids, conv=int):
    rows = []
    lines = open(fn).read().splitlines()
    i = 0
    while i < len(lines):
        l = lines[i]
        sup, its = l.split(") ", 1)
        its = [conv(x) for x in its.split()]
        tids = None
        if with_tids:
            i += 1
            tids = [int(x) for x in lines[i].split()]
        rows.append((its, int(sup.strip("(")), tids))
        i += 1
    return rows


def num(x):
    """min_supp back from json, keeping int/float"""
    return x
