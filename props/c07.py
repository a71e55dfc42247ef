"""C07: SLIM.transform is a faithful, read-only view of the code table"""
import os
from .slimcommon import *

INFO = {"explanation": "SLIM.transform executed with every option combination on code tables built symbolically "
                       "(unbounded multiplicities), compared row by row with the code table; file output on branched "
                       "transaction lists.",
        "assumptions": ["out= is exercised inside a scratch directory"]}
OPTS = [dict(singletons=a, return_tids=b, lexicographic_order=l, drop_null_usage=d)
        for a in (True, False) for b in (True, False) for l in (True, False) for d in (True, False)]


def check(c, db, s):
    s.is_fitted_ = True
    before = [(k, b.copy()) for k, b in s.codetable_.items()]
    sizes = (s.data_size_, s.model_size_)
    for o in OPTS:
        df = s.transform(db.types, **o)
        col = "tids" if o["return_tids"] else "usage"
        if sorted(df.columns) != sorted(["itemset", col]):
            c.fail("columns %r" % list(df.columns))
        want = [(k, b) for k, b in before if (o["singletons"] or len(k) > 1)
                and (not o["drop_null_usage"] or c.branch(E(b.sxlen()) > 0))]
        if len(df) != len(want):
            c.fail("%d rows instead of %d with %r" % (len(df), len(want), o))
        conds = []
        for (k, b), its, v in zip(want, df["itemset"], df[col]):
            if sorted(its) != sorted(k) or (o["lexicographic_order"] and list(its) != sorted(k)):
                c.fail("itemset %r instead of %r" % (its, k))
            conds.append(v.eq_expr(b) if o["return_tids"] else E(v) == E(b.sxlen()))
        c.prove(z3.And(conds), "rows with %r" % (o,))
    if [k for k, _ in before] != list(s.codetable_):
        c.fail("transform changed the code table's itemsets")
    c.prove(z3.And([s.codetable_[k].eq_expr(b) for k, b in before]), "transform changed usages")
    if sizes[0] is not s.data_size_ or sizes[1] is not s.model_size_:
        c.fail("transform changed the sizes")


def opt_name(o):
    return ",".join("%s=%s" % kv for kv in sorted(o.items()))


def read_file(fn, tids):
    out, lines = [], open(fn).read().splitlines()
    i = 0
    while i < len(lines):
        u, its = lines[i].split(") ", 1)
        t = None
        if tids:
            i += 1
            t = [int(x) for x in lines[i].split()]
        out.append((its.split(" "), int(u.strip("(")), t))
        i += 1
    return out


def h_file(n, m, items):
    def run(c):
        its = items[:m]
        db = BDB(c, its, n)
        o = dict(singletons=c.choice("singletons", [True, False]), return_tids=c.choice("tids", [True, False]),
                 drop_null_usage=c.choice("drop", [True, False]))
        pruning = c.choice("pruning", [True, False])
        c.payload = lambda mo: {"D": db.concrete(mo), "ops": "fit", "pruning": pruning, "refit": False, "file": o}
        rows = db.rows(c)
        s = loader.load("skmine.itemsets.slim", "sxreal").SLIM(pruning=pruning).fit(rows)
        pr = file_problems(s, rows, o)
        c.prove(not pr, "file %r" % (pr,))
    return run


def file_problems(s, rows, o):
    r = s.transform(rows, out="sx_slim.dat", **o)
    got = read_file("sx_slim.dat", o["return_tids"])
    os.remove("sx_slim.dat")
    want = [([str(i) for i in sorted(k)], len(b), sorted(b) if o["return_tids"] else None)
            for k, b in s.codetable_.items() if (o["singletons"] or len(k) > 1) and (len(b) or not o["drop_null_usage"])]
    pr = []
    if r is not None:
        pr.append(["out-value", "out= returned a value"])
    if got != want:
        pr.append(["file", "file lists %s, the code table is %s" % (got, want)])
    return pr


def harnesses(tier):
    q = tier == "quick"
    hs = [
        Harness("views-3items", h_slim(3, "update", check, k=1 if q else 2, freq_order=None if q else ["b", "c", "a"]), "3 items, unbounded multiplicities, 1 (thorough 2) insertions, all 16 option combinations", **HAVOC),
        Harness("views-2items", h_slim(2, "update", check, k=2), "2 items, unbounded multiplicities, 2 insertions, all options", **HAVOC),
        Harness("views-4items", h_slim(4, "update", check, seqs=[["ab", "abcd"], ["abc", "bcd"]], freq_order=["b", "c", "d", "a"]), "4 items, two insertion sequences", **HAVOC),
        Harness("views-noprune", h_slim(3, "update", check, seqs=[["ab", "abc"], ["bc", "ac"]], pruning=False), "3 items, no pruning (null usages stay in the table)", **HAVOC),
        Harness("file-int", h_file(3, 2, [20, 3]), "3 transactions x 2 integer items, fit, out= file, every option", witness_every=10),
        Harness("file-str", h_file(2, 3, ["y", "x", "z"]), "2 transactions x 3 items", witness_every=10),
    ]
    return hs


def replay(p):
    d = p["data"]
    from skmine.itemsets import SLIM
    D = d["D"]
    if not any(D):
        return []
    s, err = real(run_ops, SLIM, D, d["ops"], d["pruning"], d["refit"])
    if err:
        return [err]
    s.is_fitted_ = True
    if "file" in d:
        r, err = real(file_problems, s, D, d["file"])
        return [err] if err else r
    before = [(k, sorted(b)) for k, b in s.codetable_.items()]
    sizes = s.data_size_, s.model_size_
    pr = []
    for o in OPTS:
        df, err = real(lambda: s.transform(D, **o))
        if err:
            return [err]
        col = "tids" if o["return_tids"] else "usage"
        if sorted(df.columns) != sorted(["itemset", col]):
            pr.append(["columns", "columns %s" % list(df.columns)])
            break
        want = [(sorted(k), b if o["return_tids"] else len(b)) for k, b in before
                if (o["singletons"] or len(k) > 1) and (b or not o["drop_null_usage"])]
        got = [((list(i) if o["lexicographic_order"] else sorted(i)), sorted(v) if o["return_tids"] else int(v))
               for i, v in zip(df["itemset"], df[col])]
        if got != want:
            pr.append(["view", "transform(%s) gives %s, the code table is %s" % (opt_name(o), got, want)])
            break
    if [(k, sorted(b)) for k, b in s.codetable_.items()] != before or (s.data_size_, s.model_size_) != sizes:
        pr.append(["mutated", "transform changed the fitted model"])
    return pr
