"""C08: covering unseen data, code lengths and decision values"""
from .slimcommon import *

INFO = {"explanation": "SLIM.cover on unseen data with a symbolically trained code table (unbounded multiplicities); "
                       "get_code_length and decision_function after branching over training and new transactions."}
# unseen data handed to cover(): every transaction type over the items, subsets lacking items, unseen items, empty rows
NEW3 = [["abc", "ab", "ac", "bc", "a", "b", "c", ""], ["bz", "abz", "z", "b"], ["ac", "", "c"], ["b"],
        ["abcz", "az", "abc"]]
FRAMES = [None, ["a", "b", "c"], ["c", "z", "a"]]


def new_data(rows, cols):
    import pandas as pd
    rows = [list(r) for r in rows]
    if cols is None:
        return rows
    return pd.DataFrame([[1 if k in r else 0 for k in cols] for r in rows], columns=cols, index=[5 + 2 * k for k in range(len(rows))])


def o_cover(keys, rows, cols):
    """greedy cover of new rows by the itemsets of the table in its order; columns: itemsets whose items all can occur"""
    avail = set(cols) if cols is not None else {i for r in rows for i in r}
    data = [set(r) & avail for r in rows]
    keep = [k for k in keys if set(k) <= avail]
    left = [set(r) for r in data]
    mat = []
    for k in keep:
        col = []
        for t in range(len(left)):
            hit = bool(k) and set(k) <= left[t]
            if hit:
                left[t] -= set(k)
            col.append(hit)
        mat.append(col)
    return keep, mat


def compare_cover(df, keys, rows, cols):
    keep, mat = o_cover(keys, rows, cols)
    got = [tuple(x) for x in df.columns]
    if got != [tuple(sorted(k)) for k in keep]:
        return "columns %s instead of %s" % (got, [tuple(sorted(k)) for k in keep])
    if len(df) != len(rows):
        return "%d rows for %d transactions" % (len(df), len(rows))
    for j, col in enumerate(mat):
        if [bool(x) for x in df.iloc[:, j]] != col:
            return "%s covers %s instead of %s" % (got[j], [bool(x) for x in df.iloc[:, j]], col)
    return None


def check_cover(c, db, s):
    s.is_fitted_ = True
    keys = list(s.codetable_)
    for rows in NEW3:
        for cols in FRAMES:
            df = s.cover(new_data(rows, cols))
            r = compare_cover(df, keys, rows, cols)
            c.prove(r is None, "cover(%s, %s): %s" % (rows, cols, r))


def o_lengths(s, rows, cols):
    """code lengths with Laplace-smoothed usages"""
    import math
    keys = list(s.codetable_)
    use = {k: len(v) + 1 for k, v in s.codetable_.items()}
    tot = sum(use.values())
    keep, mat = o_cover(keys, rows, cols)
    out = []
    for t in range(len(rows)):
        l = sum(-math.log2(use[k] / tot) for k, col in zip(keep, mat) if col[t])
        out.append(l if any(col[t] for col in mat) else math.inf)
    return out


def length_problems(s, rows, cols):
    import math
    D = new_data(rows, cols)
    got = [float(x) for x in s.get_code_length(D)]
    want = o_lengths(s, rows, cols)
    pr = []
    if len(got) != len(want) or any((math.isinf(w) != math.isinf(g)) or (not math.isinf(w) and abs(w - g) > 1e-3 * (1 + w)) for w, g in zip(want, got)):
        pr.append(["length", "get_code_length(%s) = %s, expected %s" % (rows, got, want)])
    dec = [float(x) for x in s.decision_function(D)]
    if len(dec) != len(got):
        pr.append(["decision", "decision_function has %d values for %d transactions" % (len(dec), len(got))])
    else:
        for i in range(len(got)):
            for j in range(len(got)):
                if got[i] < got[j] - 1e-3 and not dec[i] > dec[j]:
                    pr.append(["decision", "code lengths %s but decision values %s" % (got, dec)])
                    return pr
    return pr


def h_len(n, m, cols, k):
    def run(c):
        items = NAMES[:m]
        db = BDB(c, items, n)
        new = items + ["z"]
        nb = [[z3.Bool("x_%d_%s" % (t, i)) for i in new] for t in range(k)]
        c.assume(z3.Or([b for r in nb for b in r]))
        pruning = c.choice("pruning", [True, False])
        conc = lambda mo: [[i for i, b in zip(new, r) if model_value(mo, b)] for r in nb]
        c.payload = lambda mo: {"D": db.concrete(mo), "pruning": pruning, "new": conc(mo), "cols": cols, "f": "len"}
        rows = db.rows(c)
        s = loader.load("skmine.itemsets.slim", "sxreal").SLIM(pruning=pruning).fit(rows)
        nr = [[i for i, b in zip(new, r) if c.branch(b)] for r in nb]
        if cols is None and not any(nr):
            return
        r = compare_cover(s.cover(new_data(nr, cols)), list(s.codetable_), nr, cols)
        c.prove(r is None, "cover %s" % r)
        pr = length_problems(s, nr, cols)
        c.prove(not pr, "%r" % (pr,))
    return run


def harnesses(tier):
    q = tier == "quick"
    return [
        Harness("cover-3items", h_slim(3, "update", check_cover, pad=8, k=1), "training: 3 items, unbounded multiplicities, 1 insertion; 15 sets of unseen data (lists and frames, unseen/missing items, empty rows)", **HAVOC),
        Harness("cover-3items-2", h_slim(3, "update", check_cover, pad=8, seqs=[["ab", "bc"], ["ac", "abc"]] if q else None, k=2, freq_order=["b", "c", "a"]), "training: 2 insertions", **HAVOC),
        Harness("cover-noprune", h_slim(3, "update", check_cover, pad=8, seqs=[["ab", "abc"], ["bc", "ac"]], pruning=False, freq_order=["c", "a", "b"]), "training: no pruning", **HAVOC),
        Harness("length-list", h_len(2, 3, None, 1), "training: 2 transactions x 3 items; 1 new transaction over 3 known and 1 unseen item", witness_every=20),
        Harness("length-frame", h_len(2, 2, ["b", "a", "z"], 2), "training: 2 transactions x 2 items; 2 new rows in a frame with an unseen column", witness_every=20),
        Harness("length-3rows", h_len(3, 2, None, 1 if q else 2), "training: 3 transactions x 2 items", witness_every=20),
    ] + ([] if q else [Harness("length-3x3", h_len(3, 3, ["a", "b", "c", "z"], 1), "training: 3 transactions x 3 items, frame", witness_every=50)])


def replay(p):
    d = p["data"]
    from skmine.itemsets import SLIM
    D = d["D"]
    if not any(D):
        return []
    if "f" not in d:
        s, err = real(run_ops, SLIM, D, d["ops"], d["pruning"], d["refit"])
        if err:
            return [err]
        s.is_fitted_ = True
        for rows in NEW3:
            for cols in FRAMES:
                df, err = real(lambda: s.cover(new_data(rows, cols)))
                if err:
                    return [err]
                r = compare_cover(df, list(s.codetable_), rows, cols)
                if r:
                    return [["cover", "cover(%s): %s" % (rows, r)]]
        return []
    if d["cols"] is None and not any(d["new"]):
        return []

    def go():
        s = SLIM(pruning=d["pruning"]).fit(D)
        r = compare_cover(s.cover(new_data(d["new"], d["cols"])), list(s.codetable_), d["new"], d["cols"])
        return ([["cover", "cover(%s): %s" % (d["new"], r)]] if r else []) + length_problems(s, d["new"], d["cols"])
    r, err = real(go)
    return [err] if err else r
