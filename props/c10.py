"""C10: SLIMVectorizer encodes new data with its k most used itemsets"""
from .slimcommon import *

INFO = {"explanation": "SLIMVectorizer.fit/transform executed on branched training transactions, every k, strategy and "
                       "stop-item choice, compared with a cover by the k most used itemsets."}
NEW = [["abc", "ab", "ac", "bc", "a", "b", "c", ""], ["bz", "abz", "z", "b"], ["ac", "c"], ["b", "", "b"]]


def problems(cls, D, k, strategy, pruning, stop, new):
    v = cls(k=k, strategy=strategy, pruning=pruning, stop_items=stop).fit([list(t) for t in D])
    ct = [(tuple(sorted(i)), len(t)) for i, t in v.codetable_.items()]
    st = set(stop or ())
    pr = []
    if any(set(i) & st for i, _ in ct):
        pr.append(["stop", "stop items %s in the code table %s" % (stop, ct)])
    if {i for s, _ in ct for i in s} != {i for t in D for i in t} - st:
        pr.append(["items", "code table %s does not hold the items of %s" % (ct, D)])
    rows = [set(t) - st for t in new]
    avail = {i for r in rows for i in r}
    keep = [(s, n) for s, n in ct if set(s) <= avail]
    tot = sum(n for _, n in keep)
    df = v.transform([list(t) for t in new])
    cols = [tuple(c) for c in df.columns]
    # the k most used, most used first; ties in code table order
    want = [s for s, n in sorted(keep, key=lambda e: -e[1])[:k]]
    if cols != want:
        pr.append(["columns", "columns %s instead of %s (code table %s, new data %s)" % (cols, want, ct, new)])
        return pr
    if len(df) != len(new):
        pr.append(["rows", "%d rows for %d transactions" % (len(df), len(new))])
        return pr
    left = [set(r) for r in rows]
    n = dict(keep)
    for j, s in enumerate(want):
        for t in range(len(left)):
            hit = set(s) <= left[t]
            if hit:
                left[t] -= set(s)
            w = 0.0 if not hit else (1.0 if strategy == "one-hot" else (n[s] / tot if tot else float("nan")))
            g = float(df.iloc[t, j])
            if not (abs(g - w) < 1e-5 or (w != w) or (tot == 0 and strategy == "codes")):
                pr.append(["cell", "cell (%s, %s) is %r instead of %r" % (new[t], s, g, w)])
                return pr
    if [float(x) for x in v.transform([list(t) for t in new]).fillna(-1).values.ravel()] != [float(x) for x in df.fillna(-1).values.ravel()]:
        pr.append(["again", "second transform differs"])
    return pr


def h(n, m, stops):
    def run(c):
        items = NAMES[:m]
        db = BDB(c, items, n)
        k = c.choice("k", [1, 2, 3, 5])
        strategy = c.choice("strategy", ["codes", "one-hot"])
        pruning = c.choice("pruning", [False, True]) if stops == [None] else False
        stop = c.choice("stop", stops)
        new = c.choice("new", NEW)
        c.payload = lambda mo: {"D": db.concrete(mo), "k": k, "strategy": strategy, "pruning": pruning, "stop": stop, "new": new}
        rows = db.rows(c)
        if stop and not ({i for r in rows for i in r} - set(stop)):
            return
        pr = problems(loader.load("skmine.feature_extraction.slim_vectorizer", "sxreal").SLIMVectorizer, rows, k, strategy,
                      pruning, stop, new)
        c.prove(not pr, "%r" % (pr,))
    return run


def vec_cls():
    return loader.load("skmine.feature_extraction.slim_vectorizer").SLIMVectorizer


def extra(c):
    return dict(k=c.choice("k", [1, 2, 4]), strategy="one-hot")


def check_sym(c, db, v):
    v.is_fitted_ = True
    pos = {tuple(sorted(i)): (j, E(t.sxlen())) for j, (i, t) in enumerate(v.codetable_.items())}
    for new in NEW:
        df = v.transform([list(t) for t in new])
        cols = [tuple(x) for x in df.columns]
        avail = {i for r in new for i in r}
        keep = [s for s in pos if set(s) <= avail]
        if len(set(cols)) != len(cols) or not set(cols) <= set(keep) or len(cols) != min(v.k, len(keep)):
            c.fail("columns %r" % cols)
        order = cols + [s for s in keep if s not in cols]
        conds = []
        for a in range(len(cols)):
            for b in range(a + 1, len(order)):
                (ja, na), (jb, nb) = pos[order[a]], pos[order[b]]
                conds.append(z3.Or(na > nb, z3.And(na == nb, z3.BoolVal(ja < jb))))
        c.prove(z3.And(conds), "k most used itemsets, most used first")
        left = [set(r) for r in new]
        for j, s in enumerate(cols):
            for t in range(len(left)):
                hit = set(s) <= left[t]
                if hit:
                    left[t] -= set(s)
                if float(df.iloc[t, j]) != float(hit):
                    c.fail("cell %d,%d" % (t, j))
    c.prove(True, "cover")


def replay_sym(d):
    from skmine.feature_extraction import SLIMVectorizer

    def go():
        v = run_ops(lambda **k: SLIMVectorizer(k=d["k"], strategy="one-hot", **k), d["D"], d["ops"], d["pruning"])
        v.is_fitted_ = True
        for new in NEW:
            ct = [(tuple(sorted(i)), len(t)) for i, t in v.codetable_.items()]
            avail = {i for r in new for i in r}
            want = [s for s, n in sorted([e for e in ct if set(e[0]) <= avail], key=lambda e: -e[1])[:d["k"]]]
            df = v.transform([list(t) for t in new])
            cols = [tuple(x) for x in df.columns]
            if cols != want:
                return [["columns", "columns %s instead of %s (code table %s, new data %s)" % (cols, want, ct, new)]]
            left = [set(r) for r in new]
            for j, s in enumerate(cols):
                for t in range(len(left)):
                    hit = set(s) <= left[t]
                    if hit:
                        left[t] -= set(s)
                    if float(df.iloc[t, j]) != float(hit):
                        return [["cell", "cell (%s, %s) is %r" % (new[t], s, df.iloc[t, j])]]
        return []
    r, err = real(go)
    return [err] if err else r


def harnesses(tier):
    q = tier == "quick"
    hs = [Harness("2x3", h(2, 3, [None]), "training: 2 transactions x 3 items; k in {1,2,3,5}, both strategies, pruning on/off, 4 sets of new data", witness_every=20),
          Harness("3x2", h(3, 2, [None]), "training: 3 transactions x 2 items", witness_every=20),
          Harness("stop-2x3", h(2, 3, [["a"], ["b", "z"]]), "stop items", witness_every=20)]
    hs.append(Harness("sym-3items", h_slim(3, "update", check_sym, seqs=[["ab"], ["abc"], ["bc", "ab"]] if q else None, k=2, pad=8, cls=vec_cls, extra=extra,
                                           pruning=False, freq_order=["b", "c", "a"]),
                      "training: 3 items, unbounded multiplicities, insertions, k in {1,2,4}", **HAVOC))
    if not q:
        hs.append(Harness("3x3", h(3, 3, [None]), "training: 3 transactions x 3 items", witness_every=50))
    return hs


def replay(p):
    d = p["data"]
    if "ops" in d:
        return replay_sym(d) if any(d["D"]) else []
    from skmine.feature_extraction import SLIMVectorizer
    if d["stop"] and not ({i for r in d["D"] for i in r} - set(d["stop"])):
        return []
    r, err = real(problems, SLIMVectorizer, d["D"], d["k"], d["strategy"], d["pruning"], d["stop"], d["new"])
    return [err] if err else r
