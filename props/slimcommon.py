from .common import *

NAMES = ["a", "b", "c", "d"]


def slim_mod():
    return loader.load("skmine.itemsets.slim")


def greedy_regions(db, keys):
    """standard-cover spec: regions (transaction types) whose greedy cover uses each key, and what is left over"""
    left = [set(t) for t in db.types]
    use = []
    for k in keys:
        u = []
        for t in range(len(left)):
            if k and set(k) <= left[t]:
                left[t] -= set(k)
                u.append(t)
        use.append(u)
    return use, left


def lossless_cond(db, ct):
    conds = []
    for t, ty in enumerate(db.types):
        for i in db.items:
            n, tot = 0, []
            for iset, b in ct.items():
                if i in iset:
                    v = b.m.get(t, False)
                    if v is True:
                        n += 1
                    elif v is not False:
                        tot.append(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
            want = 1 if i in ty else 0
            if tot:
                conds.append(z3.Implies(db.w[t] > 0, z3.Sum(tot) + n == want))
            elif n != want:
                conds.append(db.w[t] == 0)
    # nothing outside the database
    for iset, b in ct.items():
        for k in b.m:
            if not (0 <= k < len(db.types)):
                conds.append(z3.Not(b.z3m(k)))
    return z3.And(conds)


def cover_cond(db, ct):
    """usages are the greedy cover, in standard cover order"""
    keys = list(ct.keys())
    use, left = greedy_regions(db, keys)
    conds = [ct[k].eq_expr(bitmap.BitMap(u)) for k, u in zip(keys, use)]
    for x, y in zip(keys, keys[1:]):
        if len(x) < len(y):
            conds.append(z3.BoolVal(False))
        elif len(x) == len(y):
            conds.append(db.sup(x) >= db.sup(y))
    return z3.And(conds)


# ------------------------------------------------------------------ concrete oracles
def o_greedy(D, keys):
    left = [set(t) for t in D]
    use = []
    for k in keys:
        u = []
        for t in range(len(left)):
            if k and set(k) <= left[t]:
                left[t] -= set(k)
                u.append(t)
        use.append(u)
    return use, left


def o_check_ct(s, D, sizes=False, items=()):
    """problems of a fitted/updated SLIM against its database"""
    import math
    pr = []
    keys = list(s.codetable_.keys())
    usage = [sorted(s.codetable_[k]) for k in keys]
    use, left = o_greedy(D, keys)
    for k, u, g in zip(keys, usage, use):
        if u != g:
            pr.append(["usage", "usage of %s is %s, the standard cover uses it in %s" % (sorted(k), u, g)])
    for x, y in zip(keys, keys[1:]):
        if (-len(x), -o_support(D, x)) > (-len(y), -o_support(D, y)):
            pr.append(["order", "codetable not in standard cover order: %s before %s" % (sorted(x), sorted(y))])
    return pr


def o_lossless(s, D):
    pr = []
    n = len(D)
    while n and not D[n - 1]:
        n -= 1
    got = [set() for _ in range(n)]
    for k, tids in s.codetable_.items():
        for t in tids:
            if t >= n:
                pr.append(["tid", "tid %d outside the database" % t])
                continue
            if got[t] & set(k):
                pr.append(["overlap", "transaction %d: %s covered twice" % (t, sorted(got[t] & set(k)))])
            got[t] |= set(k)
    if got != [set(t) for t in D[:n]]:
        pr.append(["lossy", "codetable decodes to %s instead of %s" % ([sorted(x) for x in got], D)])
    r, err = real(s.reconstruct)
    if err:
        pr.append(err)
    elif [list(x) for x in r] != [sorted(set(t)) for t in D[:n]]:
        pr.append(["reconstruct", "reconstruct() gave %s instead of %s" % ([list(x) for x in r], D)])
    return pr


def o_sizes(s, D, tol=2e-4):
    """description length recomputed from scratch"""
    import math
    sing = {}
    for t in D:
        for i in set(t):
            sing[i] = sing.get(i, 0) + 1
    tot0 = sum(sing.values())
    st = {i: -math.log2(n / tot0) for i, n in sing.items()}
    us = {k: len(list(v)) for k, v in s.codetable_.items()}
    us = {k: n for k, n in us.items() if n}
    tot = sum(us.values())
    data = sum(-n * math.log2(n / tot) for n in us.values())
    model = sum(-math.log2(n / tot) + sum(st[i] for i in k) for k, n in us.items())
    pr = []
    if abs(data - s.data_size_) > tol * (1 + abs(data)):
        pr.append(["data_size", "data_size_ is %.6f, the codetable encodes the data in %.6f bits" % (s.data_size_, data)])
    if abs(model - s.model_size_) > tol * (1 + abs(model)):
        pr.append(["model_size", "model_size_ is %.6f, the codetable costs %.6f bits" % (s.model_size_, model)])
    base = sum(-n * math.log2(n / tot0) for n in sing.values()) + 2 * sum(st.values())
    return pr, base


# ------------------------------------------------------------------ driving
def ops_payload(db, mo, ops, **k):
    d = {"D": db.concrete(mo), "ops": ops}
    d.update(k)
    return d


D_OTHER = [["c", "b"], ["c", "b"], ["c"], ["c", "d", "a"], ["d", "a"], ["d", "a", "b"]]


def run_ops(cls, D, ops, pruning, refit=False, between=None):
    """ops: 'fit' or list of candidate itemsets to insert"""
    s = cls(pruning=pruning)
    if refit:
        if between:
            between(True)
        s.fit(D_OTHER)
        s.get_support("b", "c")
        if between:
            between(False)
    if ops == "fit":
        s.fit(D)
    else:
        s.prefit(D)
        for cand in ops:
            s.update(candidate=frozenset(cand))
    return s


def h_slim(m, mode, check, k=1, pruning=True, refit=False, log="uf", max_w=None, freq_order=None, order=None,
           types=None, present=True, seqs=None, pad=0, cls=None, extra=None):
    """mode 'fit' | 'update' (k symbolic candidate insertions)"""
    def run(c):
        db = WDB(c, NAMES[:m], order=order, max_w=max_w, types=types, pad=pad)
        if present:
            for i in db.items:
                c.assume(db.sup([i]) >= 1)
        if freq_order:
            for a, b in zip(freq_order, freq_order[1:]):
                c.assume(db.sup([a]) >= db.sup([b]))
        ops = []
        c.payload = lambda mo: {"D": db.concrete(mo), "ops": "fit" if mode == "fit" else ops, "pruning": pruning,
                                "refit": refit}

        def between(before):
            bitmap.set_weights({} if before else db.weights)
        maker = cls() if cls else slim_mod().SLIM
        if extra:
            ex = extra(c)
            base, pay = maker, c.payload
            maker = lambda **k: base(**dict(k, **ex))
            c.payload = lambda mo: dict(pay(mo), **ex)
        if mode == "fit":
            s = run_ops(maker, db.types, "fit", pruning, refit, between)
        else:
            s = run_ops(maker, db.types, [], pruning, refit, between)
            cands = [x for x in subsets(db.items)]
            seq = c.choice("seq", seqs) if seqs else None
            for j in range(len(seq) if seqs else k):
                cand = seq[j] if seqs else c.choice("cand%d" % j, cands)
                ops.append(list(cand))
                s.update(candidate=frozenset(cand))
        check(c, db, s)
    return run


def to_container(rows, items, kind):
    import numpy as np
    import pandas as pd
    if kind == "list":
        return rows
    mat = np.array([[1 if i in r else 0 for i in items] for r in rows])
    return mat if kind == "array" else pd.DataFrame(mat, columns=items, index=[10 + 3 * k for k in range(len(rows))])


def h_rows(oracle, n, items, kind="list", dup=False):
    """fit on an explicit container: membership bits branched, empty and repeated rows allowed; oracle -> problems"""
    def run(c):
        db = BDB(c, items, n, nonempty_rows=False)
        c.assume(z3.Or([b for r in db.bits for b in r]))
        pruning = c.choice("pruning", [True, False])
        c.payload = lambda mo: {"D": db.concrete(mo), "ops": "fit", "pruning": pruning, "refit": False, "kind": kind,
                                "items": items, "dup": dup}
        rows = db.rows(c)
        s = slim_mod().SLIM(pruning=pruning).fit(to_container(dups(rows) if dup else rows, items, kind))
        pr = oracle(s, rows)
        c.prove(not pr, "%r" % pr)
    return run


def dups(rows):
    return [r + r[:1] for r in rows]


WIDE = [[0, 7, 12, 3, 10, 1, 11, 2], [7, 0, 3, 12, 5], [12, 3, 10], [4, 11, 2], []]


def h_rows_wide(oracle, n):
    def run(c):
        pruning = c.choice("pruning", [True, False])
        rows = [c.choice("row%d" % k, WIDE) for k in range(n)]
        c.payload = lambda mo: {"D": rows, "ops": "fit", "pruning": pruning, "refit": False, "kind": "list",
                                "items": []}
        if not any(rows):
            return
        s = slim_mod().SLIM(pruning=pruning).fit(rows)
        pr = oracle(s, rows)
        c.prove(not pr, "%r" % pr)
    return run


def rows_suite(oracle, q):
    return [
        Harness("rows-list", h_rows(oracle, 3, ["b", "", "c"]), "list of 3 transactions over 3 items (empty and repeated rows, empty item name), fit", witness_every=5),
        Harness("rows-dup", h_rows(oracle, 3, [0, 1, 10], dup=True), "list of 3 transactions over items 0, 1, 10, an item repeated inside a transaction, fit", witness_every=5),
        Harness("rows-frame", h_rows(oracle, 3, ["b", "a", "c"], "frame"), "binary DataFrame with its own index, 3 rows x 3 columns, fit", witness_every=5),
        Harness("rows-4", h_rows(oracle, 4, [0, 1] if q else [0, 1, 2], "array"), "binary array, 4 rows x 2 (thorough 3) columns, fit", witness_every=5),
        Harness("rows-wide", h_rows_wide(oracle, 4 if q else 5), "every 4 (thorough 5) of 5 transactions over 10 items, fit", witness_every=10),
    ]


def replay_rows(SLIM, d, oracle):
    D = d["D"]
    if not any(D):
        return []
    s, err = real(lambda: SLIM(pruning=d["pruning"]).fit(to_container(dups(D) if d.get("dup") else D, d["items"], d["kind"])))
    return [err] if err else oracle(s, D)


HAVOC = dict(log_mode="havoc", float_as_object=True, witness_every=20)


SEQS = [["ac", "cd", "ab"], ["bc", "bd", "abc"], ["ab", "bc", "abcd"], ["abc", "bcd", "ad"]]
MORE_SEQS = [["ab", "cd", "bc"], ["abc", "ab", "cd", "bd"], ["ad", "bd", "cd", "abd"], ["bcd", "acd", "cd"],
             ["ab", "ac", "ad", "bcd"], ["cd", "bc", "ab", "abc"], ["abcd", "ab", "bc"], ["ab", "abc", "abcd", "cd"]]


def slim_suite(check, q):
    """weighted harnesses shared by the SLIM properties"""
    hs = [
        Harness("update2-3items", h_slim(3, "update", check, k=2), "3 items, unbounded multiplicities, 2 insertions of any itemsets (repeats included), pruning on, any outcome of every gain comparison", **HAVOC),
        Harness("update2-3items-noprune", h_slim(3, "update", check, k=2, pruning=False, freq_order=["b", "c", "a"]), "same, pruning off, item frequency order b>=c>=a", **HAVOC),
        Harness("update1-4items", h_slim(4, "update", check, k=1, freq_order=["b", "c", "d", "a"]), "4 items, unbounded multiplicities, 1 insertion", **HAVOC),
        Harness("refit-3items", h_slim(3, "update", check, k=1, refit=True), "1 insertion on an estimator fitted on another database before", **HAVOC),
        Harness("fit-3items-bounded", h_slim(3, "fit", check, max_w=2, freq_order=["b", "c", "a"]), "3 items, multiplicity of each transaction type 0..2, exact logarithms, fit to convergence", witness_every=3),
        Harness("fit-4items-bounded", h_slim(4, "fit", check, max_w=1 if q else 2, types=[list(x) for x in ("ab", "abc", "bcd", "abcd", "cd", "acd", "a", "d")]), "4 items, 8 transaction types with multiplicity 0..1 (thorough: 0..2), exact logarithms, fit to convergence", witness_every=5),
    ]
    hs += [Harness("insert-%s" % "-".join(s), h_slim(4, "update", check, seqs=[s], freq_order=["b", "c", "d", "a"]),
                   "4 items, unbounded multiplicities, insertion sequence %s, pruning on, item frequency order b>=c>=d>=a" % s, **HAVOC)
           for s in SEQS + ([] if q else MORE_SEQS)]
    if not q:
        hs += [
            Harness("update3-3items", h_slim(3, "update", check, k=3, freq_order=["b", "c", "a"]), "3 items, unbounded multiplicities, 3 insertions, pruning on, item frequency order b>=c>=a", **HAVOC),
            Harness("fit-3items", h_slim(3, "fit", check), "3 items, unbounded multiplicities, fit to convergence, any outcome of every gain comparison", **HAVOC),
            Harness("fit-3items-noprune", h_slim(3, "fit", check, pruning=False, max_w=3), "3 items, multiplicities 0..3, exact logarithms, no pruning", witness_every=20),
            Harness("update2-4items", h_slim(4, "update", check, k=2, freq_order=["b", "c", "d", "a"]), "4 items, 2 insertions", **HAVOC),
        ]
    return hs
