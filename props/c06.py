"""C06: SLIM description lengths are those of its code table, and fitting never increases the total"""
from .slimcommon import *

INFO = {"explanation": "data_size_ / model_size_ after prefit, update and fit compared symbolically (log2 as an "
                       "uninterpreted function) or exactly (counts branched) with the description length recomputed "
                       "from the code table."}


def spec_sizes(db, ct, log, div):
    """(data, model, prefit total): sums over the table's own usages"""
    sing = {i: db.sup([i]) for i in db.items}
    tot0 = z3.Sum(list(sing.values()))
    us = [(k, E(b.sxlen())) for k, b in ct.items()]
    return sing, tot0, us


def check_uf(c, db, s):
    log = lambda a, b: E(values.SymReal(values.simp(z3.ToReal(a) / z3.ToReal(b))).log2())
    sing, tot0, us = spec_sizes(db, s.codetable_, None, None)
    us = [(k, u) for k, u in us if c.branch(u > 0)]
    tot = values.simp(z3.Sum([u for _, u in us]))
    st = {i: -log(values.simp(sing[i]), values.simp(tot0)) for i in db.items}
    data = z3.Sum([-log(values.simp(u), tot) * z3.ToReal(u) for k, u in us])
    model = z3.Sum([-log(values.simp(u), tot) for k, u in us] + [st[i] for k, u in us for i in k])
    c.prove(E(s.data_size_) == data, "data size")
    c.prove(E(s.model_size_) == model, "model size")


def check_exact(c, db, s):
    import math
    sing, tot0, us = spec_sizes(db, s.codetable_, None, None)
    n = {k: c.concretize(u) for k, u in us}
    n = {k: v for k, v in n.items() if v}
    s1 = {i: c.concretize(v) for i, v in sing.items()}
    s1 = {i: v for i, v in s1.items() if v}
    t0, t = sum(s1.values()), sum(n.values())
    st = {i: -math.log2(v / t0) for i, v in s1.items()}
    data = sum(-v * math.log2(v / t) for v in n.values())
    model = sum(-math.log2(v / t) + sum(st[i] for i in k) for k, v in n.items())
    base = sum(-v * math.log2(v / t0) for v in s1.values()) + 2 * sum(st.values())
    d, m = float(s.data_size_), float(s.model_size_)
    c.prove(abs(d - data) <= 2e-4 * (1 + abs(data)), "data_size_ %r, expected %r" % (d, data))
    c.prove(abs(m - model) <= 2e-4 * (1 + abs(model)), "model_size_ %r, expected %r" % (m, model))
    if db.fitted:
        c.prove(d + m <= base + 2e-4 * (1 + base), "total %r above the standard code table's %r" % (d + m, base))


def fitted(f):
    def g(c, db, s):
        db.fitted = True
        return f(c, db, s)
    return g


def notfitted(f):
    def g(c, db, s):
        db.fitted = False
        return f(c, db, s)
    return g


def o_all(s, D):
    pr, base = o_sizes(s, D)
    if s.data_size_ + s.model_size_ > base + 2e-4 * (1 + base):
        pr.append(["total", "total size %.6f after fit exceeds %.6f of the standard code table" % (
            s.data_size_ + s.model_size_, base)])
    return pr


def harnesses(tier):
    q = tier == "quick"
    U = dict(log_mode="uf", float_as_object=True, witness_every=5)
    ex, exf = notfitted(check_exact), fitted(check_exact)
    T4 = [list(x) for x in ("ab", "abc", "bcd", "abcd", "cd", "acd", "a", "d")]
    hs = [
        Harness("prefit-3items", h_slim(3, "update", check_uf, k=0), "3 items, unbounded multiplicities, prefit", **U),
        Harness("update1-3items-uf", h_slim(3, "update", check_uf, k=1, pruning=False), "3 items, unbounded multiplicities, 1 insertion, log2 uninterpreted", **U),
        Harness("update2-2items-uf", h_slim(2, "update", check_uf, k=2, pruning=True), "2 items, unbounded multiplicities, 2 insertions, pruning", **U),
        Harness("update2-3items", h_slim(3, "update", ex, k=2, max_w=2 if not q else 1), "3 items, multiplicities 0..1 (thorough 0..2), 2 insertions, pruning, exact logarithms", witness_every=10),
        Harness("fit-3items", h_slim(3, "fit", exf, max_w=2, freq_order=["b", "c", "a"]), "3 items, multiplicities 0..2, fit, exact logarithms", witness_every=3),
        Harness("fit-4items", h_slim(4, "fit", exf, max_w=1 if q else 2, types=T4), "4 items, 8 transaction types with multiplicity 0..1 (thorough 0..2), fit", witness_every=3),
        Harness("refit-2items", h_slim(2, "fit", exf, max_w=3, refit=True), "2 items, multiplicities 0..3, second fit of the same estimator"),
    ] + rows_suite(o_all, q)
    if not q:
        hs.append(Harness("update2-3items-uf", h_slim(3, "update", check_uf, k=2, pruning=False), "3 items, unbounded multiplicities, 2 insertions, log2 uninterpreted", **U))
        hs.append(Harness("fit-3items-noprune", h_slim(3, "fit", exf, pruning=False, max_w=3), "3 items, multiplicities 0..3, no pruning", witness_every=20))
    return hs


def replay(p):
    d = p["data"]
    from skmine.itemsets import SLIM
    D = d["D"]
    if not any(D):
        return []
    if "kind" in d:
        return replay_rows(SLIM, d, o_all)
    s, err = real(run_ops, SLIM, D, d["ops"], d["pruning"], d["refit"])
    if err:
        return [err]
    pr, base = o_sizes(s, D)
    if d["ops"] == "fit" and s.data_size_ + s.model_size_ > base + 2e-4 * (1 + base):
        pr.append(["total", "total size %.6f after fit exceeds %.6f of the standard code table" % (
            s.data_size_ + s.model_size_, base)])
    return pr
