"""C04: SLIM is lossless"""
from .slimcommon import *

INFO = {"explanation": "SLIM.prefit/fit/evaluate/update/_prune/cover/reconstruct executed symbolically over weighted "
                       "transaction types; logarithms are uninterpreted (every accept/reject decision is explored) or "
                       "exact after branching over the counts."}


def check(c, db, s):
    c.prove(lossless_cond(db, s.codetable_), "lossless")


def check_reconstruct(c, db, s):
    check(c, db, s)
    r = s.reconstruct()
    present = [t for t, w in enumerate(db.w) if c.branch(w > 0)]
    if len(r) != (max(present) + 1):
        c.fail("reconstruct length %d" % len(r))
    for t, row in enumerate(r):
        want = sorted(db.types[t]) if t in present else []
        if list(row) != want:
            c.fail("reconstructed %r instead of %r" % (row, want))


def harnesses(tier):
    q = tier == "quick"
    hs = slim_suite(check, q) + [
        Harness("fit-2items", h_slim(2, "fit", check_reconstruct), "2 items, unbounded multiplicities, fit to convergence + reconstruct()", **HAVOC),
        Harness("update2-2items", h_slim(2, "update", check_reconstruct, k=2), "2 items, unbounded, 2 insertions (repeats included) + reconstruct()", **HAVOC),
        Harness("refit-2items", h_slim(2, "update", check_reconstruct, k=1, refit=True), "estimator fitted on another database before", **HAVOC),
    ]
    return hs + rows_suite(o_lossless, q)


def replay(p):
    d = p["data"]
    from skmine.itemsets import SLIM
    D = d["D"]
    if not any(D):
        return []
    if "kind" in d:
        return replay_rows(SLIM, d, o_lossless)
    s, err = real(run_ops, SLIM, D, d["ops"], d["pruning"], d["refit"])
    if err:
        return [err]
    return o_lossless(s, D)
