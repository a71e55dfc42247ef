"""C05: SLIM usages are the greedy disjoint cover, in standard cover order"""
from .slimcommon import *

INFO = {"explanation": "After prefit/fit/update, every usage in the code table is compared with the greedy cover of "
                       "every transaction type, and the table order with (length, support), symbolically."}


def check(c, db, s):
    c.prove(cover_cond(db, s.codetable_), "greedy cover in standard cover order")


def harnesses(tier):
    return slim_suite(check, tier == "quick") + rows_suite(o_check_ct, tier == "quick")


def replay(p):
    d = p["data"]
    from skmine.itemsets import SLIM
    D = d["D"]
    if not any(D):
        return []
    if "kind" in d:
        return replay_rows(SLIM, d, o_check_ct)
    s, err = real(run_ops, SLIM, D, d["ops"], d["pruning"], d["refit"])
    if err:
        return [err]
    return o_check_ct(s, D)
