"""C19: cycles extracted from the occurrences of one event: well formed, priced at their code length, optimal segmentation"""
import math

from .c20 import L, near
from .persym import *

INFO = {"explanation": "Cycle extraction executed on occurrences at symbolic times over an uninterpreted logarithm: every cycle returned is a run of "
                       "the event's own occurrences, its cost is the code length of the pattern it stands for, and the dynamic programme's "
                       "segmentation costs no more than any other."}
TOL = 1e-6


def o_len(ts, nb, tot, dT, L_, FD):
    """code length of the cycle over times ts, from its definition"""
    n = len(ts)
    ds = [b - a for a, b in zip(ts, ts[1:])]
    p = lower_median(ds)
    const = -math.log2(nb / (3. * tot)) + 2 * math.log2(3) + math.log2(nb)
    sig = ts[-1] - ts[0] - p * (n - 1)
    return const, p, L_(FD(dT - sig, n - 1)), L_(dT - (ts[-1] - ts[0]) + 1), [d - p for d in ds]


def lower_median(ds):
    s = sorted(ds)
    k = len(s)
    if k % 2:
        return s[k // 2]
    return (s[k // 2 - 1] + s[k // 2]) // 2


def sym_log(c, n, others, hi=None, end=None):
    cls = loader.load("skmine.periodic.class_patterns")
    DS = loader.load("skmine.periodic.data_sequence")
    nb1 = c.choice("others", others)
    ts = [sym_int("t%d" % i, None if hi is None else 0, hi) for i in range(n)]
    for a, b in zip(ts, ts[1:]):
        c.assume(a.e < b.e)
    s, e = sym_int("start", None if hi is None else 0, hi), sym_int("end", None if hi is None else 0, end or hi)
    c.assume(z3.And(s.e <= ts[0].e, e.e >= ts[-1].e, e.e > s.e))
    if hi is not None:
        c.assume(s.e == 0)
    if end is not None:
        c.assume(e.e == end)
    c.small = [z3.And(s.e == 0, e.e <= k) for k in (12, 30, 100)]
    if values.LOG_MODE == "uf":
        one = z3.Real("one")
        c.assume(L(SymReal(one)) == 0)
        c.assume(one == 1)
    dd = DS.DataSequence({0: list(ts), 1: [s] + [e] * (nb1 - 1)}).getDetails()
    return ts, s, e, nb1, dd, cls


def R_(x):
    return x if isinstance(x, float) else values._toreal(E(x)) if isinstance(x, Sym) else z3.RealVal(repr(x))


def z(x):
    return x if z3.is_expr(x) else z3.RealVal(repr(x))


@contextlib.contextmanager
def block_size(EC, blocks):
    """the block-wise variant (beyond 200 occurrences by default) reached with few occurrences"""
    if blocks is None or not (hasattr(EC, "DYN_BLOCK_SIZE") and hasattr(EC, "STEP_SIZE")):
        yield
        return
    old = EC.DYN_BLOCK_SIZE, EC.STEP_SIZE
    EC.DYN_BLOCK_SIZE, EC.STEP_SIZE = blocks
    try:
        yield
    finally:
        EC.DYN_BLOCK_SIZE, EC.STEP_SIZE = old


def h_dyn(n, others, hi=None, blocks=None, end=None, gaps=None):
    def run(c):
        EC = loader.load("skmine.periodic.extract_cycles")
        ts, s, e, nb1, dd, cls = sym_log(c, n, others, hi, end)
        c.payload = lambda mo: {"kind": "dyn", "ts": mv(mo, ts), "start": model_value(mo, s), "end": model_value(mo, e), "nb1": nb1, "blocks": blocks}
        if gaps:  # short steps, but for one or two long ones
            far = c.choice("far", [f for k in (1, 2) for f in itertools.combinations(range(1, n), k)])
            for k in range(1, n):
                step = ts[k].e - ts[k - 1].e
                c.assume(z3.And(step >= gaps[0], step <= gaps[1]) if k in far else z3.And(step >= 1, step <= gaps[2]))
        one = cls.computeLengthResidual(dd, {"alpha": 0, "occs": [0]})
        with block_size(EC, blocks):
            cy = EC.compute_cycles_dyn(loader.NP.array(list(ts)), 0, dd, residuals=True)
        segs, left = segments(c, cy, ts)
        cost = {}

        def seg_cost(i, j):
            if (i, j) not in cost:
                cost[i, j] = z(R_(cls.computeLengthCycle(dd, {"p": None, "alpha": 0, "occs": ts[i:j + 1]})))
            return cost[i, j]
        for k, (i, j) in enumerate(segs):
            c.prove(near_z(z(R_(cy[k]["cost"])), seg_cost(i, j)), "cost of an extracted cycle")
        if blocks:
            return
        total = sum([seg_cost(i, j) for i, j in segs], z(R_(one)) * len(left))
        for alt in segmentations(n):
            if alt == segs:
                continue
            rest = n - sum(j - i + 1 for i, j in alt)
            c.prove(total <= sum([seg_cost(i, j) for i, j in alt], z(R_(one)) * rest) + z3.RealVal("1/1000000"),
                    "another segmentation of the occurrences is cheaper")
    return run


def near_z(a, b):
    d = a - b
    return z3.And(d <= z3.RealVal(str(TOL)), d >= z3.RealVal(str(-TOL)))


def segmentations(n):
    """sets of disjoint runs of at least 3 consecutive positions"""
    def rec(i):
        if i > n - 3:
            yield []
            return
        yield from rec(i + 1)
        for j in range(i + 2, n):
            for r in rec(j + 1):
                yield [(i, j)] + r
    return list(rec(0))


def segments(c, cy, ts):
    """positions of the cycles and of the residual occurrences, proved to partition ts into runs"""
    segs, left, seen = [], [], []
    for x in cy:
        pos = []
        for o in x["occs"]:
            k = next((k for k, t in enumerate(ts) if (isinstance(o, Sym) and E(t).eq(E(o)))), None)
            if k is None:
                k = next((k for k, t in enumerate(ts) if c.branch(E(t) == E(o))), None)
            if k is None:
                c.fail("an extracted cycle has an occurrence that is not in the log")
            pos.append(k)
        if "p" in x:
            c.prove(z3.BoolVal(len(pos) >= 3 and pos == list(range(pos[0], pos[0] + len(pos)))), "a cycle is not a run of at least 3 successive occurrences")
            segs.append((pos[0], pos[-1]))
        else:
            left = pos
        seen += pos
    c.prove(z3.BoolVal(sorted(seen) == list(range(len(ts)))), "cycles and residuals do not partition the occurrences")
    return segs, left


def h_fold(n, others, hi=None, full=False, opts=((False, False),)):
    """full: the candidates of mine_cycles_alpha; otherwise chains and triples"""
    def run(c):
        EC, RM = loader.load("skmine.periodic.extract_cycles"), loader.load("skmine.periodic.run_mine")
        PM = loader.load("skmine.periodic.candidate")
        ts, s, e, nb1, dd, cls = sym_log(c, n, others, hi)
        occs = loader.NP.array(list(ts))

        def length(o):
            P, t0, Es = PM.Candidate(-1, {"alpha": 0, "occs": list(o), "p": None}).getPattT0E()
            return P.codeLength(t0, Es, dd)

        def well(o, what):
            ix = []
            for x in o:
                k = next((k for k, t in enumerate(ts) if E(t).eq(E(x))), None)
                if k is None:
                    k = next((k for k, t in enumerate(ts) if c.branch(E(t) == E(x))), None)
                if k is None:
                    c.fail(what + " has an occurrence that is not in the log")
                ix.append(k)
            c.prove(z3.BoolVal(all(a < b for a, b in zip(ix, ix[1:]))), what + " is not made of successive occurrences")
            return ix
        if full:
            c.payload = lambda mo: {"kind": "alpha", "ts": mv(mo, ts), "start": model_value(mo, s), "end": model_value(mo, e), "nb1": nb1}
            one = cls.cost_one(dd, 0)
            for cd in RM.mine_cycles_alpha(occs, 0, dd, one):
                o = list(cd.getOccs())
                well(o, "a candidate cycle")
                c.prove(z3.BoolVal(len(o) >= 3), "a candidate cycle has fewer than 3 occurrences")
                P, t0, Es = cd.getPattT0E()
                c.prove(near(cd.getCost(), P.codeLength(t0, Es, dd)), "cost of a candidate cycle")
                c.prove(E(P.nodeP(0)) >= 1, "period of a candidate cycle")
            return
        eff, bd = sym_real("eff", 0), sym_real("bound", 0)
        neg, mp = c.choice("options", list(opts))
        mp = sym_int("max_p", 1) if mp else None
        c.payload = lambda mo: {"kind": "fold", "ts": mv(mo, ts), "start": model_value(mo, s), "end": model_value(mo, e), "nb1": nb1, "neg": neg,
                                "eff": float(model_value(mo, eff)), "bound": float(model_value(mo, bd)), "max_p": None if mp is None else model_value(mo, mp)}
        c.assume(eff.e > 0)
        thr = -eff if neg else eff
        chains, triples = EC.extract_cycles_fold(occs, 0, dd, bd, thr, thr, mp)

        def short(o):
            if mp is not None:
                c.prove(z3.And([o[k + 1].e - o[k].e < mp.e for k in range(len(o) - 1)]), "a step exceeds the largest period")
        for ch in chains:
            o = list(ch["occs"])
            ix = well(o, "a chain")
            c.prove(z3.BoolVal(len(o) >= 3 and ix == list(ch["pos"])), "positions of a chain")
            l = length(o)
            c.prove(near(ch["cost"], l), "cost of a chain")
            c.prove(z(R_(l)) < (len(o) - neg) * eff.e + z3.RealVal("1/1000000"), "a chain is not efficient")
            short(o)
        for dE, dp, cost, pos in triples:
            c.prove(z3.BoolVal(len(pos) == 3 and pos[0] < pos[1] < pos[2]), "a triple is not made of successive occurrences")
            o = [ts[k] for k in pos]
            l = length(o)
            c.prove(near(cost, l), "cost of a triple")
            c.prove(z(R_(l)) < (3 - neg) * eff.e + z3.RealVal("1/1000000"), "a triple is not efficient")
            short(o)
            a, b = o[1].e - o[0].e, o[2].e - o[1].e
            c.prove(z3.If(a > b, a - b, b - a) < values._toreal(bd.e), "a triple exceeds the bound on the shift")
    return run


def h_merge(n):
    """lists of cycles from several sources: of those with the same start, length and period the cheapest is kept"""
    def run(c):
        RM = loader.load("skmine.periodic.run_mine")
        f = need(RM, "merge_cycle_lists")
        t = [c.choice("t%d" % i, [0, 4]) for i in range(n)]
        p = [c.choice("p%d" % i, [3, 5]) for i in range(n)]
        k = [3, 4, 3, 3, 4][:n]
        src = [c.choice("src%d" % i, [0, 1] if i < 2 else [1, 2]) for i in range(n)]
        cost = [sym_real("c%d" % i, 0) for i in range(n)]
        c.payload = lambda mo: {"kind": "merge", "t": t, "p": p, "k": k, "src": src, "cost": [float(x) for x in mv(mo, cost)]}
        out = f(merge_input(t, p, k, src, cost))
        keys = [(x["occs"][0], len(x["occs"]), x["p"]) for x in out]
        want = {(t[i], k[i], p[i]) for i in range(n)}
        c.prove(len(keys) == len(set(keys)) and set(keys) == want, "cycles with the same start, length and period are not merged into one")
        for x, key in zip(out, keys):
            for i in range(n):
                if (t[i], k[i], p[i]) == key:
                    c.prove(E(x["cost"]) <= cost[i].e, "the cheapest of equal cycles is not the one kept")
    return run


def merge_input(t, p, k, src, cost):
    out = [[], [], []]
    for i in range(len(t)):
        out[src[i]].append({"alpha": 0, "occs": [t[i] + j * p[i] for j in range(k[i])], "p": p[i], "cost": cost[i]})
    return out


def r_merge(d):
    from skmine.periodic import run_mine as RM
    if not hasattr(RM, "merge_cycle_lists"):
        return []
    inp = merge_input(d["t"], d["p"], d["k"], d["src"], d["cost"])
    best = {}
    for x in sum(inp, []):
        key = (x["occs"][0], len(x["occs"]), x["p"])
        best[key] = min(best.get(key, math.inf), x["cost"])
    out = RM.merge_cycle_lists(inp)
    got = [((x["occs"][0], len(x["occs"]), x["p"]), x["cost"]) for x in out]
    if sorted(got) != sorted(best.items()):
        return [["merge", "merging %s keeps %s, expected %s" % (inp, got, best)]]
    return []


def h_long(base, hi, full):
    """a long cycle with one more occurrence anywhere"""
    def run(c):
        EC, RM = loader.load("skmine.periodic.extract_cycles"), loader.load("skmine.periodic.run_mine")
        DS, cls = loader.load("skmine.periodic.data_sequence"), loader.load("skmine.periodic.class_patterns")
        b = sym_int("base")
        x = c.choice("x", [v for v in range(1, hi) if v not in base])
        offs = sorted(base + [x])
        ts = [b + o for o in offs]
        c.payload = lambda mo: {"kind": "alpha", "ts": mv(mo, ts), "start": model_value(mo, ts[0]), "end": model_value(mo, ts[-1] + 20), "nb1": 2}
        c.small = [b.e == 0, b.e == 7]
        dd = DS.DataSequence({0: list(ts), 1: [ts[0], ts[-1] + 20]}).getDetails()
        one = cls.cost_one(dd, 0)
        for cd in RM.mine_cycles_alpha(loader.NP.array(list(ts)), 0, dd, one):
            o = list(cd.getOccs())
            P, t0, Es = cd.getPattT0E()
            c.prove(z3.And([z3.Or([E(v) == E(u) for u in ts]) for v in o]), "a candidate has an occurrence that is not in the log")
            c.prove(z3.And([E(u) < E(v) for u, v in zip(o, o[1:])]), "a candidate is not in increasing order")
            c.prove(len(o) >= 3, "a candidate cycle has fewer than 3 occurrences")
            c.prove(near(cd.getCost(), P.codeLength(t0, Es, dd)), "cost of a candidate cycle")
    return run


# ------------------------------------------------------------------ replay
def r_log(d):
    from skmine.periodic import data_sequence as DS
    return DS.DataSequence({0: list(d["ts"]), 1: [d["start"]] + [d["end"]] * (d["nb1"] - 1)})


def r_length(d, o):
    tot, nb = len(d["ts"]) + d["nb1"], len(d["ts"])
    const, p, lp, lt, Es = o_len(list(o), nb, tot, d["end"] - d["start"], lambda x: math.log2(x) if x > 0 else float("nan"), lambda a, b: a // b)
    return const + lp + lt + sum(2 + abs(x) for x in Es)


def r_dyn(d):
    from skmine.periodic import extract_cycles as EC
    import numpy as np
    pr = []
    ts, n = d["ts"], len(d["ts"])
    dd = r_log(d).getDetails()
    with block_size(EC, d.get("blocks")):
        cy = EC.compute_cycles_dyn(np.array(ts), 0, dd, residuals=True)
    tot = n + d["nb1"]
    one = -math.log2(n / tot) + math.log2(d["end"] - d["start"] + 1)
    segs, left, seen = [], [], []
    for x in cy:
        o = [int(v) for v in x["occs"]]
        if not set(o) <= set(ts):
            pr.append(["foreign", "cycle %s of occurrences %s" % (o, ts)])
            continue
        pos = [ts.index(v) for v in o]
        if "p" in x:
            if len(pos) < 3 or pos != list(range(pos[0], pos[0] + len(pos))):
                pr.append(["run", "cycle %s of occurrences %s" % (o, ts)])
            if not abs(x["cost"] - r_length(d, o)) < 1e-5:
                pr.append(["cost", "cycle %s has cost %s, code length %s" % (o, x["cost"], r_length(d, o))])
            segs.append((pos[0], pos[-1]))
        else:
            left = pos
        seen += pos
    if sorted(seen) != list(range(n)):
        pr.append(["partition", "cycles %s of occurrences %s" % (cy, ts)])
        return pr
    if d.get("blocks"):
        return pr
    price = lambda sg: sum(r_length(d, ts[i:j + 1]) for i, j in sg) + one * (n - sum(j - i + 1 for i, j in sg))
    best = min(segmentations(n), key=price)
    if price(segs) > price(best) + 1e-5:
        pr.append(["suboptimal", "occurrences %s are cut into %s (%s bits), %s costs %s bits" % (ts, segs, price(segs), best, price(best))])
    return pr


def inc(o, ts):
    o = [int(v) for v in o]
    return set(o) <= set(ts) and all(a < b for a, b in zip(o, o[1:]))


def r_fold(d):
    from skmine.periodic import extract_cycles as EC
    import numpy as np
    pr = []
    ts = d["ts"]
    dd = r_log(d).getDetails()
    neg = d.get("neg", False)
    thr = -d["eff"] if neg else d["eff"]
    chains, triples = EC.extract_cycles_fold(np.array(ts), 0, dd, d["bound"], thr, thr, d.get("max_p"))
    far = lambda o: d.get("max_p") is not None and any(b - a >= d["max_p"] for a, b in zip(o, o[1:]))
    for ch in chains:
        o = list(ch["occs"])
        if not inc(o, ts) or len(o) < 3 or [ts[k] for k in ch["pos"]] != o:
            pr.append(["chain", "chain %s of occurrences %s" % (ch, ts)])
        elif not abs(ch["cost"] - r_length(d, o)) < 1e-5:
            pr.append(["chain-cost", "chain %s has cost %s, code length %s" % (o, ch["cost"], r_length(d, o))])
        elif far(o):
            pr.append(["chain-period", "chain %s has a step of %s or more" % (o, d["max_p"])])
        elif not r_length(d, o) < (len(o) - neg) * d["eff"] + 1e-6:
            pr.append(["chain-eff", "chain %s of cost %s is not efficient (%s)" % (o, ch["cost"], d["eff"])])
    for dE, dp, cost, pos in triples:
        o = [ts[k] for k in pos]
        if not inc(o, ts) or len(o) != 3:
            pr.append(["triple", "triple %s of occurrences %s" % (pos, ts)])
            continue
        if not abs(cost - r_length(d, o)) < 1e-5:
            pr.append(["triple-cost", "triple %s (log %s..%s) has cost %s, code length %s" % (o, d["start"], d["end"], cost, r_length(d, o))])
        if far(o):
            pr.append(["triple-period", "triple %s has a step of %s or more" % (o, d["max_p"])])
        if not r_length(d, o) < (3 - neg) * d["eff"] + 1e-6:
            pr.append(["triple-eff", "triple %s of cost %s is not efficient (%s)" % (o, cost, d["eff"])])
        if not abs((o[2] - o[1]) - (o[1] - o[0])) < d["bound"]:
            pr.append(["triple-bound", "triple %s exceeds the bound %s" % (o, d["bound"])])
    return pr


def r_alpha(d):
    from skmine.periodic import run_mine as RM, class_patterns as cls
    import numpy as np
    pr = []
    ts = d["ts"]
    dd = r_log(d).getDetails()
    for cd in RM.mine_cycles_alpha(np.array(ts), 0, dd, cls.cost_one(dd, 0)):
        o = list(cd.getOccs())
        if not inc(o, ts) or len(o) < 3:
            pr.append(["candidate", "candidate %s of occurrences %s" % (o, ts)])
        elif not abs(cd.getCost() - r_length(d, o)) < 1e-5:
            pr.append(["cost", "candidate %s (log %s..%s) has cost %s, code length %s" % (o, d["start"], d["end"], cd.getCost(), r_length(d, o))])
    return pr


OPTS = [(False, False), (True, False), (False, True), (True, True)]


def harnesses(tier):
    q = tier == "quick"
    hs = []
    uf = dict(log_mode="uf", hash_mode="eq", witness_every=5)
    for n in (3, 4) if q else (3, 4, 5):
        hs.append(Harness("segment-%d" % n, h_dyn(n, [2, 5]), "%d occurrences at any times in a log of any length, any logarithm" % n, **uf))
        hs.append(Harness("fold-%d" % n, h_fold(n, [2, 5] if n < 4 else [3], opts=OPTS if n < 4 else OPTS[:1]), "%d occurrences at any times in a log of any length, any efficiency and shift bounds" % n, **uf))
    for n in (3,) if q else (3, 4):
        hs.append(Harness("alpha-%d" % n, h_fold(n, [2], full=True), "%d occurrences at any times in a log of any length" % n, **uf))
    for n, hi in ((4, 12), (5, 10)) if q else ((4, 20), (5, 14), (6, 12)):
        hs.append(Harness("segment-exact-%d" % n, h_dyn(n, [2], hi), "%d occurrences within %d time units, exact logarithms" % (n, hi), hash_mode="eq", witness_every=9))
        hs.append(Harness("alpha-exact-%d" % n, h_fold(n, [2], hi, full=True), "%d occurrences within %d time units, exact logarithms" % (n, hi), hash_mode="eq", witness_every=9))
    for n, hi in ((4, 13), (5, 10)) if q else ((4, 20), (5, 14), (6, 12)):
        hs.append(Harness("segment-cheap-%d" % n, h_dyn(n, [2, 40], hi, end=5000), "%d occurrences within %d time units of a log of 5000 (cycles pay off), rare or frequent event, exact logarithms" % (n, hi), hash_mode="eq", witness_every=9))
    for n in (4, 5) if q else (4, 5, 6):
        hs.append(Harness("segment-gaps-%d" % n, h_dyn(n, [2, 40], 80, end=5000, gaps=(20, 22, 2) if q else (20, 25, 3)),
                          "%d occurrences of a log of 5000 with steps of 1-2 (thorough 3) and one or two of 20-22 (25), exact logarithms" % n, hash_mode="eq", witness_every=9))
    hs.append(Harness("fold-exact", h_fold(4, [2], 9 if q else 14, opts=OPTS), "4 occurrences within 9 (thorough 14) time units, exact logarithms, any thresholds, absolute or relative, with and without a largest period", hash_mode="eq", witness_every=9))
    hs.append(Harness("blocks-6", h_dyn(6 if q else 7, [2], blocks=(2, 1)), "6-7 occurrences at any times, block-wise segmentation with blocks of 2 (no cycle fits in one)", **uf))
    hs.append(Harness("blocks-7", h_dyn(7 if q else 8, [2], blocks=(3, 2)), "7-8 occurrences at any times, block-wise segmentation with blocks of 3 moved by 2", **uf))
    hs.append(Harness("blocks-9", h_dyn(8 if q else 9, [2], 11 if q else 13, blocks=(4, 3), end=5000), "8-9 occurrences within 11-13 time units of a long log, block-wise segmentation with blocks of 4 moved by 3, exact logarithms", hash_mode="eq", witness_every=9))
    hs.append(Harness("merge", h_merge(4 if q else 5), "4-5 cycles out of 2 starts, 2 lengths and 2 periods from 3 sources, any costs", witness_every=9))
    hs.append(Harness("alpha-long", h_long([10 * k for k in range(12)], 115, True), "a cycle of 12 occurrences of period 10 and one more occurrence anywhere, any start", hash_mode="eq", witness_every=3))
    return hs


def replay(p):
    d = p["data"]
    with __import__("warnings").catch_warnings():
        __import__("warnings").simplefilter("ignore")
        v, err = real({"dyn": r_dyn, "fold": r_fold, "alpha": r_alpha, "merge": r_merge}[d["kind"]], d)
    return ([err] if err else []) + (v or [])
