"""C20: code lengths of periodic patterns and selection: mining never makes the description longer"""
from .persym import *

INFO = {"explanation": "Code lengths (computeLengthCycle, cost of triples, Pattern.codeLength) compared as terms over an uninterpreted "
                       "logarithm; greedy selection with symbolic costs; whole mining of every small log with exact logarithms."}
TOL = 1e-6


def L(x):
    """log2 of a term as the code under test sees it"""
    r = loader.NP.log2(x if isinstance(x, (int, float)) else SymReal(values._toreal(E(x))))
    return values._toreal(E(r)) if not isinstance(r, float) else z3.RealVal(repr(r))


# ------------------------------------------------------------------ one cycle
def details(cls, nb, t_start, t_end):
    """what DataSequence computes for a log with nb[e] occurrences of each event e"""
    nbOccs, orgFreqs, adjFreqs, blck = cls.makeOccsAndFreqs(dict(nb))
    return {"t_start": t_start, "t_end": t_end, "deltaT": t_end - t_start, "nbOccs": nbOccs, "orgFreqs": orgFreqs,
            "adjFreqs": adjFreqs, "blck_delim": blck}


def o_length(n, nb, alpha, dT, ts, p, log, floor):
    """L(C) = L(alpha) + L(r) + L(p) + L(tau) + L(E) of a simple cycle, from the definition"""
    import math
    tot = sum(nb.values())
    Es = [ts[i] - ts[i - 1] - p for i in range(1, n)]
    sig = sum(Es[1:], Es[0])
    const = -math.log2(nb[alpha] / (3. * tot)) + 2 * math.log2(3) + math.log2(nb[alpha])
    return const, [floor(dT - sig, n - 1), dT - sig - p * (n - 1) + 1], 2 * (n - 1), Es


def h_cycle(n, others):
    def run(c):
        cls = loader.load("skmine.periodic.class_patterns")
        PM = loader.load("skmine.periodic.pattern")
        CA = loader.load("skmine.periodic.candidate")
        DS = loader.load("skmine.periodic.data_sequence")
        nb = c.choice("others", others)
        ts = [sym_int("t%d" % i) for i in range(n)]
        for a, b in zip(ts, ts[1:]):
            c.assume(a.e < b.e)
        s, e = sym_int("start"), sym_int("end")
        c.assume(z3.And(s.e <= ts[0].e, e.e >= ts[-1].e))
        c.payload = lambda mo: {"kind": "cycle", "nb": nb, "ts": mv(mo, ts), "start": model_value(mo, s), "end": model_value(mo, e)}
        c.small = [z3.And(s.e == 0, e.e <= k) for k in (20, 100)]
        c.assume(L(SymReal(z3.Real("one"))) == 0)
        c.assume(z3.Real("one") == 1)
        # the log: the cycle, other occurrences of event 0 (first at `start`, last at `end`) and other events
        seq = {0: ts + [e] * (nb[0] - n), 1: [s] * nb[1]} if nb[0] > n else {0: ts, 1: [s] + [e] * (nb[1] - 1)}
        dd = DS.DataSequence(seq).getDetails()
        cost = cls.computeLengthCycle(dd, {"p": None, "alpha": 0, "occs": list(ts)})
        cand = CA.Candidate(-1, {"alpha": 0, "occs": list(ts), "p": None})
        P, t0, Es = cand.getPattT0E()
        cl = P.codeLength(t0, Es, dd)
        c.prove(near(cost, cl), "cost of a cycle is not the code length of its pattern")
        p = P.nodeP(0)
        const, logs, k, Eo = o_length(n, nb, 0, e - s, ts, p, None, lambda a, b: a // b)
        want = z3.RealVal(str(const)) + sum([L(x) for x in logs], z3.RealVal(0)) + k + z3.ToReal(z3.Sum([z3.If(E(x) >= 0, E(x), -E(x)) for x in Eo]))
        c.prove(near(cl, SymReal(want)), "code length of a cycle")
        c.prove(near(DS.DataSequence(seq).codeLengthResiduals(), residual(nb, e - s)), "code length of the log without patterns")
    return run


def residual(nb, dT):
    import math
    tot = sum(nb.values())
    return SymReal(sum([v * (z3.RealVal(str(-math.log2(v / tot))) + L(dT + 1)) for v in nb.values() if v], z3.RealVal(0)))


def near(a, b):
    d = a - b
    x = values._toreal(E(d))
    return z3.And(x <= z3.RealVal(str(TOL)), x >= z3.RealVal(str(-TOL)))


def r_cycle(d):
    import math
    from skmine.periodic import class_patterns as cls, candidate as CA, data_sequence as DS
    pr = []
    nb, ts, s, e = {int(k): v for k, v in d["nb"].items()}, d["ts"], d["start"], d["end"]
    n = len(ts)
    seq = {0: ts + [e] * (nb[0] - n), 1: [s] * nb[1]} if nb[0] > n else {0: ts, 1: [s] + [e] * (nb[1] - 1)}
    D = DS.DataSequence(seq)
    dd = D.getDetails()
    cost = cls.computeLengthCycle(dd, {"p": None, "alpha": 0, "occs": list(ts)})
    P, t0, Es = CA.Candidate(-1, {"alpha": 0, "occs": list(ts), "p": None}).getPattT0E()
    cl = P.codeLength(t0, Es, dd)
    if not abs(cost - cl) < 1e-5:
        pr.append(["cycle-cost", "cycle %s has cost %s, its pattern a code length of %s" % (ts, cost, cl)])
    const, logs, k, Eo = o_length(n, nb, 0, e - s, ts, P.nodeP(0), None, lambda a, b: a // b)
    want = const + sum(math.log2(x) for x in logs) + k + sum(abs(x) for x in Eo)
    if not abs(want - cl) < 1e-5:
        pr.append(["length", "code length of the cycle %s (%s..%s) is %s, expected %s" % (ts, s, e, cl, want)])
    tot = sum(nb.values())
    res = sum(v * (-math.log2(v / tot) + math.log2(e - s + 1)) for v in nb.values() if v)
    if not abs(res - D.codeLengthResiduals()) < 1e-5:
        pr.append(["residual", "code length without patterns is %s, expected %s" % (D.codeLengthResiduals(), res)])
    return pr


# ------------------------------------------------------------------ selection
def h_select(m, n, ks):
    """m candidates over n occurrences of 2 events, symbolic costs"""
    def run(c):
        RM, CA = loader.load("skmine.periodic.run_mine"), loader.load("skmine.periodic.candidate")
        ev = [0] * ((n + 1) // 2) + [1] * (n // 2)
        cov = [[c.branch(z3.Bool("c_%d_%d" % (i, j))) for j in range(n)] for i in range(m)]
        cost = [sym_real("cost%d" % i, 0) for i in range(m)]
        d = [sym_real("d%d" % i, 0) for i in range(2)]
        for x in cost + d:
            c.assume(x.e > 0)
        mc = c.choice("min_cov", ks)
        c.payload = lambda mo: {"kind": "select", "cov": cov, "cost": [float(x) for x in mv(mo, cost)], "d": [float(x) for x in mv(mo, d)], "min_cov": mc, "ev": ev}
        for r in cov:
            c.assume(z3.BoolVal(sum(r) >= 1))
        cands = {i: fake(CA, i, [(j, ev[j]) for j in range(n) if cov[i][j]], cost[i]) for i in range(m)}
        sel = RM.filter_candidates_cover(cands, {0: d[0], 1: d[1]}, min_cov=mc)
        c.prove(len(set(sel)) == len(sel), "a candidate is selected twice")
        done, tot, saved = set(), z3.RealVal(0), z3.RealVal(0)
        for i in sel:
            new = {(j, ev[j]) for j in range(n) if cov[i][j]} - done
            c.prove(len(new) >= mc, "a selected candidate covers too few new occurrences")
            done |= new
            tot = tot + cost[i].e
            saved = saved + sum([d[e].e for _, e in new], z3.RealVal(0))
            c.prove(tot <= saved, "the selection makes the description longer")
        # maximality: no candidate left out would have paid off on its own
        for i in range(m):
            new = {(j, ev[j]) for j in range(n) if cov[i][j]} - done
            if i not in sel and len(new) >= mc:
                k = len(new)
                c.prove(z3.Not(z3.And(cost[i].e <= k * d[0].e, cost[i].e <= k * d[1].e,
                                      cost[i].e * 1 < sum([d[e].e for _, e in new], z3.RealVal(0)))), "an efficient candidate is left out")
    return run


def fake(CA, i, occs, cost):
    """a candidate whose occurrences are given (a pattern that is not looked at)"""
    cd = CA.Candidate(i, {"alpha": 0, "occs": [o[0] for o in occs], "p": 1}, None, None, None)
    cd.cost = cost
    cd.getEvOccs = lambda: list(occs)
    return cd


def r_select(d):
    from skmine.periodic import run_mine as RM, candidate as CA
    pr = []
    ev, cov, n = d["ev"], d["cov"], len(d["ev"])
    cands = {i: fake(CA, i, [(j, ev[j]) for j in range(n) if r[j]], d["cost"][i]) for i, r in enumerate(cov)}
    sel = RM.filter_candidates_cover(cands, {0: d["d"][0], 1: d["d"][1]}, min_cov=d["min_cov"])
    if len(set(sel)) != len(sel):
        pr.append(["twice", "selected twice: %s" % sel])
    done, tot, saved = set(), 0., 0.
    for i in sel:
        new = {(j, ev[j]) for j in range(n) if cov[i][j]} - done
        if len(new) < d["min_cov"]:
            pr.append(["few", "candidate %d selected in %s covers %d new occurrences" % (i, sel, len(new))])
        done |= new
        tot += d["cost"][i]
        saved += sum(d["d"][e] for _, e in new)
        if tot > saved * (1 + 1e-9):
            pr.append(["longer", "selection %s of %s costs %s, leaving the occurrences costs %s" % (sel, d, tot, saved)])
    for i in range(len(cov)):
        new = {(j, ev[j]) for j in range(n) if cov[i][j]} - done
        k = len(new)
        if i not in sel and k >= d["min_cov"] and d["cost"][i] * (1 + 1e-9) < k * min(d["d"]):
            pr.append(["left-out", "candidate %d would save bits but %s is selected: %s" % (i, sel, d)])
    return pr


# ------------------------------------------------------------------ every small log
def h_small(n, span, evs, mult=1):
    def run(c):
        CY = loader.load("skmine.periodic.run_mine")
        b = sym_int("base")
        offs = [0] + [sym_int("o%d" % i, 0, span) for i in range(1, n)]
        for x, y in zip(offs, offs[1:]):
            c.assume(E(x) < E(y) if evs == 1 else E(x) <= E(y))
        ev = [c.choice("ev%d" % i, list(range(evs))) for i in range(n)]
        pts = [(b + o * mult, "ab"[e]) for o, e in zip(offs, ev)]
        if evs > 1:
            c.assume(distinct(pts))
        c.payload = lambda mo: {"kind": "log", "points": [[model_value(mo, t), e] for t, e in pts]}
        c.small = [b.e == 0]
        seqs = {}
        for t, e in pts:
            seqs.setdefault(e, []).append(t)
        if len(pts) < 2:
            return
        cpool, ds, pc = CY.mine_seqs({e: loader.NP.array(ts) for e, ts in seqs.items()})
        cl, r = pc.codeLength(ds), ds.codeLengthResiduals()
        c.prove(not (cl > r + TOL), "mining makes the description longer")
        num = {e: k for k, e in enumerate(sorted(seqs))}
        data = [(t, num[e]) for t, e in pts]
        R = [o for l in pc.getOccLists() for o in l]
        Z = list(pc.getUncoveredOccs(ds))
        c.prove(z3.And(eq_set(R + Z, data), distinct(Z), *[z3.Not(member(z, R)) for z in Z]), "patterns and residuals are not the log")
    return run


def r_small(d):
    from skmine.periodic import run_mine as RM
    import numpy as np
    pr = []
    seqs = {}
    for t, e in d["points"]:
        seqs.setdefault(e, []).append(t)
    cpool, ds, pc = RM.mine_seqs({e: np.array(ts) for e, ts in seqs.items()})
    cl, r = pc.codeLength(ds), ds.codeLengthResiduals()
    if not cl <= r + TOL / 2:
        pr.append(["longer", "log %s: %s bits with the patterns %s, %s without" % (d["points"], cl, [(str(p[0]), p[1], list(p[2])) for p in pc.getPatterns()], r)])
    num = {e: k for k, e in enumerate(sorted(seqs))}
    data = {(t, num[e]) for t, e in d["points"]}
    R = [tuple(o) for l in pc.getOccLists() for o in l]
    Z = list(pc.getUncoveredOccs(ds))
    if set(R) | set(Z) != data or set(R) & set(Z):
        pr.append(["lossy", "log %s: patterns give %s, residuals %s" % (d["points"], R, Z)])
    return pr


def harnesses(tier):
    q = tier == "quick"
    hs = []
    oth = [{0: n, 1: m} for n, m in ((3, 2), (4, 1), (4, 2), (5, 2), (6, 3))]
    for n in (3, 4, 5) if q else (3, 4, 5, 6):
        hs.append(Harness("cycle-%d" % n, h_cycle(n, [o for o in oth if o[0] > n or o[0] == n and o[1] > 1]), "%d occurrences at any times, log of any length" % n, log_mode="uf", hash_mode="eq"))
    hs.append(Harness("select-2", h_select(2, 4, [1, 3]), "2 candidates over 4 occurrences of 2 events, any positive costs", hash_mode="eq", witness_every=6))
    hs.append(Harness("select-3", h_select(3, 3 if q else 4, [1, 2]), "3 candidates over 3-4 occurrences of 2 events, any positive costs", hash_mode="eq", witness_every=6))
    hs.append(Harness("logs-1", h_small(4, 24 if q else 40, 1), "every log of 4 occurrences of an event within %d time units, any start" % (24 if q else 40), hash_mode="eq", witness_every=6))
    hs.append(Harness("logs-2", h_small(5, 14 if q else 20, 1), "every log of 5 occurrences of an event within %d time units, any start" % (14 if q else 20), hash_mode="eq", witness_every=6))
    hs.append(Harness("logs-3", h_small(4, 8 if q else 12, 2), "every log of 4 occurrences of 2 events within %d time units, any start" % (8 if q else 12), hash_mode="eq", witness_every=6))
    return hs


def replay(p):
    d = p["data"]
    pr = []
    with __import__("warnings").catch_warnings():
        __import__("warnings").simplefilter("ignore")
        v, err = real({"cycle": r_cycle, "select": r_select, "log": r_small}[d["kind"]], d)
    return ([err] if err else []) + (v or [])
