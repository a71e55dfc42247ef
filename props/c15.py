"""C15: building candidates and combining them into larger patterns keeps every occurrence"""
from .percommon import *

INFO = {"explanation": "candidate construction, nesting, concatenation, factorisation and the tree operations of Pattern "
                       "executed on candidates of concrete shape with symbolic (unbounded) times, corrections, distances "
                       "and periods; the resulting pattern must generate exactly the occurrences it records."}

LEAF = "simple"


def tup(sh):
    return sh if isinstance(sh, (int, str)) else (sh[0], [tup(c) for c in sh[1]])


# ---------------------------------------------------------------- candidates from descriptions (symbolic or concrete)
def mk_cand(CM, PM, d):
    """d = {"shape": .., "ps", "ds", "t0", "E"} or {"alpha", "O", "p"}"""
    if "alpha" in d:
        return CM.Candidate(-1, {"alpha": d["alpha"], "occs": list(d["O"]), "p": d["p"], "cost": 1.0})
    O = [o[0] for o in o_occs(d["shape"], d["ps"], d["ds"], d["t0"], d["E"])]
    return CM.Candidate(-1, PM.Pattern(nodes_of(d["shape"], d["ps"], d["ds"])), O, list(d["E"]), 1.0)


def evoccs(d):
    if "alpha" in d:
        return [(o, d["alpha"]) for o in d["O"]]
    return o_occs(d["shape"], d["ps"], d["ds"], d["t0"], d["E"])


def sym_cand(i, sh, ps=None, ds=None):
    """sh: (r, event, "simple") -> dictionary candidate; otherwise a tree"""
    if sh[-1] == LEAF:
        return {"alpha": sh[1], "O": sym_list("o%d_" % i, sh[0]), "p": ps[0] if ps else sym_int("p%d" % i)}
    return {"shape": sh, "ps": ps if ps is not None else sym_list("p%d_" % i, n_ps(sh)),
            "ds": ds if ds is not None else sym_list("d%d_" % i, n_ds(sh)),
            "t0": sym_int("t%d" % i), "E": sym_list("e%d_" % i, size(sh) - 1)}


def conc(mo, d):
    out = {}
    for k, v in d.items():
        out[k] = v if k in ("shape", "alpha") else (mv(mo, v) if isinstance(v, list) else model_value(mo, v))
    return out


def smalls(c, ds):
    vs = []
    for d in ds:
        for k, v in d.items():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, Sym):
                    vs.append(x.e)
    c.small = [z3.And([z3.And(x >= lo, x <= hi) for x in vs] + [z3.BoolVal(True)]) for lo, hi in ((-9, 9), (-99, 99), (-9999, 9999))]


def check_cand(c, cand, label):
    """the pattern, start and corrections of a candidate generate exactly the occurrences it records"""
    P, t0, Es = cand.getPattT0E()
    ev = cand.getEvOccs()
    c.prove(len(Es) == len(ev) - 1, label + ": number of corrections")
    c.prove(eq_seq(P.getCovSeq(t0, Es), ev), label + ": generated = recorded")
    c.prove(cand.getNbOccs() == len(ev), label + ": count")
    return ev


def r_check(cand, pr, label):
    P, t0, Es = cand.getPattT0E()
    ev = [tuple(x) for x in cand.getEvOccs()]
    cov = [tuple(x) for x in P.getCovSeq(t0, Es)]
    if len(Es) != len(ev) - 1 or cov != ev or cand.getNbOccs() != len(ev):
        pr.append([label, "%s: %s (t0=%s, E=%s) generates %s but is recorded with %s" % (label, P, t0, list(Es), cov, ev)])
    return ev


# ---------------------------------------------------------------- simple cycles
def h_simple(n):
    def run(c):
        O = sym_list("o", n)
        for a, b in zip(O, O[1:]):
            c.assume(b.e > a.e)
        mode = c.choice("p", ["none", "given"])
        p = None if mode == "none" else sym_int("p")
        c.payload = lambda mo: {"kind": "simple", "O": mv(mo, O), "p": None if p is None else model_value(mo, p)}
        smalls(c, [{"O": O, "p": p}])
        M = loader.load("skmine.periodic.candidate")
        cand = M.Candidate(-1, {"alpha": 1, "occs": list(O), "p": p})
        ev = check_cand(c, cand, "simple")
        c.prove(eq_seq(ev, [(o, 1) for o in O]), "simple: occurrences")
        if p is None and n > 1:
            q = E(cand.getMajorP())
            diffs = [E(b) - E(a) for a, b in zip(O, O[1:])]
            m = len(diffs)
            # the period is the median of the gaps, rounded down
            lo, hi = (m - 1) // 2, m // 2
            med2 = z3.Int("med_lo"), z3.Int("med_hi")
            def rank(v, k):
                return z3.And(z3.Or([v == d for d in diffs]), z3.Sum([z3.If(d < v, 1, 0) for d in diffs]) <= k,
                              z3.Sum([z3.If(d <= v, 1, 0) for d in diffs]) > k)
            c.prove(z3.Implies(z3.And(rank(med2[0], lo), rank(med2[1], hi)), q == (med2[0] + med2[1]) / 2), "period = floor(median)")
    return run


# ---------------------------------------------------------------- nesting
def nested_key(outer_ps, inner_ps, rs):
    return "+".join("%d" % p for p in outer_ps + inner_ps) + "_" + "*".join("%d" % r for r in reversed(rs))


def rs_of(sh):
    if isinstance(sh, int):
        return []
    if sh[-1] == LEAF:
        return [sh[0]]
    return [sh[0]] + [r for k in sh[1] for r in rs_of(k)]


def key_format_ok(RM, CM):
    """does nest_cmplx still hand (size, "p+p_r*r", t0, ids) to prepare_candidate_nested?"""
    seen = []
    orig = RM.prepare_candidate_nested
    dd = {"deltaT": 1000, "t_start": 0, "t_end": 1000, "nbOccs": {0: 12, -1: 12.0}, "adjFreqs": {0: 1 / 3., "(": 1 / 3., ")": 1 / 3.},
          "orgFreqs": {0: 1.0}, "blck_delim": 3.17}
    cands = [CM.Candidate(-1, {"alpha": 0, "occs": [100 * i + 5 * j for j in range(3)], "p": 5, "cost": 30.0}) for i in range(4)]

    def spy(cp, cs):
        seen.append(cp)
        return orig(cp, cs)
    RM.prepare_candidate_nested = spy
    try:
        RM.nest_cmplx(cands, dd)
    finally:
        RM.prepare_candidate_nested = orig
    return any(len(s) == 4 and s[1] == nested_key([100], [5], [4, 3]) and list(s[3]) == [0, 1, 2, 3] for s in seen)


_FMT = {}


def h_nested(shs, outers):
    def run(c):
        RM, CM, PM = [loader.load("skmine.periodic." + m) for m in ("run_mine", "candidate", "pattern")]
        if "ok" not in _FMT:
            try:
                need(RM, "nest_cmplx"), need(RM, "prepare_candidate_nested")
                _FMT["ok"] = key_format_ok(RM, CM)
            except Exception as ex:
                _FMT["ok"] = False
        if not _FMT["ok"]:
            raise engine.Unsupported("nest_cmplx hands its selection to prepare_candidate_nested in another form")
        sh = c.choice("inner", shs)
        outer = c.choice("outer", outers)
        ips = [7, 3, 2, 4, 6][:1 if sh[-1] == LEAF else n_ps(sh)]
        ods = [] if sh[-1] == LEAF else [5, 1, 4, 2][:n_ds(sh)]
        ops = [100, 30, 11][:len(outer)]
        k = 1
        for r in outer:
            k *= r
        ds = [sym_cand(i, sh, list(ips), list(ods)) for i in range(k)]
        c.payload = lambda mo: {"kind": "nested", "outer": outer, "ops": ops, "ips": ips, "cands": [conc(mo, d) for d in ds],
                                "rs": rs_of(sh)}
        smalls(c, ds)
        cands = [mk_cand(CM, PM, d) for d in ds]
        key = nested_key(ops, ips, list(outer) + rs_of(sh))
        r = RM.prepare_candidate_nested((0, key, cands[0].getT0(), list(range(k))), cands)
        ev = check_cand(c, r, "nested")
        c.prove(eq_seq(ev, [o for d in ds for o in evoccs(d)]), "nested: occurrences of the parts, in order")
    return run


# ---------------------------------------------------------------- concatenation
def h_concat(combos):
    def run(c):
        RM, CM, PM = [loader.load("skmine.periodic." + m) for m in ("run_mine", "candidate", "pattern")]
        f = need(RM, "prepare_candidate_concats")
        shs = c.choice("shapes", combos)
        offs = [c.choice("off%d" % i, [0, 1] if sh[0] > 2 else [0]) for i, sh in enumerate(shs)]
        rmax = min(sh[0] - o for sh, o in zip(shs, offs))
        r0 = c.choice("r0", list(range(2, rmax + 1)) or [rmax])
        ds = [sym_cand(i, sh) for i, sh in enumerate(shs)]
        p0 = sym_int("p0")
        c.payload = lambda mo: {"kind": "concat", "cands": [conc(mo, d) for d in ds], "offs": offs, "r0": r0, "p0": model_value(mo, p0)}
        smalls(c, ds + [{"p0": p0}])
        r = f([mk_cand(CM, PM, d) for d in ds], p0, r0, offs)
        ev = check_cand(c, r, "concat")
        c.prove(eq_seq(ev, want_concat(ds, offs, r0)), "concat: occurrences of the repetitions kept, in order")
    return run


def want_concat(ds, offs, r0):
    out = []
    for ri in range(r0):
        for d, o in zip(ds, offs):
            ev = evoccs(d)
            r = len(ev) if "alpha" in d else d["shape"][0]
            k = len(ev) // r
            out += ev[(o + ri) * k:(o + ri + 1) * k]
    return out


# ---------------------------------------------------------------- factorisation
def fact_shapes(occ):
    """trees with a block whose children are single-child blocks of equal length"""
    out = []
    for sh in shapes(occ, 3, (2, 3), 3, events=4) + shapes(occ, 3, (2, 3), 3, events=1):
        def ok(s):
            if isinstance(s, int):
                return False
            if len(s[1]) > 1 and all(not isinstance(k, int) and len(k[1]) == 1 for k in s[1]) and len({k[0] for k in s[1]}) == 1:
                return True
            return any(ok(k) for k in s[1])
        if ok(sh):
            out.append(sh)
    return out


def buildable(PM, r):
    """the new tree stays a tree one can build on: merging another pattern into it keeps its own events"""
    Q = r.getPattT0E()[0].copy()
    S = PM.Pattern(nodes_of((2, [97, 98]), [3], [2]))
    ev = [o[1] for o in Q.getCovSeq(0)]
    Q.merge(S, 5)
    got = [o[1] for o in Q.getCovSeq(0)]
    return [e for e in got if e not in (97, 98)] == ev and len(got) > len(ev) and got.count(97) == got.count(98)


def h_fact(shs, exact):
    def run(c):
        CM, PM = [loader.load("skmine.periodic." + m) for m in ("candidate", "pattern")]
        sh = c.choice("shape", shs)
        # blocks of one parent share their period so that they can be factorised; `exact`: no corrections
        pin = sym_int("pin", 1)
        ps = [sym_int("p0", 1)] + [pin] * (n_ps(sh) - 1)
        if c.choice("odd", [False, True]):  # a block with a period of its own
            ps[c.choice("which", [1, -1])] = sym_int("podd", 1)
        d = {"shape": sh, "ps": ps, "ds": sym_list("d", n_ds(sh)), "t0": sym_int("t"),
             "E": [0] * (size(sh) - 1) if exact else sym_list("e", size(sh) - 1)}
        c.payload = lambda mo: {"kind": "fact", "cands": [conc(mo, d)]}
        smalls(c, [d])
        cand = mk_cand(CM, PM, d)
        before = evoccs(d)
        out = cand.factorizePattern()
        for r in out:
            ev = check_cand(c, r, "factorized")
            c.prove(eq_multiset(ev, before), "factorized: same occurrences")
            c.prove(buildable(PM, r), "a factorized pattern can be merged with")
        c.prove(eq_seq(cand.getEvOccs(), before), "the factorized candidate is left as it was")
        c.prove(True, "done")
    return run


# ---------------------------------------------------------------- tree operations
def h_ops(shs, subs):
    def run(c):
        PM = loader.load("skmine.periodic.pattern")
        sh = c.choice("shape", shs)
        op = c.choice("op", ["repeat", "append", "merge", "merge2", "copy", "map"])
        sub = c.choice("sub", subs) if op.startswith("merge") else None
        ps, ds, t0 = sym_list("p", n_ps(sh)), sym_list("d", n_ds(sh)), sym_int("t0")
        q, dd = sym_int("q"), sym_int("dd")
        sps, sds = (sym_list("sp", n_ps(sub)), sym_list("sd", n_ds(sub))) if sub else ([], [])
        d = {"kind": "ops", "shape": sh, "op": op, "sub": sub, "ps": ps, "ds": ds, "t0": t0, "q": q, "dd": dd, "sps": sps, "sds": sds}
        c.payload = lambda mo: {k: (v if k in ("kind", "shape", "op", "sub") else (mv(mo, v) if isinstance(v, list) else model_value(mo, v)))
                                for k, v in d.items()}
        smalls(c, [{k: v for k, v in d.items() if k not in ("kind", "shape", "op", "sub")}])
        for got, want, label in apply_op(PM, d):
            c.prove(eq_seq(got, want), label)
    return run


def apply_op(PM, d):
    """yields (generated occurrences, expected occurrences, label)"""
    sh, sub, op = d["shape"], d["sub"], d["op"]
    P = PM.Pattern(nodes_of(sh, d["ps"], d["ds"]))
    base = o_occs(sh, d["ps"], d["ds"], d["t0"])
    Q = P.copy()
    if op == "repeat":
        Q.repeat(3, d["q"])
        yield Q.getCovSeq(d["t0"]), [(t + i * d["q"], e) for i in range(3) for (t, e) in base], "repeat"
    elif op == "append":
        Q.append(7, d["dd"])
        # insert the new distance at the root level: it is the last one of the root's own distances
        n = len(sh[1]) - 1
        yield (Q.getCovSeq(d["t0"]), o_occs((sh[0], sh[1] + [7]), d["ps"], d["ds"][:n] + [d["dd"]] + d["ds"][n:], d["t0"]), "append")
    elif op.startswith("merge"):
        S = PM.Pattern(nodes_of(sub, d["sps"], d["sds"]))
        n = len(sh[1]) - 1
        Q.merge(S, d["dd"])
        ps, ds, s2 = d["ps"] + d["sps"], d["ds"][:n] + [d["dd"]] + d["ds"][n:] + d["sds"], (sh[0], sh[1] + [sub])
        yield Q.getCovSeq(d["t0"]), o_occs(s2, ps, ds, d["t0"]), "merge"
        yield S.getCovSeq(d["t0"]), o_occs(sub, d["sps"], d["sds"], d["t0"]), "merge leaves the merged pattern as it was"
        if op == "merge2":
            Q.merge(S, d["q"])
            n += 1
            ps, ds, s3 = ps + d["sps"], ds[:n] + [d["q"]] + ds[n:] + d["sds"], (sh[0], s2[1] + [sub])
            yield Q.getCovSeq(d["t0"]), o_occs(s3, ps, ds, d["t0"]), "second merge"
    elif op == "map":
        Q.mapEvents({0: "x", 1: "y", 2: "z", 3: "t"})
        yield Q.getCovSeq(d["t0"]), [(t, "xyzt"[e]) for t, e in base], "mapEvents"
    elif op == "copy":
        Q.append(7, d["dd"])
        Q.nodes[0]["p"] = d["q"]
    yield P.getCovSeq(d["t0"]), base, "the original pattern is left as it was"


# ---------------------------------------------------------------- registry
def harnesses(tier):
    q = tier == "quick"
    hs = []
    for n in range(2, 7 if q else 8):
        hs.append(Harness("simple-%d" % n, h_simple(n), "every increasing list of %d integer times, any period or none" % n, conc_cap=1000))
    inner = [(3, 0, LEAF), (4, 0, LEAF), (3, [0, 1]), (3, [(2, [0])]), (2, [0, (2, [1])]), (2, [(2, [0, 1]), 2]), (3, [0, 1, 2]), (11, 0, LEAF), (2, [(2, [(2, [0])]), 1])]
    outers = [(3,), (4,), (3, 3), (2, 3), (2, 2, 2)]
    for i, sh in enumerate(inner):
        hs.append(Harness("nested-%d" % i, h_nested([sh], outers if not q else outers[:3 if size_(sh) < 6 else 2] + (outers[4:] if size_(sh) < 7 else [])),
                          "inner candidate %s nested by every level list of %s; times and corrections: any integers" % (sh, outers)))
    parts = [(3, 0, LEAF), (3, 1, LEAF), (4, 2, LEAF), (3, [0, 1]), (3, [(2, [0])]), (3, [(2, [1]), 2]), (3, [0, (2, [1])]),
             (3, [0, (2, [1, 2])]), (3, [0, 1, 2])] + ([(3, [(2, [0, 1]), (2, [2])]), (4, [(2, [(2, [0])])]), (5, 1, LEAF)])
    two = [list(x) for x in itertools.product(parts, repeat=2)]
    three = [list(x) for x in itertools.product(parts[:8], repeat=3) if sum(size_(s) for s in x) <= (22 if q else 32)]
    long = [[(12, 0, LEAF), (11, 1, LEAF)], [(11, [0, 1]), (12, 2, LEAF)], [(12, 0, LEAF), (12, 1, LEAF), (11, 0, LEAF)], [(3, k, LEAF) for k in range(5)],
            [(11, [(2, [0])]), (11, 1, LEAF)], [(3, [0, 1]), (3, 2, LEAF), (3, [(2, [0])]), (4, 1, LEAF)]]
    hs.append(Harness("concat-long", h_concat(long), "groups of up to 5 candidates and of candidates with up to 12 repetitions, offsets 0-1, every r0", conc_cap=10000, witness_every=5))
    for i in range(6):
        hs.append(Harness("concat2-%d" % i, h_concat(two[i::6]), "every pair of %d candidate shapes, offsets 0-1, every r0" % len(parts), conc_cap=10000,
                          witness_every=5))
        hs.append(Harness("concat3-%d" % i, h_concat(three[i::6]), "triples of candidate shapes up to %d occurrences" % (22 if q else 32), conc_cap=10000,
                          witness_every=5))
    fs = fact_shapes(24 if q else 30)
    fs += [(2, [(2, [k]) for k in range(4)]), (2, [(2, [0])] * 4), (2, [(2, [0]), (2, [1]), (2, [0]), (2, [2])]), (2, [(3, [k]) for k in range(3)]),
           (2, [(2, [0]), (2, [1]), (2, [2]), (3, [3])]), (2, [(3, [0]), (2, [1]), (2, [2])]), (2, [(2, [0]), (2, [1]), (2, [2]), 3])]
    for i in range(4):
        hs.append(Harness("factorize-%d" % i, h_fact(fs[i::4], False), "%d shapes, inner periods >= 1" % len(fs[i::4]), hash_mode="eq", conc_cap=10000))
    os_ = shapes(12 if q else 18, 3, (2, 3), 3)
    hs.append(Harness("treeops", h_ops(os_, [(2, [1]), (2, [0, (2, [1])]), (3, [1, 0])]), "%d shapes, repeat/append/merge/copy/mapEvents" % len(os_),
                      conc_cap=10000, witness_every=5))
    return hs


def size_(sh):
    return sh[0] if sh[-1] == LEAF else size(sh)


def replay(p):
    d = p["data"]
    import skmine.periodic.run_mine as RM
    import skmine.periodic.candidate as CM
    import skmine.periodic.pattern as PM
    pr = []
    k = d["kind"]

    def go():
        for x in d.get("cands", []):
            if "shape" in x:
                x["shape"] = tup(x["shape"])
        if k == "simple":
            cand = CM.Candidate(-1, {"alpha": 1, "occs": list(d["O"]), "p": d["p"]})
            ev = r_check(cand, pr, "simple")
            if ev != [(o, 1) for o in d["O"]]:
                pr.append(["simple-occs", "occurrences %s became %s" % (d["O"], ev)])
            if d["p"] is None:
                g = sorted(b - a for a, b in zip(d["O"], d["O"][1:]))
                want = (g[(len(g) - 1) // 2] + g[len(g) // 2]) // 2
                if cand.getMajorP() != want:
                    pr.append(["period", "period of %s is %s, expected the rounded down median gap %s" % (d["O"], cand.getMajorP(), want)])
        elif k == "nested":
            if not key_format_ok(RM, CM):
                return
            cands = [mk_cand(CM, PM, x) for x in d["cands"]]
            key = nested_key(d["ops"], d["ips"], list(d["outer"]) + d["rs"])
            r = RM.prepare_candidate_nested((0, key, cands[0].getT0(), list(range(len(cands)))), cands)
            ev = r_check(r, pr, "nested")
            if ev != [tuple(o) for x in d["cands"] for o in evoccs(x)]:
                pr.append(["nested-occs", "nested occurrences are not those of the parts"])
        elif k == "concat":
            if not hasattr(RM, "prepare_candidate_concats"):
                return
            r = RM.prepare_candidate_concats([mk_cand(CM, PM, x) for x in d["cands"]], d["p0"], d["r0"], d["offs"])
            ev = r_check(r, pr, "concat")
            want = [tuple(x) for x in want_concat(d["cands"], d["offs"], d["r0"])]
            if ev != want:
                pr.append(["concat-occs", "occurrences %s, expected %s" % (ev, want)])
        elif k == "fact":
            x = d["cands"][0]
            cand = mk_cand(CM, PM, x)
            for r in cand.factorizePattern():
                ev = r_check(r, pr, "factorized")
                if sorted(ev) != sorted(evoccs(x)):
                    pr.append(["fact-occs", "factorization changed the occurrences %s into %s" % (evoccs(x), ev)])
                if not buildable(PM, r):
                    pr.append(["fact-merge", "merging a pattern into the factorized one destroys it"])
            if [tuple(o) for o in cand.getEvOccs()] != [tuple(o) for o in evoccs(x)]:
                pr.append(["fact-orig", "factorization changed the candidate itself"])
        elif k == "ops":
            d["shape"] = tup(d["shape"])
            d["sub"] = tup(d["sub"]) if d["sub"] is not None else None
            for got, want, label in apply_op(PM, d):
                if [tuple(x) for x in got] != [tuple(x) for x in want]:
                    pr.append(["op-" + label, "%s on %s: occurrences %s, expected %s" % (label, d["shape"], got, want)])
    _, err = real(go)
    if err:
        pr.append(err)
    return pr
