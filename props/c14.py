"""C14: occurrences of a periodic pattern and its shift corrections determine each other"""
from .percommon import *

INFO = {"explanation": "Pattern (occurrence generation, corrections, counters) executed on trees of concrete shape whose "
                       "periods, distances, start and corrections are unbounded symbolic integers."}


def tup(sh):
    return sh if isinstance(sh, int) else (sh[0], [tup(c) for c in sh[1]])


def h(shs):
    def run(c):
        sh = c.choice("shape", shs)
        n = size(sh)
        ps, ds = sym_list("p", n_ps(sh)), sym_list("d", n_ds(sh))
        t0 = sym_int("t0")
        Es = sym_list("e", n - 1)
        O = sym_list("o", n)
        c.payload = lambda mo: {"shape": sh, "ps": mv(mo, ps), "ds": mv(mo, ds), "t0": model_value(mo, t0), "E": mv(mo, Es),
                                "O": mv(mo, O)}
        v3 = [E(x) for x in ps + ds + [t0] + Es + O]
        c.small = [z3.And([z3.And(x >= -k, x <= k) for x in v3]) for k in (3, 30, 1000)]
        P = loader.load("skmine.periodic.pattern").Pattern(nodes_of(sh, ps, ds))
        star = P.getOccsStar()
        c.prove(eq_seq([(o[0], o[1]) for o in star], o_occs(sh, ps, ds, 0)), "perfect occurrences")
        want = o_occs(sh, ps, ds, t0, Es)
        cov = P.getCovSeq(t0, Es)
        c.prove(eq_seq(cov, want), "corrected occurrences")
        c.prove(eq_seq(P.getOccs(star, t0, Es), [w[0] for w in want]), "getOccs")
        c.prove(eq_seq(P.getCovSeq(t0), [(o[0] + t0, o[1]) for o in star]), "no corrections")
        c.prove(eq_seq(P.computeEFromO([w[0] for w in cov]), Es), "corrections recovered from occurrences")
        back = P.getCovSeq(O[0], P.computeEFromO(O))
        c.prove(eq_seq(back, list(zip(O, [w[1] for w in want]))), "occurrences recovered from corrections")
        c.prove(P.getNbOccs() == n and P.cardO() == n, "number of occurrences")
        c.prove(list(P.getEventsMinor(rep=True)) == [w[1] for w in want], "events in order")
        c.prove(P.getAlphabet() == {w[1] for w in want} and P.getDepth() == depth(sh), "alphabet, depth")
    return run


def harnesses(tier):
    q = tier == "quick"
    a = [s for s in shapes(24 if q else 32, 3, (2, 3), 3)]
    b = [s for s in shapes(30, 2, (2, 3, 4, 5), 3 if q else 4)]
    wide = [(11, [0]), (12, [0, 1]), (2, [(11, [0]), 1]), (11, [(2, [0, 1])]), (2, [k % 5 for k in range(12)]),
            (2, [(2, [0])] * 4), (2, [0, 1, 2, (2, [0, 1])]), (2, [(2, [0, 1]), 2, 0, 1]), (3, [0, (2, [1]), (2, [2]), 0, 1]),
            (2, [0] * 10 + [(2, [1, 2])] + [1] * 2), (101, [0]), (2, [(11, [(2, [0]), 1])])]
    deep = [s for s in shapes(32 if q else 48, 4, (2,), 2) if depth(s) == 4] + [s for s in shapes(32, 5, (2,), 1) if depth(s) == 5]
    hs = []
    a, b = a + deep[::2], b + wide + deep[1::2]
    for nm, ss in (("depth3", a), ("depth2", b)):
        k = 4
        for i in range(k):
            hs.append(Harness("%s-%d" % (nm, i), h(ss[i::k]),
                              "%d tree shapes (%s, with some of depth 4-5, of more than ten repetitions or children); periods, distances, start, corrections: any integers" % (len(ss[i::k]), nm),
                              conc_cap=10000, witness_every=4))
    return hs


def replay(p):
    d = p["data"]
    from skmine.periodic.pattern import Pattern
    sh = tup(d["shape"])
    pr = []

    def go():
        P = Pattern(nodes_of(sh, d["ps"], d["ds"]))
        star = P.getOccsStar()
        want = o_occs(sh, d["ps"], d["ds"], d["t0"], d["E"])
        if [(o[0], o[1]) for o in star] != o_occs(sh, d["ps"], d["ds"], 0):
            pr.append(["star", "perfect occurrences of %s are wrong: %s" % (sh, star)])
        cov = P.getCovSeq(d["t0"], d["E"])
        if [tuple(x) for x in cov] != want:
            pr.append(["covseq", "occurrences %s, expected %s" % (cov, want)])
        if list(P.getOccs(star, d["t0"], d["E"])) != [w[0] for w in want]:
            pr.append(["occs", "getOccs gave %s, expected %s" % (P.getOccs(star, d["t0"], d["E"]), [w[0] for w in want])])
        if [tuple(x) for x in P.getCovSeq(d["t0"])] != o_occs(sh, d["ps"], d["ds"], d["t0"]):
            pr.append(["noerr", "occurrences without corrections are wrong"])
        Es = P.computeEFromO([w[0] for w in cov])
        if list(Es) != d["E"]:
            pr.append(["E", "corrections %s recovered as %s (%s)" % (d["E"], Es, P)])
        back = P.getCovSeq(d["O"][0], P.computeEFromO(d["O"]))
        if [x[0] for x in back] != d["O"]:
            pr.append(["O", "occurrences %s recovered as %s (%s)" % (d["O"], back, P)])
        if P.getNbOccs() != len(want) or P.cardO() != len(want):
            pr.append(["n", "%s/%s occurrences counted, %d generated" % (P.getNbOccs(), P.cardO(), len(want))])
        if list(P.getEventsMinor(rep=True)) != [w[1] for w in want]:
            pr.append(["events", "getEventsMinor(rep=True) gave %s, expected %s" % (P.getEventsMinor(rep=True), [w[1] for w in want])])
        if P.getAlphabet() != {w[1] for w in want} or P.getDepth() != depth(sh):
            pr.append(["alphabet", "alphabet %s depth %s" % (P.getAlphabet(), P.getDepth())])
    _, err = real(go)
    if err:
        pr.append(err)
    return pr
