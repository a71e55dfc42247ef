"""PeriodicPatternMiner executed from end to end on symbolic times: data, oracles proved by the solver, replays"""
import contextlib
import datetime as _dt

import pandas as pd

from . import perfacade as F
from .percommon import *
from symx import values as _values

TMAX = 9 * 10 ** 18
DAY = 86400 * 10 ** 9


@contextlib.contextmanager
def tokens():
    """text shown to the user keeps symbolic numbers as tokens"""
    _values.STR_MODE = "token"
    try:
        yield
    finally:
        _values.STR_MODE = "concrete"


# ------------------------------------------------------------------------------------------ what the user sees
def rows(df):
    return [(val(t), e) for t, e in zip(df["time"].tolist(), df["event"].tolist())]


def val(x):
    if isinstance(x, Sym):
        return x
    return F.ns(x)


F.p_time_hook = lambda s: _values.TOKENS.get(s)


def distinct(L):
    cs = [E(L[i][0]) != E(L[j][0]) for i in range(len(L)) for j in range(i) if L[i][1] == L[j][1]]
    return z3.And(cs) if cs else z3.BoolVal(True)


def member(x, L):
    return z3.Or([E(x[0]) == E(y[0]) for y in L if y[1] == x[1]])


def eq_set(A, B):
    return z3.And([member(x, B) for x in A] + [member(x, A) for x in B])


def chrono(L):
    return z3.And([E(L[i][0]) <= E(L[i + 1][0]) for i in range(len(L) - 1)] + [z3.BoolVal(True)])


def check_lossless(c, m, data, tag="", n=None):
    """data: distinct (time, event) pairs"""
    R, Z = rows(m.reconstruct()), rows(m.get_residuals())
    c.prove(distinct(R + Z), tag + "an occurrence appears twice in patterns and residuals")
    c.prove(eq_multiset(R + Z, data), tag + "patterns and residuals do not give the data back")
    c.prove(z3.And(chrono(R), chrono(Z)), tag + "not in chronological order")
    n = n_patterns(m) if n is None else n
    each = [rows(m.reconstruct([i])) for i in range(n)]
    full = [rows(m.reconstruct([i], sort="construction_order")) for i in range(n)]
    for a, b in zip(each, full):
        c.prove(z3.And(eq_set(a, b), distinct(a)), tag + "sorting changes the occurrences of a pattern")
    c.prove(eq_set(R, sum(each, [])), tag + "all patterns differ from patterns one by one")
    allr = rows(m.reconstruct(sort="event", drop_duplicates=False))
    c.prove(eq_multiset(allr, sum(full, [])), tag + "duplicates are not kept")
    for s in [[]] + [[i] for i in range(min(n, 2))] + ([[n - 1, 0]] if n > 1 else []):
        got = rows(m.get_residuals(s))
        cov = sum([each[i] for i in s], [])
        c.prove(z3.And(distinct(got), eq_set(got + cov, data), *[z3.Not(member(x, cov)) for x in got]),
                tag + "residuals of a selection of patterns are not its complement")
        if s:
            c.prove(eq_set(rows(m.reconstruct(s)), cov), tag + "a selection of patterns is not the union of its patterns")


def n_patterns(m):
    with tokens():
        return len(m.transform(None))


def table(m, S, is_dt, **kw):
    with tokens():
        df = m.transform(S, **kw)
    return df


def check_shown(c, m, S, is_dt, tag="", n=None):
    df, sm, un = table(m, S, is_dt, dE_sum=False), table(m, S, is_dt), table(m, S, is_dt, dE_sum=False, chronological_order=False)
    n = len(df) if n is None else n
    c.prove(len(df) == n and len(sm) == n and len(un) == n, tag + "number of rows")
    if not n:
        return
    ts = [val(t) for t in df["t0"].tolist()]
    c.prove(chrono([(t, 0) for t in ts]), tag + "rows in chronological order")
    c.prove(list(un.index) == list(range(n)) and sorted(df.index) == list(range(n)) and list(sm.index) == list(df.index),
            tag + "row labels are the pattern ids")
    for i in range(n):
        row, sr, u = df.loc[i], sm.loc[i], un.loc[i]
        occ = rows(m.reconstruct([i], sort="construction_order"))
        tree = F.p_pattern(row["pattern"], is_dt)
        Es = [val(e) for e in row["E"]]
        want = F.p_occs(tree, val(row["t0"]), Es)
        c.prove(eq_seq(want, [(t, str(e)) for t, e in occ]), tag + "displayed pattern describes other occurrences")
        c.prove(z3.And(E(row["repetition_major"]) == E(tree[0]), E(val(row["period_major"])) == E(tree[1])), tag + "major period")
        c.prove(E(val(sr["sum_E"])) == z3.Sum([z3.IntVal(0)] + [z3.If(E(e) >= 0, E(e), -E(e)) for e in Es]), tag + "sum of corrections")
        c.prove(z3.And(E(val(u["t0"])) == E(val(row["t0"])), eq_seq(Es, [val(e) for e in u["E"]]),
                       same_tree(tree, F.p_pattern(u["pattern"], is_dt))), tag + "order changes content")
        c.prove(z3.And(E(val(sr["t0"])) == E(val(row["t0"])), same_tree(tree, F.p_pattern(sr["pattern"], is_dt))), tag + "sum changes content")


def same_tree(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return z3.BoolVal(a == b)
    if len(a[2]) != len(b[2]):
        return z3.BoolVal(False)
    return z3.And([E(a[0]) == E(b[0]), E(a[1]) == E(b[1])] +
                  [z3.And(E(x[0]) == E(y[0]), same_tree(x[1], y[1])) for x, y in zip(a[2], b[2])])


def view(m, S, is_dt):
    df = table(m, S, is_dt, dE_sum=False)
    pats = []
    for i in list(df.index):
        row = df.loc[i]
        pats.append((F.p_pattern(row["pattern"], is_dt), val(row["t0"]), [val(e) for e in row["E"]],
                     row["repetition_major"], val(row["period_major"])))
    return pats, rows(m.reconstruct()), rows(m.get_residuals())


def same_pat(a, b):
    return z3.And(same_tree(a[0], b[0]), E(a[1]) == E(b[1]), eq_seq(a[2], b[2]), E(a[3]) == E(b[3]), E(a[4]) == E(b[4]))


def same_view(v, w):
    if len(v[0]) != len(w[0]):
        return z3.BoolVal(False)
    cs = [z3.Sum([z3.If(same_pat(a, x), 1, 0) for x in v[0]]) == z3.Sum([z3.If(same_pat(a, x), 1, 0) for x in w[0]]) for a in v[0]]
    return z3.And(cs + [eq_multiset(v[1], w[1]), eq_multiset(v[2], w[2])])


def check_roundtrip(c, M, m, S, is_dt, auto, used=False):
    d = F.tempfile.mkdtemp(prefix="sxper")
    f = F.os.path.join(d, "p.json")
    try:
        v0 = view(m, S, is_dt)
        with tokens():
            m.export_patterns(f)
        c.prove(same_view(v0, view(m, S, is_dt)), "exporting changed the miner")
        other = M.PeriodicPatternMiner(auto_time_scale=auto)
        if used:
            other.fit(pd.Series(["q", "q", "q", "q", "w"], index=[5, 10, 15, 20, 21]))
            other.transform(None)
        other.import_patterns(f)
        c.prove(same_view(v0, view(other, S, is_dt)), "import gives another miner")
        with tokens():
            other.export_patterns(f)
        third = M.PeriodicPatternMiner(auto_time_scale=auto)
        third.import_patterns(f)
        c.prove(same_view(v0, view(third, S, is_dt)), "second export and import gives another miner")
    finally:
        for x in F.os.listdir(d):
            F.os.remove(F.os.path.join(d, x))
        F.os.rmdir(d)


# ------------------------------------------------------------------------------------------ data
ORDERS = ["sorted", "reversed", "rotated", "events"]


def reorder(pts, order):
    if order == "reversed":
        return pts[::-1]
    if order == "rotated":
        return pts[len(pts) // 2:] + pts[:len(pts) // 2]
    if order == "events":
        return sorted(pts, key=lambda x: x[1], reverse=True)
    return pts


def sym_series(raw, is_dt, evkind="str"):
    ev = [F.evname({"evkind": evkind}, e) for _, e in raw]
    idx = loader.SymDatetimeIndex([t for t, _ in raw]) if is_dt else pd.Index([t for t, _ in raw], dtype=object)
    return pd.Series(ev, index=idx)


def perturb(c, pts, kinds, width=1):
    """pts [(offset, event)] -> perturbed: one occurrence moved by a symbolic amount, dropped or repeated"""
    k = c.choice("change", kinds)
    if k == "none":
        return pts, k
    i = c.choice("which", list(range(len(pts))))
    if k == "move":
        j = sym_int("move", -width, width)
        c.assume(j.e != 0)
        return pts[:i] + [(pts[i][0] + j, pts[i][1])] + pts[i + 1:], k
    if k == "drop":
        return pts[:i] + pts[i + 1:], k
    if k == "repeat":
        return pts + [pts[i]], k
    raise KeyError(k)


def run_miner(fams, scales, kinds, autos, orders=("sorted",), complexs=(True,), changes=("none",), evkinds=("str",),
              befores=(None,), what=("lossless",), width=1, used=(False,)):
    def run(c):
        name = c.choice("family", list(fams))
        pts = F.fam(name)
        sc = c.choice("scale", list(scales))
        kind = c.choice("kind", list(kinds))
        auto = c.choice("auto", list(autos))
        order = c.choice("order", list(orders))
        cx = c.choice("complex", list(complexs))
        ek = c.choice("evkind", list(evkinds))
        bef = c.choice("before", list(befores))
        us = c.choice("used", list(used))
        b = sym_int("base")
        pts, change = perturb(c, pts, list(changes), width)
        raw = reorder([((b + t) * sc, e) for t, e in pts], order)
        is_dt = kind != "int"
        for t, _ in raw:
            c.assume(z3.And(E(t) < TMAX, E(t) > -TMAX))
        c.payload = lambda mo: {"points": [[model_value(mo, t), e] for t, e in raw], "unit": "int" if not is_dt else "ns",
                                "auto": auto, "complex": cx, "evkind": ek, "order": "given", "what": list(what),
                                "before": bef, "target": "used" if us else None}
        c.small = [z3.And(b.e >= -k, b.e <= k) for k in (9, 1000)]
        if sum(map(ord, name + kind + str(auto))) % 2 or is_dt and sc < 10 ** 9:  # concrete runs on today's dates
            now = 1605712345678901234 // sc
            c.small.insert(0, z3.And(b.e >= now, b.e <= now + 1000))
        data = [(t, F.evname({"evkind": ek}, e)) for t, e in (raw if change != "repeat" else reorder([((b + t) * sc, e) for t, e in pts[:-1]], order))]
        if change == "move":
            c.assume(distinct(data))
        M = loader.load("skmine.periodic.cycles")
        S = sym_series(raw, is_dt, ek)
        m = M.PeriodicPatternMiner(complex=cx, auto_time_scale=auto)
        if bef:
            m.fit(F.series(pd, dict(bef)))
            m.transform(None)
            m.reconstruct()
        m.fit(S)
        if "lossless" in what:
            check_lossless(c, m, data)
        if "shown" in what:
            check_shown(c, m, S, is_dt)
            if "lossless" not in what:
                R, Z = rows(m.reconstruct()), rows(m.get_residuals())
                c.prove(eq_multiset(R + Z, data), "transform changed the model")
        if "roundtrip" in what:
            check_roundtrip(c, M, m, S, is_dt, auto, us)
    return run


def replay_miner(d):
    d = dict(d)
    d["points"] = [tuple(x) for x in d["points"]]
    from skmine.periodic import cycles as M
    pr = []

    def go():
        pr.extend(F.problems(M, d, d["what"]))
    with __import__("warnings").catch_warnings():
        __import__("warnings").simplefilter("ignore")
        _, err = real(go)
    if err:
        pr.append(err)
    return pr


# ------------------------------------------------------------------------------------------ imported patterns
EV = "abcde"


def file_of(trees, ts, Es, data, n_zeros, div, is_dt):
    """what export_patterns writes (documented keys), for patterns given as trees"""
    pats = []
    for nodes, t0, es in zip(trees, ts, Es):
        p = dict(nodes)
        p["next_id"] = len(nodes)
        p["t0"], p["E"] = t0, es
        pats.append(p)
    return {"is_datetime_": is_dt, "n_zeros_": n_zeros, "div_nb_sec_": div, "data_details": data, "patterns": pats}


UNIT_SCALES = [(0, 1), (1, 1), (3, 1), (8, 1), (9, 1), (9, 60), (9, 3600), (9, 86400)]


def run_repeated(scales, kinds, what):
    """imported patterns that generate some of their occurrences twice (their occurrences in a log are those, once each)"""
    def run(c):
        sh, dup = c.choice("shape", [((3, [0, 0]), [0, 1, 1, 2, 2, 3]), ((2, [(2, [0])]), [0, 1, 1, 2]), ((2, [0, 1, 0]), [0, 0, 1, 1, 1, 2])])
        nz, div = c.choice("scale", scales)
        is_dt = c.choice("kind", kinds) == "dt"
        sc = 10 ** nz * div
        p, t0 = sym_int("p", 1), sym_int("t0")
        ps = [p] * n_ps(sh)
        if sh == (2, [0, 1, 0]):
            ds = [0, p]
        else:
            ds = [p] * n_ds(sh)
        Es = [0] * (size(sh) - 1)
        occ = [(t0 + k * p, EV[e]) for k, (_, e) in zip(dup, o_occs(sh, [1] * n_ps(sh), [1] * n_ds(sh), 0))]
        pts, seen = [], set()
        for k, (t, e) in zip(dup, occ):
            if (k, e) not in seen:
                seen.add((k, e))
                pts.append((t, e))
        z = sym_int("z")
        c.assume(E(z) > E(pts[-1][0]))
        y = sym_int("y")
        c.assume(E(y) < E(pts[0][0]))
        pts += [(z, "a"), (y, "b")]
        for t, _ in pts + [(p, 0)]:
            c.assume(z3.And(E(t) * sc < TMAX, E(t) * sc > -TMAX))
        if is_dt and sc % 1000:
            c.assume(E(p) % 1000 == 0)
        c.payload = lambda mo: {"imported": True, "shapes": [sh], "ps": [mv(mo, ps)], "ds": [[d if isinstance(d, int) else model_value(mo, d) for d in ds]],
                                "t0": [model_value(mo, t0)], "E": [Es], "points": [[model_value(mo, t), e] for t, e in pts],
                                "n_zeros": nz, "div": div, "is_dt": is_dt, "what": list(what)}
        c.small = [z3.And([z3.And(E(v) >= -k, E(v) <= k) for v in (p, t0, y, z)]) for k in (9, 1000, 10 ** 6)]
        data = {}
        for t, e in pts:
            data.setdefault(e, []).append(t)
        M = loader.load("skmine.periodic.cycles")
        m = import_file(M, loader._substitutes()["json"], file_of([nodes_of(sh, ps, ds)], [t0], [Es], data, nz, div, is_dt))
        want = [(t * sc, e) for t, e in pts]
        if "lossless" in what:
            check_lossless(c, m, want, n=1)
        if "roundtrip" in what:
            check_roundtrip(c, M, m, None, is_dt, True)
    return run


def import_file(M, J, content):
    d = F.tempfile.mkdtemp(prefix="sxper")
    f = F.os.path.join(d, "p.json")
    try:
        with open(f, "w") as fh:
            J.dump(content, fh)
        m = M.PeriodicPatternMiner()
        m.import_patterns(f)
    finally:
        F.os.remove(f)
        F.os.rmdir(d)
    return m


def run_imported(shs, scales, kinds, increasing, what, residual=True, pairs=None):
    """patterns read from a file: every tree of the shapes, periods, distances, start and corrections symbolic"""
    def run(c):
        shapes_ = [c.choice("shape", shs)]
        if pairs:
            shapes_.append(c.choice("shape2", pairs))
        nz, div = c.choice("scale", scales)
        is_dt = c.choice("kind", kinds) == "dt"
        ps, ds, t0s, Es, trees, occs = [], [], [], [], [], []
        for k, sh in enumerate(shapes_):
            ps.append(sym_list("p%d_" % k, n_ps(sh), 1))
            ds.append(sym_list("d%d_" % k, n_ds(sh), 0))
            t0s.append(sym_int("t0_%d" % k))
            Es.append(sym_list("e%d_" % k, size(sh) - 1))
            trees.append(nodes_of(sh, ps[k], ds[k]))
            occs.append(o_occs(sh, ps[k], ds[k], t0s[k], Es[k]))
        sc = 10 ** nz * div
        pts = []
        for oc in occs:
            if increasing:
                for x, y in zip(oc, oc[1:]):
                    c.assume(E(x[0]) < E(y[0]))
            pts += [(t, EV[e]) for t, e in oc]
        if pairs:  # the second pattern comes after the first, or they are the same occurrences shifted onto each other
            c.assume(E(occs[1][0][0]) > E(occs[0][-1][0]))
        if residual:
            z = sym_int("z")
            c.assume(E(z) > E(pts[-1][0]))
            pts.append((z, "a"))
        for t, _ in pts:
            c.assume(z3.And(E(t) * sc < TMAX, E(t) * sc > -TMAX))
        for v in sum(ps + ds + Es, []):
            c.assume(z3.And(E(v) * sc < TMAX, E(v) * sc > -TMAX))
        if is_dt and sc % 1000:  # durations are shown to the micro-second
            for v in sum(ps + ds, []):
                c.assume(E(v) % 1000 == 0)
        if not increasing:
            c.assume(distinct(pts))
        c.payload = lambda mo: {"imported": True, "shapes": shapes_, "ps": [mv(mo, x) for x in ps], "ds": [mv(mo, x) for x in ds],
                                "t0": mv(mo, t0s), "E": [mv(mo, x) for x in Es], "points": [[model_value(mo, t), e] for t, e in pts],
                                "n_zeros": nz, "div": div, "is_dt": is_dt, "what": list(what)}
        allv = [E(v) for v in sum(ps + ds + Es, []) + t0s]
        c.small = [z3.And([z3.And(v >= -k, v <= k) for v in allv]) for k in (5, 1000, 10 ** 6)]
        data = {}
        for t, e in pts:
            data.setdefault(e, []).append(t)
        M = loader.load("skmine.periodic.cycles")
        J = loader._substitutes()["json"]
        d = F.tempfile.mkdtemp(prefix="sxper")
        f = F.os.path.join(d, "p.json")
        try:
            with open(f, "w") as fh:
                J.dump(file_of(trees, t0s, Es, data, nz, div, is_dt), fh)
            m = M.PeriodicPatternMiner()
            m.import_patterns(f)
        finally:
            F.os.remove(f)
            F.os.rmdir(d)
        want = [(t * sc, e) for t, e in pts]
        if "lossless" in what:
            check_lossless(c, m, want, n=len(shapes_))
            for k, oc in enumerate(occs):
                c.prove(eq_seq(rows(m.reconstruct([k], sort="construction_order")), [(t * sc, EV[e]) for t, e in oc]), "occurrences of an imported pattern")
        if "shown" in what:
            check_shown(c, m, None, is_dt, n=len(shapes_))
        if "roundtrip" in what:
            check_roundtrip(c, M, m, None, is_dt, True)
    return run


def replay_imported(d):
    from skmine.periodic import cycles as M
    pr = []
    shs = [tup(s) for s in d["shapes"]]
    data = {}
    for t, e in d["points"]:
        data.setdefault(e, []).append(t)
    trees = [nodes_of(s, p, x) for s, p, x in zip(shs, d["ps"], d["ds"])]
    desc = {"unit": "ns" if d["is_dt"] else "int"}
    sc = 10 ** d["n_zeros"] * d["div"]

    def go():
        tmp = F.tempfile.mkdtemp(prefix="sxper")
        f = F.os.path.join(tmp, "p.json")
        try:
            with open(f, "w") as fh:
                F.json.dump(file_of(trees, d["t0"], d["E"], data, d["n_zeros"], d["div"], d["is_dt"]), fh)
            m = M.PeriodicPatternMiner()
            m.import_patterns(f)
        finally:
            F.os.remove(f)
            F.os.rmdir(tmp)
        want = {(t * sc, e) for t, e in d["points"]}
        if "lossless" in d["what"]:
            F.lossless(m, want, desc, pr)
            for k, s in enumerate(shs):
                occ = [(t * sc, EV[e]) for t, e in o_occs(s, d["ps"][k], d["ds"][k], d["t0"][k], d["E"][k])]
                got = F.rows(m.reconstruct([k], sort="construction_order"))
                if got != occ:
                    pr.append(["imported", "pattern %s t0=%s E=%s read from a file gives %s, expected %s" % (trees[k], d["t0"][k], d["E"][k], got[:6], occ[:6])])
        if "shown" in d["what"]:
            F.shown(m, None, desc, pr)
        if "roundtrip" in d["what"]:
            F.roundtrip(M, m, None, desc, pr)
    with __import__("warnings").catch_warnings():
        __import__("warnings").simplefilter("ignore")
        _, err = real(go)
    if err:
        pr.append(err)
    return pr


def tup(sh):
    return sh if isinstance(sh, int) else (sh[0], [tup(c) for c in sh[1]])


def replay_any(p):
    return replay_imported(p["data"]) if p["data"].get("imported") else replay_miner(p["data"])
