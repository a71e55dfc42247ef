"""Concrete event logs for PeriodicPatternMiner and the oracles on everything its public methods return"""
import json
import os
import re
import tempfile
import warnings
import datetime as _dt

# ---------------------------------------------------------------- families of event logs: [(offset, event)]


def fam(name):
    out = []
    if name == "simple":
        out = [(100 * k, "a") for k in range(6)]
    elif name == "short":
        out = [(10 * k, "a") for k in range(4)]
    elif name == "two":
        out = [(60 * k, "a") for k in range(5)] + [(33 + 90 * k, "b") for k in range(5)]
    elif name == "concat2":
        out = [(200 * k, "a") for k in range(5)] + [(200 * k + 7, "b") for k in range(5)]
    elif name == "concat3":
        out = [(300 * k, "a") for k in range(4)] + [(300 * k + 5, "b") for k in range(4)] + [(300 * k + 11, "c") for k in range(4)]
    elif name == "tied":  # different events at the same times
        out = [(150 * k, "a") for k in range(5)] + [(150 * k, "b") for k in range(5)]
    elif name == "nested":
        out = [(500 * k + 6 * i, "a") for k in range(4) for i in range(4)]
    elif name == "nested2":
        out = [(4000 * m + 300 * k + 4 * i, "a") for m in range(3) for k in range(3) for i in range(3)]
    elif name == "mixed":  # a simple event, a block of another event, a third one tied with the start of the block
        out = [(5000 * k + 1, "a") for k in range(5)] + [(5000 * k + 4, "c") for k in range(5)] + \
              [(5000 * k + 4 + 13 * i, "b") for k in range(5) for i in range(3)]
    elif name == "blockfirst":
        out = [(2000 * k + 9 * i, "b") for k in range(4) for i in range(3)] + [(2000 * k + 40, "a") for k in range(4)] + \
              [(2000 * k + 45, "c") for k in range(4)]
    elif name == "twoblocks":
        out = [(3000 * k + 5 * i, "a") for k in range(4) for i in range(3)] + [(3000 * k + 30 + 5 * i, "b") for k in range(4) for i in range(3)]
    elif name == "noise":
        out = [(100 * k, "a") for k in range(5)] + [(17, "x"), (230, "y"), (231, "x"), (377, "y")]
    elif name == "none":  # nothing periodic
        out = [(0, "x"), (17, "y"), (400, "x")]
    elif name == "same":
        out = [(7, "a"), (7, "b")]
    elif name == "same-event":
        out = [(30 * k, "a") for k in range(4)] + [(30 * k + 7, "a") for k in range(4)] + [(30 * k, "b") for k in range(4)]
    elif name == "long":
        out = [(10 * k, "a") for k in range(24)] + [(1000, "b")]
    elif name == "block":  # more than twice the block size of the dynamic programming
        out = [(7 * k, "a") for k in range(95)] + [(7 * 95 + 50 + 11 * k, "a") for k in range(110)]
    else:
        raise KeyError(name)
    return sorted(out)


# ---------------------------------------------------------------- independent reading of what transform() displays
class Parse(Exception):
    pass


p_time_hook = None  # harnesses on symbolic times: what a token stands for


def p_time(s, is_dt):
    s = s.strip()
    if p_time_hook is not None and p_time_hook(s) is not None:
        return p_time_hook(s)
    if not is_dt:
        return int(s)
    m = re.fullmatch(r"(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d)(?:\.(\d+))?", s)
    if not m:
        raise Parse("duration %r" % s)
    d, h, mi, se, us = m.groups()
    us = int((us or "0").ljust(6, "0"))
    return ((int(d or 0) * 86400 + int(h) * 3600 + int(mi) * 60 + int(se)) * 10 ** 6 + us) * 1000


def p_pattern(s, is_dt):
    """'(a [d=7] (b)[r=3 p=2])[r=5 p=100]' -> (r, p, [(d, child)])"""
    i = [0]

    def block():
        if s[i[0]] != "(":
            j = i[0]
            while j < len(s) and s[j] not in "() [":
                j += 1
            ev = s[i[0]:j]
            i[0] = j
            return ev
        i[0] += 1
        kids, d = [], 0
        while True:
            kids.append((d, block()))
            if s.startswith(" [d=", i[0]):
                j = s.index("] ", i[0])
                d = p_time(s[i[0] + 4:j], is_dt)
                i[0] = j + 2
            elif s[i[0]] == ")":
                i[0] += 1
                break
            else:
                raise Parse(s[i[0]:])
        m = re.match(r"\[r=(\d+) p=([^\]]*)\]", s[i[0]:])
        if not m:
            raise Parse(s[i[0]:])
        i[0] += m.end()
        return int(m.group(1)), p_time(m.group(2), is_dt), kids
    r = block()
    if i[0] != len(s):
        raise Parse("trailing " + s[i[0]:])
    return r


def p_occs(tree, t0, E):
    """same definition as percommon.o_occs, on a displayed pattern"""
    it = iter([0] + list(E))
    out = []

    def rec(a, base):
        if isinstance(a, str):
            t = base + next(it)
            out.append((t, a))
            return t
        r, p, kids = a
        first = prev = None
        for k in range(r):
            start = base if k == 0 else prev + p
            cur = None
            for ci, (d, kid) in enumerate(kids):
                cur = rec(kid, start if ci == 0 else cur + d)
                if ci == 0:
                    prev = cur
                    if k == 0:
                        first = cur
        return first
    rec(tree, t0)
    if next(it, None) is not None:
        raise Parse("too many corrections")
    return out


# ---------------------------------------------------------------- series
UNITS = {"int": None, "int1000": None, "ns": 1, "us": 10 ** 3, "ms": 10 ** 6, "s": 10 ** 9, "10s": 10 ** 10, "min": 60 * 10 ** 9,
         "hour": 3600 * 10 ** 9, "day": 86400 * 10 ** 9}


def times_of(desc):
    """[(raw time as integer (ns for dates), event)] in the given order"""
    u = desc["unit"]
    if u == "int":
        k = 1
    elif u == "int1000":
        k = 1000
    else:
        k = UNITS[u]
    base = desc.get("base", 0)
    return [(base + t * k, e) for t, e in desc["points"]]


def series(pd, desc):
    pts = times_of(desc)
    if desc.get("dup"):
        pts = pts + [pts[i] for i in desc["dup"]]
    order = desc.get("order", "sorted")
    if order == "reversed":
        pts = pts[::-1]
    elif order == "rotated":
        pts = pts[len(pts) // 2:] + pts[:len(pts) // 2]
    ev = [evname(desc, e) for _, e in pts]
    if desc["unit"].startswith("int"):
        idx = pd.Index([t for t, _ in pts], dtype="int64")
    else:
        idx = pd.DatetimeIndex([pd.Timestamp(t) for t, _ in pts])
        if desc.get("dtype"):
            idx = idx.as_unit(desc["dtype"])
        if desc.get("tz"):
            idx = idx.tz_localize("UTC")
    return pd.Series(ev, index=idx)


def evname(desc, e):
    if desc.get("evkind") == "int":
        return {"a": 10, "b": 9, "c": 100, "x": 2, "y": 1}[e]
    if desc.get("evkind") == "digits":  # strings that look like numbers, blanks and brackets are kept
        return {"a": "10", "b": "9", "c": "100", "x": "2", "y": "01"}[e]
    return e


def rows(df):
    out = []
    for t, e in zip(df["time"], df["event"]):
        if hasattr(t, "value"):
            t = t.value
        out.append((int(t), e))
    return out


def ns(x):
    """integer value of a displayed time (dates and durations: in ns)"""
    if hasattr(x, "value"):
        return int(x.value)
    if isinstance(x, _dt.timedelta):
        return int(round(x.total_seconds() * 10 ** 9))
    return int(x)


def build(M, pd, desc):
    S = series(pd, desc)
    kw = {}
    if "complex" in desc:
        kw["complex"] = desc["complex"]
    if "auto" in desc:
        kw["auto_time_scale"] = desc["auto"]
    m = M.PeriodicPatternMiner(**kw)
    if desc.get("before"):  # the miner was used before, on other data
        d2 = dict(desc["before"])
        m.fit(series(pd, d2))
        m.transform(None)
        m.reconstruct()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(S)
    return m, S, {(t, evname(desc, e)) for t, e in times_of(desc)}


def lossless(m, data, desc, pr, tag=""):
    """patterns + residuals = data, for the whole collection and for every selection of patterns"""
    isdt = not desc["unit"].startswith("int")
    rec = m.reconstruct()
    res = m.get_residuals()
    R, Z = rows(rec), rows(res)
    n = len(m.transform(None))
    if isdt and (str(rec["time"].dtype) != "datetime64[ns]" or str(res["time"].dtype) != "datetime64[ns]"):
        pr.append([tag + "dtype", "times are not dates: %s %s" % (rec["time"].dtype, res["time"].dtype)])
    if len(set(R)) != len(R) or len(set(Z)) != len(Z):
        pr.append([tag + "duplicates", "duplicate occurrences in %s / %s" % (R, Z)])
    if not set(R) <= data:
        pr.append([tag + "invented", "reconstructed occurrences that are not in the data: %s" % sorted(set(R) - data, key=str)[:5]])
    if set(R) & set(Z):
        pr.append([tag + "overlap", "residuals covered by patterns: %s" % sorted(set(R) & set(Z), key=str)[:5]])
    if set(R) | set(Z) != data:
        pr.append([tag + "lost", "patterns and residuals do not give the data back: missing %s, extra %s" % (
            sorted(data - set(R) - set(Z), key=str)[:5], sorted((set(R) | set(Z)) - data, key=str)[:5])])
    if [t for t, _ in R] != sorted(t for t, _ in R) or [t for t, _ in Z] != sorted(t for t, _ in Z):
        pr.append([tag + "order", "not in chronological order"])
    each = [rows(m.reconstruct([i])) for i in range(n)]
    full = [rows(m.reconstruct([i], sort="construction_order")) for i in range(n)]
    if any(set(a) != set(b) for a, b in zip(each, full)):
        pr.append([tag + "one", "sorting changes the occurrences of a pattern"])
    if set().union(set(), *[set(x) for x in each]) != set(R):
        pr.append([tag + "union", "the occurrences of the patterns taken one by one are not those of all patterns"])
    if sorted(rows(m.reconstruct(sort="event", drop_duplicates=False)), key=str) != sorted(sum(full, []), key=str):
        pr.append([tag + "multi", "reconstruct(sort='event', drop_duplicates=False) differs from the patterns one by one"])
    sels = [[]] + [[i] for i in range(min(n, 3))] + ([[0, n - 1], list(range(n))[::-1]] if n > 1 else [])
    for s in sels:
        want = data - set().union(set(), *[set(each[i]) for i in s])
        got = rows(m.get_residuals(s))
        if set(got) != want or len(got) != len(set(got)):
            pr.append([tag + "residuals-ids", "get_residuals(%s) gave %s, expected %s" % (s, sorted(got, key=str)[:6], sorted(want, key=str)[:6])])
        back = rows(m.reconstruct(s)) if s else []
        if s and set(back) != set().union(*[set(each[i]) for i in s]):
            pr.append([tag + "reconstruct-ids", "reconstruct(%s) is not the union of its patterns" % s])


def shown(m, S, desc, pr, tag=""):
    """what transform() displays describes exactly the occurrences of each pattern"""
    isdt = not desc["unit"].startswith("int")
    df = m.transform(S, dE_sum=False)
    sm = m.transform(S)
    un = m.transform(S, dE_sum=False, chronological_order=False)
    n = len(df)
    if len(sm) != n or len(un) != n:
        pr.append([tag + "rows", "%d patterns, %d/%d/%d rows" % (n, len(df), len(sm), len(un))])
        return
    if n == 0:
        return
    ts = [ns(t) for t in df["t0"]]
    if ts != sorted(ts):
        pr.append([tag + "chrono", "rows are not in chronological order: %s" % ts])
    if list(un.index) != list(range(n)) or sorted(df.index) != list(range(n)):
        pr.append([tag + "ids", "row labels are not the pattern ids"])
        return
    for i in range(n):
        row, sr = df.loc[i], sm.loc[i]
        occ = rows(m.reconstruct([i], sort="construction_order"))
        try:
            tree = p_pattern(row["pattern"], isdt)
            if isinstance(tree, str):
                raise Parse("no block")
            want = p_occs(tree, ns(row["t0"]), [ns(e) for e in row["E"]])
        except (Parse, StopIteration, IndexError, ValueError) as ex:
            pr.append([tag + "unreadable", "cannot read row %s: %r" % (dict(row), ex)])
            continue
        got = [(t, str(e)) for t, e in occ]
        if want != got:
            pr.append([tag + "display", "displayed pattern %s (t0=%s, E=%s) stands for %s but reconstruct gives %s" % (
                row["pattern"], row["t0"], list(row["E"]), want[:6], got[:6])])
        if int(row["repetition_major"]) != tree[0] or ns(row["period_major"]) != tree[1]:
            pr.append([tag + "major", "repetition/period %s/%s of %s" % (row["repetition_major"], row["period_major"], row["pattern"])])
        if ns(sr["sum_E"]) != sum(abs(ns(e)) for e in row["E"]):
            pr.append([tag + "sum_E", "sum_E=%s for E=%s" % (sr["sum_E"], list(row["E"]))])
        u = un.loc[i]
        if u["pattern"] != row["pattern"] or ns(u["t0"]) != ns(row["t0"]) or [ns(e) for e in u["E"]] != [ns(e) for e in row["E"]]:
            pr.append([tag + "unsorted", "chronological_order changes more than the order"])


def view(m, S):
    """everything a user sees, independent of the numbering of the patterns"""
    df = m.transform(S, dE_sum=False)
    r = sorted((ns(a), b, int(c), ns(d), [ns(e) for e in x]) for a, b, c, d, x in
               zip(df["t0"], df["pattern"], df["repetition_major"], df["period_major"], df["E"])) if len(df) else []
    return {"patterns": r, "reconstruct": sorted(rows(m.reconstruct()), key=str), "residuals": sorted(rows(m.get_residuals()), key=str)}


def roundtrip(M, m, S, desc, pr, tag=""):
    d = tempfile.mkdtemp(prefix="sxper")
    f = os.path.join(d, "p.json")
    try:
        v0 = view(m, S)
        m.export_patterns(f)
        if view(m, S) != v0:
            pr.append([tag + "export-changes", "exporting changed the miner"])
        other = M.PeriodicPatternMiner(auto_time_scale=desc.get("auto", True))
        if desc.get("target") == "used":
            pd = __import__("pandas")
            other.fit(pd.Series(["q", "q", "q", "q", "w"], index=[5, 10, 15, 20, 21]))
            other.transform(None)
        other.import_patterns(f)
        v1 = view(other, S)
        for k in v0:
            if v0[k] != v1[k]:
                pr.append([tag + "import-" + k, "%s before export %s, after import %s" % (k, v0[k][:4], v1[k][:4])])
        other.export_patterns(f)
        third = M.PeriodicPatternMiner(auto_time_scale=desc.get("auto", True))
        third.import_patterns(f)
        v2 = view(third, S)
        for k in v0:
            if v0[k] != v2[k]:
                pr.append([tag + "reimport-" + k, "%s before export %s, after a second export and import %s" % (k, v0[k][:4], v2[k][:4])])
    finally:
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        os.rmdir(d)


def problems(M, desc, what):
    import pandas as pd
    pr = []
    m, S, data = build(M, pd, desc)
    if "lossless" in what:
        lossless(m, data, desc, pr)
    if "shown" in what:
        shown(m, S, desc, pr)
    if "roundtrip" in what:
        roundtrip(M, m, S, desc, pr)
    if "lossless" in what and "shown" in what:
        lossless(m, data, desc, pr, "after transform: ")
    return pr
