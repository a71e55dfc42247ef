"""C27: files of transactions are read, split and described exactly"""
import math
import os
import tempfile

import numpy as np
import pandas as pd

from .common import *
from symx.engine import Unsupported
from symx.symstr import SymStr, str_value

INFO = {"explanation": "fetch_file and the fetch_* readers executed on files of symbolic text (every character symbolic); describe and describe_logs on "
                       "symbolic datasets."}
MOD, UM = "skmine.datasets.fimi", "skmine.datasets.utils"


def chars(c, n, alphabet):
    """n characters; alphabet: list of (lo, hi) code points"""
    out = []
    for i in range(n):
        v = z3.Int("ch%d" % i)
        c.inputs["ch%d" % i] = v
        c.assume(z3.Or([z3.And(v >= lo, v <= hi) for lo, hi in alphabet]))
        out.append(v)
    return out


def parse(text, is_sep, is_nl):
    """transactions of a text (a sequence of characters); tokens are lists of characters"""
    lines, cur = [], []
    for x in text:
        if is_nl(x):
            lines.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        lines.append(cur)
    out = []
    for l in lines:
        t, tok = [], []
        for x in l:
            if is_sep(x):
                t, tok = t + ([tok] if tok else []), []
            else:
                tok.append(x)
        out.append(t + ([tok] if tok else []))
    return out


def pick(f, rows):
    """expected (X, y) of fetch_*(return_y=True)"""
    if f == "fetch_mushroom":  # 1: poisonous, 2: edible
        return [r[1:] for r in rows], [(1 if r[0] == 1 else 0) if isinstance(r[0], int) else SymInt(z3.If(r[0].e == 1, z3.IntVal(1), z3.IntVal(0))) for r in rows]
    return [r[:-1] for r in rows], [r[-1] for r in rows]


NAMES = {"fetch_chess": "chess.dat", "fetch_mushroom": "mushroom.dat", "fetch_iris": "iris.D19.N150.C3.num.gz", "fetch_retail": "retail.dat"}
FETCH = [("fetch_chess", {}), ("fetch_mushroom", {}), ("fetch_mushroom", {"return_y": True}), ("fetch_iris", {}), ("fetch_iris", {"return_y": True}), ("fetch_retail", {})]


def wanted(token, ints):
    if not ints:
        return SymStr(token)
    e = z3.IntVal(0)
    for x in token:
        e = e * 10 + (x - 48)
    return SymInt(z3.simplify(e))


def same(got, want):
    """z3: two nested lists are equal"""
    if isinstance(want, list):
        if not isinstance(got, (list, tuple, np.ndarray)) or len(got) != len(want):
            return z3.BoolVal(False)
        return z3.And([same(g, w) for g, w in zip(got, want)] + [z3.BoolVal(True)])
    if isinstance(want, SymStr):
        if not isinstance(got, (SymStr, str)):
            return z3.BoolVal(False)
        return want._eq(SymStr.chars(got))
    return E(got) == want.e if isinstance(got, (int, np.integer, Sym)) else z3.BoolVal(False)


def h_read(n, sep, ints, fetch=False):
    so = ord(sep)

    def run(c):
        item = [(48, 57)] if ints else [(33, so - 1), (so + 1, 126)]
        item = [(a, b) for a, b in item if a <= b]
        if so < 33:
            item = [(48, 57)] if ints else [(33, 126)]
        cs = chars(c, n, item + [(so, so), (10, 10)])
        f, kw = c.choice("fetch", FETCH) if fetch else ("fetch_file", {})
        text = SymStr(cs)
        c.payload = lambda mo: {"k": "read", "text": str_value(mo, text), "sep": sep, "ints": ints, "f": f, "kw": kw}
        m = loader.load(MOD)
        d = tempfile.mkdtemp()
        p = os.path.join(d, NAMES.get(f, "some.file.dat"))
        try:
            if fetch:
                open(p, "w").close()
            loader.TEXTS[p] = text
            rows = None
            if kw:  # a class for every transaction
                rows = parse(cs, lambda x: c.branch(x == so), lambda x: c.branch(x == 10))
                if not rows or any(not r for r in rows):
                    return
                if f == "fetch_mushroom":
                    for r in rows:
                        e = wanted(r[0], True).e
                        c.assume(z3.Or(e == 1, e == 2))
            try:
                if fetch:
                    r = getattr(m, f)(data_home=d, **kw)
                elif sep == " ":
                    r = m.fetch_file(p, int_values=ints) if ints else m.fetch_file(p)
                else:
                    r = m.fetch_file(p, separator=sep, int_values=ints)
            except FileNotFoundError:
                raise Unsupported("the file is read in a way that is not modelled")
        finally:
            del loader.TEXTS[p]
            if fetch:
                os.remove(p)
            os.rmdir(d)
        rows = rows if rows is not None else parse(cs, lambda x: c.branch(x == so), lambda x: c.branch(x == 10))
        want = [[wanted(t, ints) for t in r] for r in rows]
        if kw:
            X, y = pick(f, want)
            c.prove(same(list(r[0]), X), "%s: other transactions than in the file" % f)
            c.prove(same(list(r[1]), y), "%s: other labels than in the file" % f)
        else:
            c.prove(z3.BoolVal(isinstance(r, pd.Series)), "%s: no Series" % f)
            c.prove(same(list(r), want), "%s: other transactions than in the file" % f)
    return run


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)))


def o_describe(D):
    items = {i for t in D for i in t}
    avg = sum(len(t) for t in D) / len(D)
    return {"n_items": len(items), "n_transactions": len(D), "avg_transaction_size": avg, "density": avg / len(items)}


def h_describe(n, m):
    def run(c):
        db = BDB(c, [0, "a", "b", 7][:m], n, nonempty_rows=False)
        c.assume(z3.Or([b for r in db.bits for b in r]))
        c.payload = lambda mo: {"k": "describe", "D": db.concrete(mo)}
        D = db.rows(c)
        r = loader.load(UM).describe(pd.Series(D, index=range(3, 3 + n)))
        w = o_describe(D)
        c.prove(z3.BoolVal(set(w) == set(r) and all(close(r[k], w[k]) for k in w)), "describe: %r, expected %r" % (r, w))
    return run


EVENTS = ["a", "ab", "aab", "aba", "abab", "abc", "abca", "aaaa"]


def h_logs(evs):
    def run(c):
        ev = c.choice("events", evs)
        ts = [sym_int("t%d" % i) for i in range(len(ev))]
        c.payload = lambda mo: {"k": "logs", "events": list(ev), "times": [model_value(mo, t) for t in ts]}
        r = loader.load(UM).describe_logs(pd.Series(list(ev), index=pd.Index(ts, dtype=object)))
        kinds = sorted(set(ev))
        spans = []
        for k in kinds:
            x = [t.e for t, e in zip(ts, ev) if e == k]
            hi = lo = x[0]
            for v in x[1:]:
                hi, lo = z3.If(v > hi, v, hi), z3.If(v < lo, v, lo)
            spans.append(hi - lo)
        c.prove(z3.BoolVal(r["n_events"] == len(kinds) and close(r["avg_nb_points_per_event"], len(ev) / len(kinds))), "describe_logs: numbers")
        got = r["avg_delta_per_event"]
        e = E(got)
        c.prove((z3.ToReal(e) if e.is_int() else e) * len(kinds) == z3.ToReal(z3.Sum(spans)), "describe_logs: average delta")
    return run


def harnesses(tier):
    q = tier == "quick"
    n = 6 if q else 8
    W = dict(witness_every=5)
    return [Harness("text", h_read(n, " ", False), "every file of %d printable characters, spaces and line ends" % n, **W),
            Harness("commas", h_read(n - 1, ",", False), "the same with another separator (%d characters)" % (n - 1), **W),
            Harness("tabs", h_read(n - 1, "\t", False), "the same with another separator (%d characters)" % (n - 1), **W),
            Harness("ints", h_read(n, " ", True), "every file of %d digits, spaces and line ends, read as integers" % n, **W),
            Harness("ints-commas", h_read(n - 1, ";", True), "integers with another separator", **W),
            Harness("fetch", h_read(5 if q else 6, " ", True, True), "datasets that were downloaded before (any text of 5 characters), labels split off", **W),
            Harness("empty", h_read(0, " ", False), "the empty file", **W),
            Harness("describe", h_describe(3, 3 if q else 4), "3 transactions of any of 3 items", **W),
            Harness("logs", h_logs(EVENTS if q else EVENTS + ["abcabc", "aabbab"]), "logs of up to 4 occurrences at any integer times in any order", **W)]


def replay(p):
    d = p["data"]
    bad = []

    def prove(cond, msg):
        if not cond:
            bad.append([msg, msg])
    if d["k"] == "read":
        import gzip
        from skmine.datasets import fimi
        rows = parse(d["text"], lambda x: x == d["sep"], lambda x: x == "\n")
        want = [[int("".join(t)) if d["ints"] else "".join(t) for t in r] for r in rows]
        f, kw = d["f"], d["kw"]
        with tempfile.TemporaryDirectory() as t:
            path = os.path.join(t, NAMES.get(f, "some.file.dat"))
            with (gzip.open(path, "wt") if f == "fetch_iris" else open(path, "w")) as h:
                h.write(d["text"])
            if f == "fetch_file":
                a = {} if d["sep"] == " " else {"separator": d["sep"]}
                r, err = real(lambda: fimi.fetch_file(path, **dict(a, **({"int_values": True} if d["ints"] else {}))))
            else:
                r, err = real(lambda: getattr(fimi, f)(data_home=t, **kw))
        if kw and (not want or any(not r for r in want) or (f == "fetch_mushroom" and any(r[0] not in (1, 2) for r in want))):
            return []
        if err:
            return [err]
        if kw:
            X, y = pick(f, want)
            prove([list(x) for x in r[0]] == X and list(r[1]) == y, "%s%s: %r, in the file %r" % (f, kw, [list(x) for x in r], want))
        else:
            prove([list(x) for x in r] == want, "%s: %r, in the file %r" % (f, r.tolist(), want))
    elif d["k"] == "describe":
        from skmine.datasets.utils import describe
        r, err = real(lambda: describe(pd.Series(d["D"], index=range(3, 3 + len(d["D"])))))
        if err:
            return [err]
        w = o_describe(d["D"])
        prove(set(w) == set(r) and all(close(r[k], w[k]) for k in w), "describe: %r, expected %r" % (r, w))
    else:
        from skmine.datasets.utils import describe_logs
        ev, ts = d["events"], d["times"]
        idx = [ts, pd.to_datetime([t % 10 ** 9 for t in ts], unit="s")]
        for k, ix in enumerate(idx):
            s = pd.Series(ev, index=ix)
            r, err = real(lambda: describe_logs(s))
            if err:
                return [err]
            spans = [(s.index[s.values == e].max() - s.index[s.values == e].min()) for e in sorted(set(ev))]
            w = sum(spans[1:], spans[0]) / len(spans)
            g = r["avg_delta_per_event"]
            prove(r["n_events"] == len(spans) and close(r["avg_nb_points_per_event"], len(ev) / len(spans)), "describe_logs: %r" % r)
            prove(abs(g - w) <= pd.Timedelta("1us") if k else close(g, w), "describe_logs: average delta %r, expected %r" % (g, w))
    return bad
