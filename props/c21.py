"""C21: MDLPDiscretizer: cut points of the MDL criterion, and transform maps each value to its interval"""
import functools
import math

import numpy as np
import pandas as pd

from .common import *

INFO = {"explanation": "MDLPDiscretizer.fit and transform executed on columns of symbolic numbers for every label sequence within bounds; the cut "
                       "points are compared with the recursive minimal-entropy partitioning under the MDL criterion, the transformed values with "
                       "the number of cut points below."}
EPS = 1e-9


# ------------------------------------------------------------------ oracle
def ent(ys):
    n = len(ys)
    return -sum(ys.count(v) / n * math.log2(ys.count(v) / n) for v in set(ys)), len(set(ys))


def outcomes(ys, off=0):
    """all sets of cut positions the criterion allows (several only where entropies or the criterion tie)"""
    n = len(ys)
    pos = [i for i in range(1, n) if ys[i - 1] != ys[i]]
    if not pos:
        return [frozenset()]
    split = {i: (i * ent(ys[:i])[0] + (n - i) * ent(ys[i:])[0]) / n for i in pos}
    best = min(split.values())
    out = set()
    for i in pos:
        if split[i] <= best + EPS:
            (e0, k0), (e1, k1), (e2, k2) = ent(ys), ent(ys[:i]), ent(ys[i:])
            d = math.log2(3 ** k0 - 2) - (k0 * e0 - k1 * e1 - k2 * e2)
            gain, need = e0 - split[i], (math.log2(n - 1) + d) / n if n > 1 else -math.inf
            if gain > need - EPS:
                out |= {frozenset({off + i}) | a | b for a in outcomes(ys[:i], off) for b in outcomes(ys[i:], off + i)}
            if gain <= need + EPS:
                out.add(frozenset())
    return sorted(out, key=sorted)


class SymU8(SymInt):
    """numpy.uint8: sums and differences wrap around at 256"""
    __slots__ = ()

    def __add__(self, o):
        return SymU8(values.simp((self.e + E(o)) % 256)) if isinstance(o, SymU8) else SymInt.__add__(self, o)

    def __sub__(self, o):
        return SymU8(values.simp((self.e - E(o)) % 256)) if isinstance(o, SymU8) else SymInt.__sub__(self, o)


def column(vals):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a


def matrix(cols):
    return np.array(np.stack([column(v) for v in cols], axis=1)).view(values.SymArray)


def variable(name, kind):
    if kind == "uint8":
        return SymU8(sym_int(name, 0, 255).e)
    return sym_int(name) if kind == "int64" else sym_real(name)


def check_cuts(c, xs, ys, cuts):
    order = sorted(range(len(xs)), key=functools.cmp_to_key(lambda i, j: -1 if c.branch(E(xs[i]) < E(xs[j])) else 1 if c.branch(E(xs[j]) < E(xs[i])) else 0))
    sx, sy = [E(xs[i]) for i in order], [ys[i] for i in order]
    sx = [values._toreal(x) for x in sx]
    mixed = any(sy[i] != sy[j] and c.branch(sx[i] == sx[j]) for i in range(len(sx)) for j in range(i))
    cs = [values._toreal(E(x)) for x in cuts]
    mid = lambda i: (sx[i - 1] + sx[i]) / 2
    if mixed:
        c.prove(z3.And([cs[i] < cs[i + 1] for i in range(len(cs) - 1)] + [z3.Or([x == mid(i) for i in range(1, len(sx))]) for x in cs]),
                "a cut point is not half-way between successive values")
        return
    outs = outcomes(sy)
    c.prove(z3.Or([z3.And([cs[k] == mid(i) for k, i in enumerate(sorted(o))] + [z3.BoolVal(True)]) for o in outs if len(o) == len(cs)]),
            "cut points are not those of the MDL criterion")


def check_codes(c, got, xs, cuts):
    for g, x in zip(got, xs):
        c.prove(E(int(g)) == z3.Sum([z3.IntVal(0)] + [z3.If(values._toreal(E(k)) < values._toreal(E(x)), 1, 0) for k in cuts]),
                "a value is not mapped to the number of cut points below it")


def model_num(mo, x, kind):
    v = model_value(mo, x)
    return int(v) if kind != "float64" else float(v)


# ------------------------------------------------------------------ one column
def h_col(labels, kinds, order=False, probes=1, distinct=False):
    """labels(c) -> label of each row"""
    def run(c):
        ys = labels(c)
        n = len(ys)
        kind = c.choice("kind", kinds)
        xs = [variable("x%d" % i, kind) for i in range(n)]
        new = [variable("z%d" % i, kind) for i in range(probes)]
        if order:
            for a, b in zip(xs, xs[1:]):
                c.assume(a.e < b.e if distinct else a.e <= b.e)
        seed = c.choice("seed", [0, 3])
        c.payload = lambda mo: {"kind": kind, "cols": [[model_num(mo, x, kind) for x in xs]], "new": [[model_num(mo, x, kind) for x in new]], "y": ys, "seed": seed, "df": False}
        c.small = [z3.And([z3.And(x.e >= 0, x.e <= 40) for x in xs + new] + [z3.And([z3.Or([x.e == k for k in range(0, 41, 2)]) for x in xs + new])]),
                   z3.And([z3.And(x.e >= 0, x.e <= 200) for x in xs + new])]
        M = loader.load("skmine.preprocessing.mdlp_discretizer")
        d = M.MDLPDiscretizer(random_state=seed)
        r = d.fit(matrix([xs]), np.array(ys))
        c.prove(z3.BoolVal(r is d and list(d.cut_points_) == [0]), "columns of the cut points")
        cuts = list(d.cut_points_[0])
        check_cuts(c, xs, ys, cuts)
        out = d.transform(matrix([xs + new]))
        c.prove(z3.BoolVal(out.shape == (n + probes, 1)), "shape of the transformed data")
        check_codes(c, [v for v, in out.tolist()], xs + new, cuts)
    return run


# ------------------------------------------------------------------ several columns
def h_cols(ys, ncol, orders):
    """DataFrames: each column is cut on its own, transformed data keep the rows and the columns in the order given"""
    def run(c):
        n = len(ys)
        names = ["u", "v", "w"][:ncol]
        cols = [[sym_real("x%d_%d" % (j, i)) for i in range(n)] for j in range(ncol)]
        ord2 = c.choice("order", orders)
        idx = c.choice("index", [None, [7, 3, 5, 1, 9, 8][:n]])
        # values of a column in the order of its rows, shifted by one for the second one
        for j, col in enumerate(cols):
            p = list(range(n)) if j == 0 else list(range(1, n)) + [0]
            for a, b in zip(p, p[1:]):
                c.assume(col[a].e < col[b].e)
        c.payload = lambda mo: {"kind": "float64", "cols": [[model_num(mo, x, "float64") for x in col] for col in cols], "new": [[] for _ in cols], "y": ys,
                                "seed": 0, "df": True, "order": ord2, "index": idx}
        c.small = [z3.And([z3.Or([x.e == k for k in range(0, 2 * n, 2)]) for col in cols for x in col])]
        M = loader.load("skmine.preprocessing.mdlp_discretizer")
        d = M.MDLPDiscretizer(random_state=0)
        d.fit(pd.DataFrame({nm: column(col) for nm, col in zip(names, cols)}, index=idx), pd.Series(ys))
        c.prove(z3.BoolVal(list(d.cut_points_) == names and list(d.discover().index) == names), "columns of the cut points")
        for nm, col in zip(names, cols):
            check_cuts(c, col, ys, list(d.cut_points_[nm]))
        by = dict(zip(names, cols))
        out = d.transform(pd.DataFrame({nm: column(by[nm]) for nm in ord2}, index=idx))
        c.prove(z3.BoolVal(list(out.columns) == ord2 and list(out.index) == (idx or list(range(n)))), "rows and columns of the transformed data")
        for nm in ord2:
            check_codes(c, out[nm].tolist(), by[nm], list(d.cut_points_[nm]))
    return run


# ------------------------------------------------------------------ replay
def near(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def r_column(xs, ys, cuts):
    o = sorted(range(len(xs)), key=lambda i: xs[i])
    sx, sy = [float(xs[i]) for i in o], [ys[i] for i in o]
    mid = [None] + [(a + b) / 2 for a, b in zip(sx, sx[1:])]
    if any(sx[i] == sx[j] and sy[i] != sy[j] for i in range(len(sx)) for j in range(i)):
        if any(not any(near(k, m) for m in mid[1:]) for k in cuts) or any(a >= b for a, b in zip(cuts, cuts[1:])):
            return [["cuts-tied", "cut points %s for %s (labels %s)" % (cuts, sx, sy)]]
        return []
    outs = [[mid[i] for i in sorted(s)] for s in outcomes(sy)]
    if not any(len(w) == len(cuts) and all(near(a, b) for a, b in zip(w, cuts)) for w in outs):
        return [["cuts", "cut points of %s with labels %s are %s, expected %s" % (sx, sy, cuts, outs)]]
    return []


def r_all(d):
    from skmine.preprocessing import MDLPDiscretizer
    pr = []
    dt = np.dtype(d["kind"])
    cols = [np.array(x, dtype=dt) for x in d["cols"]]
    ys, n = d["y"], len(d["y"])
    m = MDLPDiscretizer(random_state=d["seed"])
    if d["df"]:
        names = ["u", "v", "w"][:len(cols)]
        by = dict(zip(names, cols))
        m.fit(pd.DataFrame(by, index=d["index"]), pd.Series(ys))
        if list(m.cut_points_) != names or list(m.discover().index) != names:
            return [["columns", "cut points for the columns %s" % list(m.cut_points_)]]
        for nm in names:
            pr += r_column(by[nm].tolist(), ys, [float(x) for x in m.cut_points_[nm]])
        out = m.transform(pd.DataFrame({nm: by[nm] for nm in d["order"]}, index=d["index"]))
        if list(out.columns) != d["order"] or list(out.index) != (d["index"] or list(range(n))):
            return pr + [["frame", "transformed columns %s, rows %s of columns %s, rows %s" % (list(out.columns), list(out.index), d["order"], d["index"])]]
        for nm in d["order"]:
            pr += r_codes(out[nm].tolist(), by[nm].tolist(), [float(x) for x in m.cut_points_[nm]])
        return pr
    m.fit(np.stack(cols, axis=1), np.array(ys))
    if list(m.cut_points_) != list(range(len(cols))):
        return [["columns", "cut points for the columns %s" % list(m.cut_points_)]]
    cuts = [float(x) for x in m.cut_points_[0]]
    pr += r_column(cols[0].tolist(), ys, cuts)
    allx = np.concatenate([cols[0], np.array(d["new"][0], dtype=dt)])
    out = m.transform(allx.reshape(-1, 1))
    if out.shape != (len(allx), 1):
        return pr + [["shape", "%s" % (out.shape,)]]
    return pr + r_codes(out[:, 0].tolist(), allx.tolist(), cuts)


def r_codes(got, xs, cuts):
    want = [sum(1 for k in cuts if k < x) for x in xs]
    return [] if [int(g) for g in got] == want else [["codes", "%s is mapped to %s with cut points %s" % (xs, got, cuts)]]


def any_labels(n, k):
    return lambda c: [c.choice("y%d" % i, list(range(min(k, i + 1)))) for i in range(n)]


def blocks(*choices):
    """labels in runs: choices = list of (label, [lengths])"""
    def f(c):
        return [l for k, (l, ls) in enumerate(choices) for _ in range(c.choice("b%d" % k, ls))]
    return f


def harnesses(tier):
    q = tier == "quick"
    kw = dict(hash_mode="eq", witness_every=8)
    hs = [Harness("any-3", h_col(any_labels(3, 3), ["float64"], probes=1), "3 rows in any order with any values (ties included), any of 3 labels; 1 new value", **kw),
          Harness("any-4", h_col(any_labels(4, 2), ["float64"], probes=0), "4 rows in any order with any values, 2 labels", **kw),
          Harness("sorted-%d" % (8 if q else 11), h_col(any_labels(8 if q else 11, 2), ["float64"], order=True, probes=0, distinct=True), "%d rows with increasing values, any labels out of 2" % (8 if q else 11), **kw),
          Harness("sorted3-%d" % (6 if q else 8), h_col(any_labels(6 if q else 8, 3), ["float64"], order=True, probes=0, distinct=True), "%d rows with increasing values, any labels out of 3" % (6 if q else 8), **kw),
          Harness("ties-5", h_col(any_labels(5, 2), ["float64"], order=True, probes=0), "5 rows with non-decreasing values, 2 labels", **kw),
          Harness("blocks", h_col(blocks((0, [1, 3, 5] if q else [1, 2, 4, 6]), (1, [2, 4] if q else [2, 4, 5]), (0, [0, 3, 5]), (2, [0, 4, 6])), ["float64"], order=True, probes=1, distinct=True),
                  "up to 20 rows with increasing values in up to 4 runs of labels; 1 new value", **kw),
          Harness("uint8", h_col(blocks((0, [1, 3]), (1, [3]), (2, [0, 3])), ["uint8"], order=True, probes=1, distinct=True), "columns of 8-bit integers, increasing values, runs of labels", **kw),
          Harness("frames", h_cols([0, 0, 1, 1], 2, [["u", "v"], ["v", "u"]]), "DataFrames of 2 columns x 4 rows, columns of the data to transform in both orders", **kw)]
    if not q:
        hs.append(Harness("any-5", h_col(any_labels(5, 2), ["float64"], probes=0), "5 rows in any order with any values, 2 labels", **kw))
        hs.append(Harness("frames-3", h_cols([0, 0, 0, 1, 1, 1], 3, [["u", "v", "w"], ["w", "u", "v"]]), "DataFrames of 3 columns x 6 rows", **kw))
    return hs


def replay(p):
    d = p["data"]
    with __import__("warnings").catch_warnings():
        __import__("warnings").simplefilter("ignore")
        v, err = real(r_all, d)
    return ([err] if err else []) + (v or [])
