"""Sessions with an estimator, shared by C24 (data and settings are left as they are) and C25 (a fitted estimator that is
fitted again is as good as a new one).  The same session is run on symbolic data (prove = solver) and, concretely, in replays."""
import inspect
import importlib
import math

import networkx as nx
import numpy as np
import pandas as pd

from .common import *
from . import perfacade as F
from . import graphcommon as G
from .c01 import make_container
from symx.symstr import SymStr


# ------------------------------------------------------------------------------------------ values and their equality
def snap(x):
    """nested tuples with numbers, texts, symbolic values as leaves; remembers types, order, labels"""
    if isinstance(x, pd.DataFrame):
        return ("frame", [snap(v) for v in x.columns], snap(x.index), [[snap(v) for v in x.iloc[:, j].tolist()] for j in range(x.shape[1])])
    if isinstance(x, pd.Series):
        return ("series", x.name, snap(x.index), [snap(v) for v in x.tolist()])
    if isinstance(x, pd.Index):
        return ("index", x.name, [snap(v) for v in x.tolist()])
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, [snap(v) for v in x.ravel().tolist()])
    if isinstance(x, nx.Graph):
        return ("graph", type(x).__name__, [(n, snap(dict(d))) for n, d in x.nodes(data=True)], [(u, v, snap(dict(d))) for u, v, d in x.edges(data=True)])
    if isinstance(x, dict):
        return ("dict", [(snap(k), snap(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, (pd.Timestamp, pd.Timedelta)):
        return ("time", F.ns(x))
    if type(x).__name__ == "BitMap" and not isinstance(x, bitmap.BitMap):
        return ("tids", sorted(x))
    if hasattr(x, "get_params") and not inspect.isclass(x):
        return ("estimator", type(x).__name__, snap(x.get_params()))
    return x


def same(a, b, tol=0):
    """z3: equal"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([same(x, y, tol) for x, y in zip(a, b)] + [z3.BoolVal(True)])
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, bitmap.BitMap) and isinstance(b, bitmap.BitMap):
        return a.eq_expr(b)
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        r = a == b
        return r.b if isinstance(r, SymBool) else z3.BoolVal(bool(r))
    if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
        try:
            return E(a) == E(b)
        except (TypeError, z3.Z3Exception):
            return z3.BoolVal(False)
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return z3.BoolVal(bool(a == b or (a != a and b != b) or abs(a - b) <= tol * (1 + abs(a))))
    if type(a) is not type(b) and not (isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer))):
        return z3.BoolVal(False)
    return z3.BoolVal(bool(a == b))


def settings(m):
    if hasattr(m, "get_params"):
        return snap(m.get_params(deep=False))
    return snap({k: getattr(m, k, None) for k in inspect.signature(type(m).__init__).parameters if k != "self"})


class Use:
    """calls on an estimator; prove(cond, message)"""

    def __init__(self, prove, what):
        self.prove, self.what = prove, what

    def __call__(self, m, fn, *a, **k):
        if "untouched" not in self.what:
            return getattr(m, fn)(*a, **k)
        s, d = settings(m), snap([list(a), k])
        r = getattr(m, fn)(*a, **k)
        self.prove(same(d, snap([list(a), k])), "%s changed the data it was given" % fn)
        self.prove(same(s, settings(m)), "%s changed the settings of the estimator" % fn)
        return r

    def equal(self, new, used, tol=0, text=""):
        if "refit" in self.what:
            self.prove(same(snap(new), snap(used), tol), "an estimator fitted before differs from a new one" + text)


# ------------------------------------------------------------------------------------------ item sets
OTHER = [["c", "b"], ["c", "b"], ["c"], ["c", "d", "a"], ["d", "a"], ["d", "a", "b"]]


def s_lcm(u, L, cls, D, ms, hist, weights, container="list"):
    """hist: None, "other" (fitted on other data with other settings), "same" (fitted on the same data)"""
    def look(m):
        return (u(m, "transform", D, return_tids=True), u(m, "transform", D), u(m, "transform", D, max_length=2, lexicographic_order=False))
    D = make_container(D, container)
    C = getattr(L, cls)
    m = C(min_supp=ms)
    if hist == "other":
        weights(False)
        m.set_params(min_supp=2)
        u(m, "fit", OTHER)
        u(m, "transform", OTHER)
        u(m, "fit_transform", OTHER[1:4], return_tids=True)
        m.set_params(min_supp=ms)
        weights(True)
    elif hist == "same":
        u(m, "fit", D)
        look(m)
    u(m, "fit", D)
    a = look(m)
    if hist:
        n = C(min_supp=ms)
        u.equal((u(n, "fit_transform", D, return_tids=True),) + look(n)[1:], a)


def s_slim(u, S, D, pruning, items, hist, weights, ops="fit", new=(["a", "b"], ["z"], []), container="list", vec=None):
    """vec: settings of a vectorizer"""
    def fit(m, D):
        if ops == "fit":
            u(m, "fit", D)
        else:
            u(m, "prefit", D)
            for x in ops:
                m.update(candidate=frozenset(x))

    def look(m):
        out = []
        if vec is None and ops == "fit":
            out += [u(m, "transform", D, singletons=True, return_tids=True), u(m, "transform", D), u(m, "reconstruct")]
        if ops == "fit" and vec is not None:
            out += [u(m, "transform", X)]
        if ops == "fit":  # the vectorizer transforms otherwise than the model it inherits from
            out += [u(m, "decision_function", X)] if vec is None else []
        else:
            for x in ("a", "b"):
                out.append(m.get_support(x))
        ct = m.codetable_
        return out + [[tuple(sorted(k)) for k in ct], list(ct.values()), m.model_size_, m.data_size_]
    X = [list(x) for x in new]
    D = make_container(D, container) if container != "frame" else pd.DataFrame([[int(i in r) for i in "abc"] for r in D], columns=list("abc"), index=[3 * i + 1 for i in range(len(D))])
    its = set(items) if items else None
    kw = dict(vec or {})

    def make():
        return S(pruning=pruning, items=its, **kw) if items else S(pruning=pruning, **kw)
    m = make()
    if hist == "other":
        weights(False)
        m.set_params(pruning=not pruning)
        u(m, "fit", OTHER)
        u(m, "decision_function" if vec is None else "transform", OTHER[:2])
        m.get_support("b", "a")
        m.set_params(pruning=pruning)
        weights(True)
    elif hist == "same":
        fit(m, D)
        look(m)
    fit(m, D)
    a = look(m)
    if its is not None and "untouched" in u.what:
        u.prove(z3.BoolVal(its == set(items)), "the set of items was changed")
    if hist:
        n = make()
        fit(n, D)
        u.equal(look(n), a, 1e-6)


def s_clf(u, C, D, y, items, pruning, hist, X):
    its = set(items) if items else None
    m = C(items=its, pruning=pruning)
    if hist == "other":
        u(m, "fit", OTHER, [5, 5, 6, 6, 7, 7])
        u(m, "predict", OTHER)
    elif hist == "same":
        u(m, "fit", D, y)
        u(m, "predict", X)
    elif hist == "classes":  # the other way round
        u(m, "fit", list(reversed(D)), y)
        u(m, "predict", X)
    u(m, "fit", D, y)
    a = (u(m, "predict", X), list(m.classes_), u(m, "score", D, y))
    if its is not None and "untouched" in u.what:
        u.prove(z3.BoolVal(its == set(items)), "the set of items was changed")
    if hist:
        n = C(items=its, pruning=pruning)
        u(n, "fit", D, y)
        u.equal((u(n, "predict", X), list(n.classes_), u(n, "score", D, y)), a)


# ------------------------------------------------------------------------------------------ borders, cut points
def s_border(u, C, D, y, ms, gr, hist):
    m = C(min_growth_rate=gr, min_supp=ms)

    def look(m, D):
        try:
            u(m, "fit", D, y)
        except ValueError:  # threshold above the whole second class
            return None
        b = sorted((sorted(tuple(sorted(x)) for x in L), tuple(sorted(R))) for L, R in m.borders_)
        return b, sorted(tuple(sorted(x)) for x in u(m, "discover", min_size=1)), sorted(tuple(sorted(x)) for x in u(m, "discover"))
    if hist == "other":
        o = pd.Series([["a", "b", "d"], ["b"], ["a", "b", "d", "c"], ["a", "b", "d"]])
        u(m, "fit", o, pd.Series([0, 0, 1, 1]))
        u(m, "discover")
    elif hist == "same":
        look(m, D)
    a = look(m, D)
    if hist:
        u.equal(look(C(min_growth_rate=gr, min_supp=ms), D), a)


def s_mdlp(u, M, X, y, hist, seed):
    """X: array or frame"""
    m = M.MDLPDiscretizer(random_state=seed)

    def look(m):
        u(m, "fit", X, y)
        cuts = {k: list(v) for k, v in m.cut_points_.items()}
        return cuts, u(m, "transform", X), u(m, "discover")
    if hist == "other":
        o = np.array([[1.0, 9.0, 2.0], [2.0, 8.0, 0.5], [3.0, 1.0, 2.5], [4.0, 0.0, 0.0], [9.0, 3.0, 1.0]])
        u(m, "fit", pd.DataFrame(o, columns=["u", "q", "v"]), np.array([0, 0, 1, 1, 1]))
        u(m, "fit", o, np.array([0, 0, 1, 1, 2]))
        u(m, "transform", o)
    elif hist == "same":
        look(m)
    a = look(m)
    if hist:
        u.equal(look(M.MDLPDiscretizer(random_state=seed)), a)


# ------------------------------------------------------------------------------------------ periodic patterns
def s_periodic(u, M, S, hist, kw, view, tokens, is_dt):
    """view(m): what the user sees, compared by the caller's rules"""
    m = M.PeriodicPatternMiner(**kw)

    def calls(m, S):
        u(m, "fit", S)
        with tokens():
            u(m, "transform", S)
            u(m, "transform", S, dE_sum=False, chronological_order=False)
        u(m, "reconstruct")
        u(m, "reconstruct", [], sort="event")
        u(m, "get_residuals")
    if hist in ("int", "dt"):
        idx = [7, 14, 21, 28, 35, 36, 41, 50] if hist == "int" else pd.to_datetime([0, 3600, 7200, 10800, 10801, 14400, 15000, 20000], unit="s")
        m.set_params(complex=not kw["complex"])
        calls(m, pd.Series(list("aabaaaba"), index=idx))
        m.set_params(complex=kw["complex"])
    elif hist == "same":
        calls(m, S)
    calls(m, S)
    if hist and "refit" in u.what:
        n = M.PeriodicPatternMiner(**kw)
        n.fit(S)
        view(n, m)


# ------------------------------------------------------------------------------------------ graphs
def s_graph(u, mods, spec, lab, hist, clock):
    """clock(f): runs f while time passes quickly"""
    gm = mods[0]
    m = gm.GraphMDL()
    g = G.build(spec, lab)

    def view(m):
        ct = G.table_of(m)
        return (m.description_length(), m.initial_description_length(), [(r.pattern_usage(), snap(dict(r.pattern_port_usage())), snap(r.pattern())) for r in ct.rows()],
                len(m.patterns()))
    if hist == "timeout":
        clock(lambda: u(m, "fit", G.build(G_OTHER, lab), timeout=10))
    elif hist in ("other", "bigger"):
        u(m, "fit", G.build(G_OTHER if hist == "other" else G_BIG, lab))
    elif hist == "same":
        u(m, "fit", g)
    if hist == "timeout":
        clock(lambda: u(m, "fit", g))
    else:
        u(m, "fit", g)
    if hist:
        n = gm.GraphMDL()
        u(n, "fit", G.build(spec, lab))
        u.equal(view(n), view(m), 1e-9)


G_OTHER = {"nodes": ["B", "A", "B", "A", "A"], "edges": [[2, 5, "X"], [3, 5, "X"], [4, 3, "X"], [5, 1, "X"]]}
G_BIG = {"nodes": ["A", "B", "A", None, "A", "B", "A", "A"], "edges": [[1, 4, "X"], [2, 7, "X"], [3, 7, "X"], [3, 6, "X"], [4, 6, "X"], [7, 5, "X"], [7, 6, "X"], [8, 2, "X"], [8, 1, "X"]]}


# ------------------------------------------------------------------------------------------ harnesses
LM, SM, CM, VM = "skmine.itemsets.lcm", "skmine.itemsets.slim", "skmine.itemsets.slim_classifier", "skmine.feature_extraction.slim_vectorizer"
BM, DM, PM = "skmine.emerging.mbdldorber", "skmine.preprocessing.mdlp_discretizer", "skmine.periodic.cycles"


def hists(what, *more):
    return [None] if "refit" not in what else ["other", "same"] + list(more)


def use(c, what):
    return Use(lambda cond, msg: c.prove(cond, msg), what)


def h_lcm(what, m):
    def run(c):
        shape = c.choice("shape", ["sorted", "reversed", "repeated"] if "untouched" in what else ["sorted"])
        db = WDB(c, ["a", "b", "c", "d"][:m], None if shape == "sorted" else "desc")
        ms = sym_int("min_supp", 1)
        cls, hist = c.choice("cls", ["LCM", "LCMMax"]), c.choice("hist", hists(what))

        def rows(ts):
            return [list(t) + (list(t)[:1] if shape == "repeated" else []) for t in ts]
        c.payload = lambda mo: {"s": "lcm", "cls": cls, "D": rows(db.concrete(mo)), "ms": model_value(mo, ms), "hist": hist, "container": "list"}
        c.small = [z3.And(s, ms.e <= 3) for s in c.small] + c.small
        s_lcm(use(c, what), loader.load(LM), cls, rows(db.types), ms, hist, lambda on: bitmap.set_weights(db.weights if on else {}))
    return run


def h_lcm_rows(what, n, m):
    def run(c):
        db = BDB(c, ["b", "a", "c"][:m], n, nonempty_rows=False)
        c.assume(z3.Or(db.bits[-1]))
        ms = sym_real("min_supp", 0, 1)
        c.assume(ms.e > 0)
        for size in (n, len(OTHER), 3):
            for k in range(0, size + 1):
                c.assume(z3.Or(ms.e * size - k >= z3.RealVal("1/1000000"), k - ms.e * size >= z3.RealVal("1/1000000")))
        cls, hist = c.choice("cls", ["LCM", "LCMMax"]), c.choice("hist", hists(what))
        cont = c.choice("container", ["list", "sets", "series_idx", "array"])
        c.payload = lambda mo: {"s": "lcm", "cls": cls, "D": db.concrete(mo), "ms": float(model_value(mo, ms)), "hist": hist, "container": cont}
        s_lcm(use(c, what), loader.load(LM), cls, db.rows(c), ms, hist, lambda on: None, cont)
    return run


def h_slim(what, max_w, types=None, m=3, ops=None):
    def run(c):
        db = WDB(c, ["a", "b", "c", "d"][:m], max_w=max_w, types=types, pad=6 if ops is None else 0)
        for i in db.items:
            c.assume(db.sup([i]) >= 1)
        if ops is not None:
            c.assume(z3.And(db.sup(["b"]) >= db.sup(["c"]), db.sup(["c"]) >= db.sup(["a"])))
        pruning, hist = c.choice("pruning", [True, False]), c.choice("hist", hists(what))
        o = "fit" if ops is None else c.choice("ops", ops)
        items = None if ops is not None else c.choice("items", [None, list("abcdz")])
        c.payload = lambda mo: {"s": "slim", "D": db.concrete(mo), "pruning": pruning, "items": items, "hist": hist, "ops": o, "container": "list", "vec": None}
        s_slim(use(c, what), loader.load(SM).SLIM, [list(t) for t in db.types], pruning, items, hist,
               lambda on: bitmap.set_weights(db.weights if on else {}), o)
    return run


def full_row(c, db, shape):
    """the first transaction has all the items, in descending order"""
    if shape:
        c.assume(z3.And(db.bits[0]))


def shaped(rows, shape):
    return [list(r) + (list(r)[:1] if shape == "repeated" else []) for r in rows]


def h_slim_rows(what, n, m, vec=False, shapes=(None,)):
    def run(c):
        shape = c.choice("shape", shapes)
        db = BDB(c, (["c", "b", "a"] if shape else ["b", "a", "c"])[:m], n)
        full_row(c, db, shape)
        pruning, hist = c.choice("pruning", [True, False]), c.choice("hist", hists(what))
        cont = c.choice("container", ["list", "series_idx"] if vec or shape else ["list", "sets", "series_idx", "array", "frame"])
        items = c.choice("items", [None, list("abcdz"), ["a"]]) if not vec and not shape else None
        v = c.choice("vec", [dict(k=2, strategy="codes", stop_items=["c"]), dict(k=3, strategy="one-hot")]) if vec else None
        c.payload = lambda mo: {"s": "slim", "D": shaped(db.concrete(mo), shape), "pruning": pruning, "items": items, "hist": hist, "ops": "fit", "container": cont, "vec": v}
        rows = shaped(db.rows(c), shape)
        if v and not ({i for r in rows for i in r} - set(v.get("stop_items", ()))):
            return
        s_slim(use(c, what), (loader.load(VM, "sxreal").SLIMVectorizer if vec else loader.load(SM, "sxreal").SLIM), rows, pruning, items, hist, lambda on: None, "fit",
               container=cont, vec=v)
    return run


def clf_data(rows, kind):
    y = [1, 0, 1, 0][:len(rows)]
    return [list(r) for r in rows], np.array(y) if kind == "array" else pd.Series(["p" if v else "q" for v in y]) if kind == "series" else y


CLF_X = [["a"], ["b", "c"], ["a", "b", "c"], ["z"]]


def h_clf(what, n, m, shapes=(None,)):
    def run(c):
        shape = c.choice("shape", shapes)
        db = BDB(c, (["c", "b", "a"] if shape else ["b", "a", "c"])[:m], n)
        full_row(c, db, shape)
        pruning, hist, items = c.choice("pruning", [True, False]), c.choice("hist", hists(what, "classes")), c.choice("items", [None, list("abcdz"), ["a"]])
        kind = c.choice("kind", ["list", "array", "series"] if not shape else ["list"])
        c.payload = lambda mo: {"s": "clf", "D": shaped(db.concrete(mo), shape), "pruning": pruning, "items": items, "hist": hist, "kind": kind}
        D, y = clf_data(shaped(db.rows(c), shape), kind)
        s_clf(use(c, what), loader.load(CM, "sxreal").SlimClassifier, D, y, items, pruning, hist, [list(x) for x in CLF_X])
    return run


def h_border(what, n1, n2, m, gr=1.5, shapes=(None,)):
    from .c13 import layout

    def run(c):
        shape = c.choice("shape", shapes)
        db = BDB(c, (["c", "b", "a"] if shape else ["a", "b", "c"])[:m], n1 + n2)
        full_row(c, db, shape)
        ms = sym_real("min_supp", 0)
        c.assume(z3.And(ms.e > 0, ms.e * 2 <= 1))
        for n, f in ((n1, 1), (n2, gr), (2, 1), (2, gr)):
            for k in range(0, n + 1):
                x = ms.e * values._lift(float(f)) * n - k
                c.assume(z3.Or(x >= z3.RealVal("1/1000000"), x <= z3.RealVal("-1/1000000")))
        hist, sh = c.choice("hist", hists(what)), c.choice("shuffle", [False, True])
        c.payload = lambda mo: {"s": "border", "D": shaped(db.concrete(mo), shape), "n1": n1, "ms": float(model_value(mo, ms)), "gr": gr, "hist": hist, "shuffle": sh}
        rows = shaped(db.rows(c), shape)
        D, y = layout(rows[:n1], rows[n1:], sh)
        s_border(use(c, what), loader.load(BM, "sxreal").MBDLLBorder, D, y, ms, gr, hist)
    return run


def h_mdlp(what, labels, ncol=1):
    from .c21 import matrix, column

    def run(c):
        ys = c.choice("labels", labels)
        n = len(ys)
        cols = [[sym_real("x%d_%d" % (j, i)) for i in range(n)] for j in range(ncol)]
        frame, hist, seed = c.choice("frame", [False, True]), c.choice("hist", hists(what)), c.choice("seed", [0, 3])
        for j, col in enumerate(cols[1:]):
            for a, b in zip(col, col[1:]):
                c.assume(a.e > b.e)
        c.payload = lambda mo: {"s": "mdlp", "cols": [[float(model_value(mo, x)) for x in col] for col in cols], "y": ys, "frame": frame, "hist": hist, "seed": seed}
        c.small = [z3.And([z3.Or([x.e == k for k in range(0, 2 * n + 2, 2)]) for col in cols for x in col])]
        X = pd.DataFrame({nm: column(col) for nm, col in zip("uv", cols)}, index=[4 + 2 * i for i in range(n)]) if frame else matrix(cols)
        s_mdlp(use(c, what), loader.load(DM), X, pd.Series(ys) if frame else np.array(ys), hist, seed)
    return run


def h_periodic(what, fams, scales, kinds):
    from . import persym as PS

    def run(c):
        name, sc, kind = c.choice("family", fams), c.choice("scale", scales), c.choice("kind", kinds)
        order = c.choice("order", ["sorted", "reversed"] if "untouched" in what else ["sorted"])
        kw = dict(complex=c.choice("complex", [True, False]), auto_time_scale=c.choice("auto", [True, False] if sc == 1 else [True]))
        hist = c.choice("hist", hists(what, "int", "dt")[1:] if "refit" in what else [None])
        b = sym_int("base")
        raw = PS.reorder([((b + t) * sc, e) for t, e in F.fam(name)], order)
        is_dt = kind == "dt"
        for t, _ in raw:
            c.assume(z3.And(E(t) < PS.TMAX, E(t) > -PS.TMAX))
        c.payload = lambda mo: {"s": "periodic", "points": [[model_value(mo, t), e] for t, e in raw], "unit": "ns" if is_dt else "int", "order": "given", "kw": kw, "hist": hist}
        c.small = [z3.And(b.e >= -k, b.e <= k) for k in (9, 1000)]
        S = PS.sym_series(raw, is_dt)
        S.name, S.index.name = "log", "when"

        def view(n, m):
            c.prove(PS.same_view(PS.view(n, None, is_dt), PS.view(m, None, is_dt)), "a miner fitted before differs from a new one")
        s_periodic(use(c, what), loader.load(PM), S, hist, kw, view, PS.tokens, is_dt)
    return run


def h_graph(what, specs):
    def run(c):
        spec = c.choice("spec", specs)
        vs, es = G.names(dict(spec, rows=[G_OTHER]))
        hist = c.choice("hist", hists(what, "timeout", "bigger"))
        lab = {x: G.sym_str(x, 1) for x in vs + es}
        c.payload = lambda mo: {"s": "graph", "spec": spec, "lab": {x: G.str_value(mo, v) for x, v in lab.items()}, "hist": hist}
        for xs, ys in ((vs, es), (vs, vs), (es, es)):
            for x in xs:
                for y in ys:
                    if x != y:
                        b = lab[x] != lab[y]
                        c.assume(b.b if isinstance(b, SymBool) else b)

        def clock(f):
            k = [0.0]

            def tick():
                k[0] += 4.0
                return k[0]
            loader.CLOCK = tick
            try:
                return f()
            finally:
                loader.CLOCK = None
        s_graph(use(c, what), G.modules(loader.load), spec, lab, hist, clock)
    return run


def families(what, tier):
    q = tier == "quick"
    kw = dict(witness_every=10)
    from .graphspecs import MINED
    gs = [dict(nodes=n, edges=e) for n, e in (MINED[::6] if q else MINED[::2])]
    hs = [Harness("lcm", h_lcm(what, 3), "LCM and LCMMax, 3 items with unbounded multiplicities, every min_supp", **kw),
          Harness("lcm-rows", h_lcm_rows(what, 2, 2) if q else h_lcm_rows(what, 3, 2), "LCM and LCMMax, 2 (3) transactions x 2 items, fractional min_supp, lists, sets, Series and arrays", **kw),
          Harness("slim", h_slim(what, 1 if q else 2), "SLIM fit, 3 items, multiplicities 0..1 (0..2), exact logarithms", **kw),
          Harness("slim-rows", h_slim_rows(what, 2, 2) if q else h_slim_rows(what, 2, 3), "SLIM, 2 transactions x 2 (3) items as lists, sets, Series, arrays, frames", **kw),
          Harness("vectorizer", h_slim_rows(what, 2, 2 if q else 3, True), "SLIMVectorizer, 2 transactions x 2 (3) items", **kw),
          Harness("classifier", h_clf(what, 3, 2) if q else h_clf(what, 4, 2), "SlimClassifier, 3 (4) transactions x 2 items of two classes", **kw),
          Harness("border", h_border(what, 2, 1, 2) if q else h_border(what, 2, 2, 2), "MBDLLBorder, 2+1 (2+2) transactions x 2 items, real min_supp up to 1/2", **kw),
          Harness("mdlp", h_mdlp(what, [[0, 1, 0], [0, 0, 1, 1]] if q else [[0, 1, 0], [0, 0, 1, 1], [0, 1, 2, 1]]), "MDLPDiscretizer, 3-4 rows of any values in any order, arrays and frames", hash_mode="eq", **kw),
          Harness("mdlp-2", h_mdlp(what, [[0, 1, 1]], 2), "MDLPDiscretizer, 2 columns x 3 rows", hash_mode="eq", **kw),
          Harness("periodic", h_periodic(what, ["short", "two", "concat2", "nested", "none"] if q else ["short", "two", "concat2", "tied", "nested", "noise", "none", "mixed"],
                                         [1, 10 ** 9] if q else [1, 1000, 10 ** 9, 3600 * 10 ** 9], ["int", "dt"]), "PeriodicPatternMiner, families of logs, start any integer", hash_mode="eq", **kw),
          Harness("graph", h_graph(what, gs), "GraphMDL, graphs of 5 vertices, any labels (all different or in any order)", hash_mode="eq", **kw)]
    if "untouched" in what:
        sh = ["reversed", "repeated"]
        hs += [Harness("slim-order", h_slim_rows(what, 2, 3, shapes=sh), "SLIM, 2 transactions x 3 items in descending order or with repeated items", **kw),
               Harness("vectorizer-order", h_slim_rows(what, 2, 3, True, sh), "SLIMVectorizer, 2 transactions x 3 items in descending order or with repeated items", **kw),
               Harness("classifier-order", h_clf(what, 2, 3, sh), "SlimClassifier, 2 transactions x 3 items in descending order or with repeated items", **kw),
               Harness("border-order", h_border(what, 2, 1, 3, shapes=sh), "MBDLLBorder, 2+1 transactions x 3 items in descending order or with repeated items", **kw)]
    return hs


# ------------------------------------------------------------------------------------------ replay
def go(d, what):
    pr = []

    def prove(cond, msg):
        if not z3.is_true(z3.simplify(cond)):
            pr.append([d["s"], "%s: %s" % (d["s"], msg)])
    u = Use(prove, what)
    load = importlib.import_module
    s = d["s"]
    if s in ("lcm", "slim", "clf", "border") and not any(d["D"]):
        return []
    if s == "lcm":
        s_lcm(u, load(LM), d["cls"], d["D"], d["ms"], d["hist"], lambda on: None, d["container"])
    elif s == "slim":
        v = d["vec"]
        if v and not ({i for r in d["D"] for i in r} - set(v.get("stop_items", ()))):
            return []
        s_slim(u, load(VM).SLIMVectorizer if v else load(SM).SLIM, d["D"], d["pruning"], d["items"], d["hist"], lambda on: None, d["ops"], container=d["container"], vec=v)
    elif s == "clf":
        D, y = clf_data(d["D"], d["kind"])
        s_clf(u, load(CM).SlimClassifier, D, y, d["items"], d["pruning"], d["hist"], [list(x) for x in CLF_X])
    elif s == "border":
        from .c13 import layout
        D, y = layout(d["D"][:d["n1"]], d["D"][d["n1"]:], d["shuffle"])
        s_border(u, load(BM).MBDLLBorder, D, y, d["ms"], d["gr"], d["hist"])
    elif s == "mdlp":
        n = len(d["y"])
        X = pd.DataFrame(dict(zip("uv", d["cols"])), index=[4 + 2 * i for i in range(n)]) if d["frame"] else np.array(d["cols"]).T.copy()
        s_mdlp(u, load(DM), X, pd.Series(d["y"]) if d["frame"] else np.array(d["y"]), d["hist"], d["seed"])
    elif s == "periodic":
        import contextlib
        dt = d["unit"] != "int"
        S = F.series(pd, dict(d, points=[tuple(x) for x in d["points"]]))
        S.name, S.index.name = "log", "when"

        def view(n, m):
            f = lambda x: (snap(x.transform(None, dE_sum=False)), snap(x.reconstruct()), snap(x.get_residuals()))
            u.equal(f(n), f(m))
        s_periodic(u, load(PM), S, d["hist"], d["kw"], view, contextlib.nullcontext, dt)
    elif s == "graph":
        import time

        def clock(f):
            k, old = [0.0], time.time

            def tick():
                k[0] += 4.0
                return k[0]
            time.time = tick
            try:
                return f()
            finally:
                time.time = old
        s_graph(u, G.modules(load), d["spec"], d["lab"], d["hist"], clock)
    return pr


def replay_for(what):
    def replay(p):
        with __import__("warnings").catch_warnings():
            __import__("warnings").simplefilter("ignore")
            v, err = real(go, p["data"], what)
        return [err] if err else v
    return replay
