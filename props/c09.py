"""C09: SlimClassifier predicts the class whose own compressor gives the shortest code"""
from .slimcommon import *
from . import c08

INFO = {"explanation": "SlimClassifier.fit/predict executed on branched training transactions of two or three classes; "
                       "every prediction compared with code lengths recomputed from compressors fitted apart."}
LABELS = {"str": ["spam", "ham", "eggs"], "int": [3, -1, 0]}


def layout(groups, kind):
    """interleave the classes' transactions"""
    import numpy as np
    X, y = [], []
    groups = [list(g) for g in groups]
    while any(groups):
        for l, g in zip(LABELS[kind], groups):
            if g:
                X.append(g.pop(0))
                y.append(l)
    return X, (np.array(y) if kind == "int" else y)


def problems(cls, slim, groups, kind, items, pruning, X, order=None):
    """cls/slim: SlimClassifier and SLIM of the code under test"""
    import math
    D, y = layout(groups, kind)
    clf = cls(items=items, pruning=pruning).fit(D, y)
    labels = sorted(l for l, g in zip(LABELS[kind], groups) if g)
    pr = []
    if [x for x in clf.classes_] != labels:
        return [["classes", "classes_ %s instead of %s" % (list(clf.classes_), labels)]]
    pred = [x for x in clf.predict(X)]
    ls = []
    for l in labels:
        own = [t for t, c in zip(D, y) if c == l]
        s = slim(items=items, pruning=pruning).fit(own)
        ls.append(c08.o_lengths(s, X, None))
    if len(pred) != len(X):
        return [["size", "%d predictions for %d transactions" % (len(pred), len(X))]]
    for t in range(len(X)):
        v = [l[t] for l in ls]
        best = min(v)
        if pred[t] not in labels:
            return [["label", "predicted %r" % (pred[t],)]]
        got = v[labels.index(pred[t])]
        if math.isinf(best):
            ok = pred[t] == labels[0]
        else:
            ok = got <= best + 1e-3 * (1 + best)
        if not ok:
            pr.append(["predict", "%s predicted %r; code lengths %s for classes %s (training %s, items=%s, pruning=%s)" % (
                X[t], pred[t], v, labels, D, items, pruning)])
            break
    return pr


def mods(pkg):
    if pkg:
        return (loader.load("skmine.itemsets.slim_classifier", pkg).SlimClassifier, loader.load("skmine.itemsets.slim", pkg).SLIM)
    from skmine.itemsets.slim_classifier import SlimClassifier
    from skmine.itemsets import SLIM
    return SlimClassifier, SLIM


FILL = ["f%d" % k for k in range(90)]


def h(sizes, m, kind, scale=False, fullx=True):
    def run(c):
        items = NAMES[:m]
        bits = [[[z3.Bool("g%d_%d_%s" % (g, t, i)) for i in items] for t in range(n)] for g, n in enumerate(sizes)]
        for g in bits:
            for r in g:
                c.assume(z3.Or(r))
        known = c.choice("items", [None, True])
        pruning = c.choice("pruning", [False, True])
        allitems = set(items) if known else None
        X = [list(x) for x in subsets(items)] + ([["z"], ["a", "z"], []] if known is None else [["z"]])
        conc = lambda mo: [[[i for i, b in zip(items, r) if model_value(mo, b)] for r in g] for g in bits]
        c.payload = lambda mo: {"groups": conc(mo), "kind": kind, "known": known, "pruning": pruning, "X": X, "scale": scale,
                                "items": items}
        groups = [[[i for i, b in zip(items, r) if c.branch(b)] for r in g] for g in bits]
        pr = judge(mods("sxreal"), groups, kind, allitems, pruning, X, scale)
        c.prove(not pr, "%r" % (pr,))
    return run


def judge(ms, groups, kind, items, pruning, X, scale):
    if scale:  # every transaction to classify also holds 90 known but never used items: codes of several hundred bits
        X = [list(x) + FILL for x in X if "z" not in x]
        items = set(items or NAMES) | set(FILL)
    return problems(ms[0], ms[1], groups, kind, items, pruning, X)


def harnesses(tier):
    q = tier == "quick"
    hs = [
        Harness("2classes-1x3", h([1, 1], 3, "str"), "2 classes of 1 transaction over 3 items, predictions on every transaction and on unseen items", witness_every=10),
        Harness("2classes-2x2", h([2, 2], 2, "int"), "2 classes of 2 transactions over 2 items", witness_every=10),
        Harness("3classes-1x2", h([1, 2, 1], 2, "str"), "3 classes of 1, 2 and 1 transactions over 2 items", witness_every=10),
        Harness("2classes-2+1x3", h([2, 1], 3, "int"), "2 classes of 2 and 1 transactions over 3 items", witness_every=20),
    ]
    if q:
        hs.append(Harness("long", h([1, 2], 2, "int", True), "2 classes of 1 and 2 transactions over 2 items; transactions to classify hold 90 further items: codes of hundreds of bits", witness_every=5))
    else:
        hs.append(Harness("long", h([2, 2], 2, "int", True), "2 classes of 2 transactions over 2 items; transactions to classify hold 90 further items: codes of hundreds of bits", witness_every=10))
        hs.append(Harness("2classes-2x3", h([2, 2], 3, "int"), "2 classes of 2 transactions over 3 items", witness_every=50))
    return hs


def replay(p):
    d = p["data"]
    items = set(d["items"]) if d["known"] else None
    r, err = real(judge, mods(None), d["groups"], d["kind"], items, d["pruning"], d["X"], d["scale"])
    return [err] if err else r
