"""C26: random transactional datasets have the form asked for, whatever is drawn"""
import math

import numpy as np
import pandas as pd

from .common import *
from . import draws

INFO = {"explanation": "make_transactions / make_classification executed with every random draw symbolic; the form of the result is proved."}
MOD = "skmine.datasets"


def items_of(t):
    return list(t)


def check_rows(prove, D, n, lo, n_items, what):
    """lo: first item of each row's alphabet"""
    prove(isinstance(D, pd.Series) and len(D) == n, "%s: %d transactions expected" % (what, n))
    if len(D) != n:
        return
    for t, l in zip(D.tolist(), lo):
        t = items_of(t)
        es = []
        for x in t:
            if not isinstance(x, (Sym, int, np.integer)):
                prove(False, "%s: an item is no integer" % what)
                return
            es.append(E(x) if isinstance(x, Sym) else z3.IntVal(int(x)))
        prove(z3.And([z3.And(e >= l, e < l + n_items) for e in es] + [z3.BoolVal(True)]), "%s: an item is none of the items asked for" % what)
        prove(z3.Distinct(es) if len(es) > 1 else z3.BoolVal(True), "%s: an item is twice in a transaction" % what)


def equal(a, b):
    if list(a.index) != list(b.index):
        return z3.BoolVal(False)
    r = []
    for x, y in zip(a.tolist(), b.tolist()):
        x, y = (list(x), list(y)) if hasattr(x, "__len__") else ([x], [y])
        r.append(z3.BoolVal(len(x) == len(y)) if len(x) != len(y) else z3.And([E(p) == E(q) for p, q in zip(x, y)] + [z3.BoolVal(True)]))
    return z3.And(r + [z3.BoolVal(True)])


def transactions(prove, f, n, n_items, density, start, seed, twice, instance=lambda s: s):
    kw = {} if start is None else {"item_start": start}
    D = f(n_transactions=n, n_items=n_items, density=density, random_state=instance(seed), **kw)
    check_rows(prove, D, n, [start or 0] * n, n_items, "make_transactions")
    if twice:
        E2 = f(n_transactions=n, n_items=n_items, density=density, random_state=instance(seed), **kw)
        prove(equal(D, E2), "make_transactions: the same random_state gives other transactions")


def shares(n, weights):
    return [(math.floor(w * n - 1e-9), math.ceil(w * n + 1e-9)) for w in weights]


def classification(prove, f, n, n_items, kw, seed, twice, instance=lambda s: s):
    n_classes = kw.get("n_classes", 2)
    w = kw.get("weights") or [1 / n_classes] * n_classes
    sep = kw.get("class_sep", 0.2)
    D, y = f(n_samples=n, n_items_per_class=n_items, random_state=instance(seed), **kw)
    what = "make_classification"
    prove(isinstance(y, pd.Series) and len(y) == len(D) == n, "%s: %d samples expected, %d transactions, %d labels" % (what, n, len(D), len(y)))
    if len(y) != len(D) or len(D) != n:
        return
    prove(list(y.index) == list(D.index), "%s: labels and transactions have different indexes" % what)
    ks = [int(v) for v in y.tolist()]
    prove(all(k in range(n_classes) for k in ks), "%s: unknown class" % what)
    for k, (lo, hi) in enumerate(shares(n, w)):
        prove(lo - 1 < ks.count(k) < hi + 1, "%s: class %d has %d samples, its weight asks for %s to %s" % (what, k, ks.count(k), lo, hi))
    if not kw.get("shuffle", True):
        prove(ks == sorted(ks), "%s: shuffled" % what)
    pads = {math.floor(n_items * sep + 1e-9), math.ceil(n_items * sep - 1e-9)}
    # every class has its own alphabet, moved by the same step
    ok = []
    for pad in pads:
        cond = []
        for t, k in zip(D.tolist(), ks):
            es = [E(x) if isinstance(x, Sym) else z3.IntVal(int(x)) for x in items_of(t)]
            cond += [z3.And(e >= k * pad, e < k * pad + n_items) for e in es]
        ok.append(z3.And(cond + [z3.BoolVal(True)]))
    prove(z3.Or(ok), "%s: an item is not of its class" % what)
    for t in D.tolist():
        es = [E(x) if isinstance(x, Sym) else z3.IntVal(int(x)) for x in items_of(t)]
        prove(z3.Distinct(es) if len(es) > 1 else z3.BoolVal(True), "%s: an item is twice in a transaction" % what)
    if twice:
        D2, y2 = f(n_samples=n, n_items_per_class=n_items, random_state=instance(seed), **kw)
        prove(z3.And(equal(D, D2), z3.BoolVal([int(v) for v in y2.tolist()] == ks)), "%s: the same random_state gives another dataset" % what)


# ------------------------------------------------------------------------------------------ harnesses
def pb(c):
    return lambda cond, msg: c.prove(cond if z3.is_expr(cond) else z3.BoolVal(bool(cond)), msg)


def h_trans(ns, items, twice, starts=(None, 0, 7)):
    def run(c):
        n, n_items = c.choice("n", ns), c.choice("n_items", items)
        start, inst = c.choice("start", starts), c.choice("instance", [False, True])
        d = sym_real("density", 0, 1)
        c.assume(z3.And(d.e > 0, d.e < 1))
        seed = c.choice("seed", [None, 0, 42]) if not (inst or twice) else 42
        src = draws.Source()
        c.payload = lambda mo: {"f": "t", "n": n, "n_items": n_items, "start": start, "density": float(model_value(mo, d)), "seed": seed, "twice": twice,
                                "inst": inst, "script": src.payload(mo)}
        with draws.standin(src):
            f = loader.load(MOD).make_transactions
            transactions(pb(c), f, n, n_items, d, start, seed, twice, draws.Draws if inst else (lambda s: s))
    return run


def h_class(ns, items, kws, seeds=(None, 3)):
    def run(c):
        n, n_items, kw = c.choice("n", ns), c.choice("n_items", items), dict(c.choice("kw", kws))
        inst = c.choice("instance", [False, True])
        seed = c.choice("seed", seeds) if not inst else 3
        twice = seed is not None
        src = draws.Source()
        c.payload = lambda mo: {"f": "c", "n": n, "n_items": n_items, "kw": kw, "seed": seed, "twice": twice, "inst": inst, "script": src.payload(mo)}
        with draws.standin(src):
            f = loader.load(MOD).make_classification
            classification(pb(c), f, n, n_items, kw, seed, twice, draws.Draws if inst else (lambda s: s))
    return run


def harnesses(tier):
    q = tier == "quick"
    KW = [dict(shuffle=False), dict(shuffle=False, class_sep=1.0), dict(shuffle=False, class_sep=0.0), dict(n_classes=1, shuffle=False),
          dict(n_classes=3, shuffle=False, class_sep=0.5), dict(shuffle=False, weights=[0.29, 0.71]), dict(shuffle=False, weights=[0.0, 1.0]),
          dict(shuffle=False, weights=[0.5, 0.25, 0.25], n_classes=3, densities=[0.3, 0.5, 0.9]), dict(shuffle=False, densities=[0.9, 0.1], weights=[0.7, 0.3])]
    return [Harness("transactions", h_trans([1, 2] if q else [1, 2, 3], [1, 2, 3] if q else [1, 2, 3, 4], False), "1-2 transactions of 1-3 items, any density, any draws, first item 0 or 7", float_as_object=True, witness_every=3),
            Harness("transactions-seed", h_trans([2] if q else [2, 3], [2, 3], True, (None, -2)), "the same, twice with the same seed or generator state", float_as_object=True, witness_every=3),
            Harness("classes", h_class([1, 2, 3], [2, 3], KW), "1-3 samples of 1-3 classes over 2-3 items, weights, densities, separations; any draws", float_as_object=True, witness_every=3),
            Harness("shuffled", h_class([2, 3], [2], [dict(), dict(class_sep=1.0), dict(class_sep=0.0), dict(n_classes=3)]), "2-3 samples shuffled in any order", float_as_object=True, witness_every=3)]


def replay(p):
    d = p["data"]
    import importlib
    mod = importlib.import_module(MOD)
    bad = []

    def prove(cond, msg):
        if not (z3.is_true(z3.simplify(cond)) if z3.is_expr(cond) else bool(cond)):
            bad.append([msg, msg])

    def go(inst, seed):
        if d["f"] == "t":
            transactions(prove, mod.make_transactions, d["n"], d["n_items"], d["density"], d["start"], seed, d["twice"], inst)
        else:
            classification(prove, mod.make_classification, d["n"], d["n_items"], d["kw"], seed, d["twice"], inst)

    def scripted():
        with draws.standin(draws.Source(d["script"])):
            go(draws.Draws if d["inst"] else (lambda s: s), d["seed"])
    _, err = real(scripted)
    if err:
        return [err]
    if not bad:  # numpy's own generators
        for s in range(5):
            _, err = real(lambda: go(np.random.RandomState if d["inst"] else (lambda s: s), d["seed"] if d["seed"] is None else s))
            if err:
                return [err]
    return bad
