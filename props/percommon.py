"""Periodic patterns: tree shapes, an independent definition of the occurrences of a pattern, symbolic candidates"""
from .common import *

# a shape: int = leaf carrying that event; (r, [children]) = block repeated r times.  Periods and distances are
# attached in depth-first order from the lists `ps` (one per block) and `ds` (one per non-first child).


def size(sh):
    return 1 if isinstance(sh, int) else sh[0] * sum(size(c) for c in sh[1])


def n_ps(sh):
    return 0 if isinstance(sh, int) else 1 + sum(n_ps(c) for c in sh[1])


def n_ds(sh):
    return 0 if isinstance(sh, int) else len(sh[1]) - 1 + sum(n_ds(c) for c in sh[1])


def depth(sh):
    return 0 if isinstance(sh, int) else 1 + max(depth(c) for c in sh[1])


def nodes_of(sh, ps, ds, shuffle=False):
    """the tree as the dictionary documented in class Pattern (node ids in depth-first order, root 0)"""
    ps, ds, nodes, k = list(ps), list(ds), {}, [0]

    def rec(s, parent):
        nid = k[0]
        k[0] += 1
        if isinstance(s, int):
            nodes[nid] = {"parent": parent, "event": s}
            return nid
        nodes[nid] = {"parent": parent, "p": ps.pop(0), "r": s[0], "children": []}
        kids = []
        dists = [0] + [ds.pop(0) for _ in s[1][1:]]
        for c, d in zip(s[1], dists):
            kids.append((rec(c, nid), d))
        nodes[nid]["children"] = kids
        return nid
    rec(sh, None)
    return nodes


def o_occs(sh, ps, ds, t0, E=None):
    """occurrences by definition: the r-th repetition starts one period after the previous one, a block starts at its
    distance from the block before it, and the correction of an occurrence moves it together with everything placed
    relatively to it.  E[i-1] corrects the i-th occurrence.  Returns [(time, event)] in depth-first order."""
    E = [0] + list(E) if E is not None else [0] * size(sh)
    it = iter(E)

    # assign period/distances per block once (they are shared by the repetitions)
    psl, dsl = list(ps), list(ds)

    def annotate(s):
        if isinstance(s, int):
            return s
        p = psl.pop(0)
        dd = [0] + [dsl.pop(0) for _ in s[1][1:]]
        return (s[0], p, [(d, annotate(c)) for d, c in zip(dd, s[1])])

    def rec(a, base, out):
        if isinstance(a, int):
            t = base + next(it)
            out.append((t, a))
            return t
        r, p, kids = a
        first = None
        prev = None
        for i in range(r):
            start = base if i == 0 else prev + p
            cur = None
            for ci, (d, k) in enumerate(kids):
                cur = rec(k, start if ci == 0 else cur + d, out)
                if ci == 0:
                    prev = cur
                    if i == 0:
                        first = cur
        return first
    out = []
    rec(annotate(sh), t0, out)
    return out


def shapes(max_occ, max_depth=3, rs=(2, 3), max_kids=3, events=3):
    """every tree with at most max_occ occurrences (events numbered in order of appearance modulo `events`)"""
    def kids_of(subs, k, room):
        """ordered lists of k children with at most `room` occurrences in total"""
        if k == 0:
            yield []
            return
        for s in subs:
            if sz(s) + k - 1 <= room:
                for rest in kids_of(subs, k - 1, room - sz(s)):
                    yield [s] + rest

    def skel(dep, room):
        out = [None]
        if dep == 0:
            return out
        for r in rs:
            if room // r < 1:
                continue
            subs = skel(dep - 1, room // r)
            for k in range(1, max_kids + 1):
                for kids in kids_of(subs, k, room // r):
                    out.append((r, kids))
        return out

    def sz(s):
        return 1 if s is None else s[0] * sum(sz(c) for c in s[1])

    def label(s, n):
        if s is None:
            n[0] += 1
            return (n[0] - 1) % events
        return (s[0], [label(c, n) for c in s[1]])
    return [label(s, [0]) for s in skel(max_depth, max_occ) if s is not None and sz(s) <= max_occ]


def sym_list(name, n, lo=None):
    return [sym_int("%s%d" % (name, i), lo) for i in range(n)]


def mv(mo, xs):
    return [model_value(mo, x) for x in xs]


def eq_seq(a, b):
    """z3: same length and equal element by element (pairs: equal times, same events)"""
    a, b = list(a), list(b)
    if len(a) != len(b):
        return z3.BoolVal(False)
    cs = []
    for x, y in zip(a, b):
        if isinstance(x, (tuple, list)):
            if x[1] != y[1]:
                return z3.BoolVal(False)
            x, y = x[0], y[0]
        cs.append(E(x) == E(y))
    return z3.And(cs) if cs else z3.BoolVal(True)


def eq_multiset(a, b):
    """z3: two lists of (time, event) hold the same occurrences with the same multiplicities"""
    a, b = [tuple(x) for x in a], [tuple(x) for x in b]
    if len(a) != len(b) or sorted(x[1] for x in a) != sorted(x[1] for x in b):
        return z3.BoolVal(False)
    conds = []
    for x in a:
        conds.append(z3.Sum([z3.If(E(y[0]) == E(x[0]), 1, 0) for y in a if y[1] == x[1]]) ==
                     z3.Sum([z3.If(E(y[0]) == E(x[0]), 1, 0) for y in b if y[1] == x[1]]))
    return z3.And(conds) if conds else z3.BoolVal(True)


def need(mod, name):
    """an internal function of the code under test that a refactoring may have removed: then the harness cannot run"""
    f = getattr(mod, name, None)
    if f is None:
        raise engine.Unsupported("%s.%s is gone" % (mod.__name__, name))
    return f
