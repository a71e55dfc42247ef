"""the graphs on which C22 and C23 are decided; capital letters are symbolic labels (same letter: same label)"""
from .graphcommon import *


def digraphs(n, connected=True):
    """directed graphs on n vertices up to isomorphism"""
    out = []
    prs = [(i, j) for i in range(1, n + 1) for j in range(1, n + 1) if i != j]
    for m in range(1, len(prs) + 1):
        for es in itertools.combinations(prs, m):
            g = nx.DiGraph()
            g.add_nodes_from(range(1, n + 1))
            g.add_edges_from(es)
            if (not connected or nx.is_weakly_connected(g)) and not any(nx.is_isomorphic(g, h) for h in out):
                out.append(g)
    return [sorted(g.edges) for g in out]


def spec(nodes, edges, labels, **k):
    return dict({"nodes": list(nodes), "edges": [[u, v, x] for (u, v), x in zip(edges, labels)]}, **k)


D2, D3 = digraphs(2), digraphs(3)
AB = ["A", "B"]
# graphs for which several patterns are found, merged and pruned (found by a search over random graphs)
MINED = [
    (['B', 'A', 'B', 'A', AB], [[2, 5, 'X'], [3, 5, 'X'], [4, 3, 'X'], [5, 1, 'X']]),
    (['B', 'B', AB, 'A', 'A'], [[1, 2, 'X'], [3, 5, 'X'], [3, 2, 'X'], [4, 3, 'X'], [5, 3, 'X'], [5, 1, 'X']]),
    (['B', 'B', None, 'A', 'B'], [[1, 5, 'X'], [3, 5, 'X'], [3, 2, 'Y'], [4, 2, 'X'], [4, 5, 'Y']]),
    (['A', None, 'B', 'B', 'A'], [[1, 5, 'X'], [2, 1, 'X'], [3, 1, 'X'], [4, 5, 'X'], [5, 2, 'X']]),
    ([None, 'B', 'A', 'B', 'A'], [[2, 5, 'X'], [3, 2, 'X'], [5, 4, 'X'], [5, 3, 'X'], [5, 1, 'X']]),
    ([None, 'A', None, AB, 'B'], [[3, 1, 'X'], [4, 2, 'X'], [5, 1, 'X'], [5, 4, 'X']]),
    (['B', None, 'B', 'A', 'B'], [[1, 2, 'Y'], [1, 5, 'X'], [3, 5, 'X'], [4, 1, 'X']]),
    ([None, None, None, 'B', AB], [[1, 5, 'X'], [2, 3, 'X'], [3, 5, 'X'], [4, 3, 'X']]),
    ([None, 'A', 'B', 'A', None], [[1, 2, 'X'], [1, 4, 'X'], [2, 5, 'Y'], [5, 3, 'X']]),
    (['A', 'A', 'A', 'A', 'B'], [[1, 2, 'X'], [3, 1, 'X'], [4, 5, 'X'], [4, 3, 'X']]),
    (['A', 'B', 'A', AB, 'A'], [[2, 1, 'X'], [2, 5, 'X'], [4, 3, 'X'], [4, 2, 'X']]),
    (['A', None, 'A', 'B', 'B'], [[2, 3, 'Y'], [3, 1, 'X'], [4, 1, 'X'], [5, 3, 'X']]),
    (['A', 'A', 'B', AB, 'A'], [[1, 3, 'X'], [3, 5, 'X'], [3, 2, 'X'], [3, 4, 'X']]),
    (['A', 'A', 'A', 'A', None], [[1, 5, 'X'], [2, 5, 'X'], [4, 3, 'X'], [5, 3, 'X']]),
    ([None, 'B', None, 'B', 'A'], [[1, 5, 'X'], [2, 5, 'Y'], [4, 3, 'Y'], [5, 4, 'X']]),
    (['A', None, 'A', 'B', 'A'], [[2, 1, 'Y'], [3, 2, 'X'], [4, 1, 'X'], [5, 1, 'X']]),
    ([None, None, 'B', 'B', 'B'], [[1, 4, 'X'], [2, 4, 'X'], [3, 1, 'X'], [4, 1, 'Y'], [5, 4, 'X']]),
    (['B', None, 'A', 'A', AB], [[1, 4, 'X'], [1, 2, 'X'], [1, 3, 'Y'], [1, 5, 'X'], [4, 1, 'X'], [5, 3, 'X']]),
    (['A', 'A', 'A', AB, 'B'], [[1, 2, 'X'], [2, 3, 'Y'], [3, 4, 'X'], [4, 3, 'X'], [5, 4, 'X'], [5, 3, 'X']]),
    (['B', 'B', 'A', 'A', 'A'], [[1, 5, 'Y'], [1, 3, 'X'], [2, 3, 'X'], [4, 3, 'X']]),
    ([None, 'A', AB, AB, None], [[1, 3, 'X'], [3, 5, 'X'], [4, 2, 'X'], [5, 4, 'Y']]),
    (['A', None, 'A', AB, AB], [[2, 4, 'X'], [3, 1, 'X'], [5, 2, 'X'], [5, 1, 'X']]),
]
LARGE = [
    (['A', AB, 'A', None, 'A', 'B', 'A'], [[1, 4, 'X'], [2, 7, 'X'], [3, 7, 'Y'], [3, 6, 'X'], [4, 6, 'X'], [7, 5, 'Y'], [7, 6, 'X']]),
    (['A', None, 'A', 'A', 'B', 'A'], [[1, 3, 'X'], [2, 3, 'X'], [5, 6, 'X'], [6, 2, 'Y'], [6, 4, 'X']]),
    (['A', 'A', 'A', None, 'B', 'B'], [[1, 5, 'X'], [1, 2, 'X'], [4, 1, 'Y'], [5, 3, 'X'], [6, 5, 'X']]),
    (['A', 'B', AB, AB, 'A', AB], [[1, 6, 'X'], [3, 1, 'Y'], [4, 3, 'X'], [6, 2, 'X'], [6, 4, 'X'], [6, 5, 'X']]),
    ([AB, 'A', 'A', None, None, AB, 'A'], [[1, 2, 'Y'], [4, 5, 'X'], [5, 2, 'Y'], [5, 4, 'Y'], [6, 3, 'X'], [6, 4, 'X'], [7, 5, 'X']]),
    (['A', None, 'A', 'B', 'A', 'A', 'B'], [[3, 6, 'X'], [4, 2, 'X'], [4, 3, 'Y'], [4, 1, 'X'], [4, 7, 'X'], [5, 4, 'X']]),
    (['B', 'B', 'A', None, AB, None, 'A'], [[2, 5, 'X'], [2, 7, 'X'], [2, 1, 'X'], [2, 4, 'X'], [3, 4, 'Y'], [5, 3, 'X'], [6, 2, 'Y']]),
    (['A', 'A', 'B', 'A', 'B', 'A', AB], [[2, 5, 'Y'], [2, 3, 'Y'], [3, 1, 'X'], [4, 1, 'X'], [5, 7, 'Y'], [6, 2, 'X'], [6, 3, 'Y'], [7, 4, 'X']]),
    (['A', 'B', None, 'A', 'A', AB, 'A'], [[2, 6, 'Y'], [2, 5, 'X'], [3, 5, 'X'], [4, 1, 'X'], [5, 2, 'Y'], [5, 7, 'Y'], [6, 4, 'X'], [6, 3, 'X']]),
    (['B', 'A', AB, 'A', None, None, 'A'], [[1, 2, 'Y'], [2, 4, 'Y'], [3, 6, 'Y'], [3, 2, 'Y'], [5, 2, 'X'], [7, 1, 'Y']]),
    ([AB, 'A', 'A', 'B', 'A', 'A', 'A'], [[1, 6, 'X'], [2, 4, 'X'], [2, 7, 'X'], [3, 7, 'X'], [5, 1, 'X'], [6, 7, 'Y']]),
    (['A', 'B', 'A', 'B', 'A', 'A'], [[1, 4, 'X'], [2, 5, 'X'], [3, 1, 'X'], [4, 2, 'Y'], [5, 1, 'X'], [5, 4, 'Y'], [6, 4, 'X']]),
    (['A', 'B', 'A', AB, 'B', 'A', 'B'], [[2, 7, 'X'], [3, 5, 'Y'], [4, 5, 'X'], [4, 6, 'X'], [5, 7, 'X'], [6, 3, 'X'], [6, 1, 'X'], [7, 1, 'X']]),
]


def of(l, **k):
    return [dict({"nodes": n, "edges": e}, **k) for n, e in l]


def freed(n, e):
    """one label at a time made a label of its own"""
    for i, x in enumerate(n):
        if isinstance(x, str):
            yield {"nodes": n[:i] + ["C"] + n[i + 1:], "edges": e}
        elif isinstance(x, list):
            yield {"nodes": n[:i] + [[x[0], "C"]] + n[i + 1:], "edges": e}
        else:
            yield {"nodes": n[:i] + ["C"] + n[i + 1:], "edges": e}
    for i, (u, v, _) in enumerate(e):
        yield {"nodes": n, "edges": e[:i] + [[u, v, "Z"]] + e[i + 1:]}


def path(n):
    return [(i, i + 1) for i in range(1, n)]


def small(q):
    out = [spec(nodes, es, "XY") for es in D2 for nodes in (["A", "B"], ["A", None], [None, None], [AB, "C"], [AB, AB])]
    for es in D3:
        m = len(es)
        if m == 2:
            out += [spec(["A", "B", "C"], es, "XY"), spec([AB, "A", None], es, "XY"), spec([None, AB, AB], es, "XY")]
        elif m == 3:
            out += [spec(["A", "B", "A"], es, "XYZ"), spec([None, "A", AB], es, "XYZ")] + ([] if q else [spec("ABC", es, "XYZ")])
        else:
            out += [spec(["A", "B", "A"], es, "XYXYXY"), spec(["A", None, AB], es, "XYYXXY")] + \
                ([] if q else [spec("ABC", es, "XYZXYZ")])
    return out


def repeats(q):
    out = [spec("ABCD", [(1, 2), (3, 4)], "XY"),
           spec("ABABC", path(5), "XXXY"), spec("ABABAB", [(1, 2), (3, 4), (5, 6)], "XXY"),
           spec(["A", "B", "B", "B", "C"], [(1, i) for i in (2, 3, 4, 5)], "XXXY"),
           spec(["A", "B", "B", "B", "C"], [(i, 1) for i in (2, 3, 4, 5)], "XXXY"),
           spec("ABAB", [(1, 2), (2, 3), (3, 4), (4, 1)], "XYXZ"),
           spec(["A", None, "A", None, "B", None], [(1, 2), (2, 3), (3, 4), (4, 5), (5, 6)], "XYXYX"),
           spec([AB, AB, AB, "C"], path(4), "XXY"), spec([AB, AB, AB, ["A", "C"]], [(1, 2), (3, 4)], "XY"),
           spec(["A", "A", "A", "B", "B", "B", None], [(1, 4), (2, 5), (3, 6), (4, 7), (5, 7), (6, 7)], "XXXYYY"),
           spec(["A"] * 6 + ["B"], [(1, 2), (2, 3), (3, 1), (4, 5), (5, 6), (6, 4), (6, 7)], "XXYXXYX"),
           spec([["A", "B", "C"], ["A", "B", "C"], AB], path(3), "XX"), spec(["A", "B", None], [], ""),
           spec([AB, AB, "C"], [], ""), spec([None, None, None, None], path(4), "XYZ")]
    return out if q else out + [spec("ABCDE", path(5), "XXXX"), spec("ABABAB", path(6), "XYXYZ"),
                                spec([AB, "C", AB, "C", "A"], path(5), "XYXY")]


def rowed(q):
    """data graphs with given rows: covering is lossless whatever the patterns are"""
    out = []
    one = [spec("AB", [(1, 2)], "X"), spec(["A", None], [(1, 2)], "X"), spec([None, "A"], [(1, 2)], "X"),
           spec("ABA", path(3), "XX"), spec([None] * 3, path(3), "XY"), spec([None, "A", None], [(1, 2), (3, 2)], "XX"),
           spec([None] * 3, [(1, 2), (1, 3)], "XX"), spec(["A", "A"], [(1, 2), (2, 1)], "XX"),
           spec(["A", "B", None], [(1, 2), (2, 3), (3, 1)], "XXX"), spec([AB], [], ""), spec([AB, "A"], [(1, 2)], "X")]
    data = [spec(["A", "B", "C"], [(1, 2), (2, 3), (3, 1)], "XXY"),
            spec(["A", "B", "A", "B"], path(4), "XYX"), spec([AB, "A", AB], [(1, 2), (2, 3), (2, 1)], "XXY"),
            spec(["A", None, "B", "C"], [(1, 2), (3, 2), (4, 2), (2, 4)], "XXYX"),
            spec(["A", "A", "A", "B"], [(1, 2), (2, 1), (2, 3), (3, 2), (3, 4)], "XXXXY")]
    for d in data:
        for r in one:
            out.append(dict(d, rows=[r]))
        for a, b in ((0, 3), (4, 0), (5, 9), (6, 1), (7, 0), (9, 10), (3, 5), (8, 4)):
            out.append(dict(d, rows=[one[a], one[b]], again=1))
    fresh = [spec("PQ", [(1, 2)], "U"), spec(["P", None, None], path(3), "UV"), spec([None, "P"], [(1, 2)], "U")]
    for d in data[:2 if q else 4]:
        for r in fresh:
            out.append(dict(d, rows=[r]))
    return out


def multi(q):
    """graphs with parallel edges"""
    def m(nodes, edges, labels, **k):
        return spec(nodes, edges, labels, multi=True, **k)
    e2 = [(1, 2), (1, 2)]
    out = [m(n, e2, "XY") for n in (["A", "B"], ["A", "A"], [None, None], [AB, "C"], [AB, AB])]
    out += [m("AB", e2 + [(2, 1)], "XYZ"), m(["A", None], e2 + [(2, 1), (2, 1)], "XYXY"), m("ABC", e2 + [(1, 3)], "XYZ"),
            m("ABA", e2 + [(3, 2), (3, 2)], "XYXZ"), m("ABAB", e2 + [(3, 4), (3, 4)], "XYXZ"), m(["A"] * 3, e2 + [(2, 3), (2, 3)], "XYXY"),
            m(["A", None, "B", AB], e2 + [(3, 2), (4, 2), (4, 2)], "XYXXY"), m(["A", "B", "A", "B"], e2 + [(2, 3), (3, 4), (3, 4)], "XYZXY"),
            m(["A", "A", "A", "B"], e2 + [(2, 3), (2, 3), (3, 4)], "XYXYX"), m(["A", "B", "A", "B", "A"], e2 + [(3, 4), (3, 4), (5, 4)], "XYXYX"),
            m("ABC", path(3), "XY"), m("ABAB", path(4), "XYX"), m("AB", e2 + [(1, 2)], "XYZ"), m("AB", e2 + [(1, 2), (2, 1)], "XYZX"),
            m("ABAB", e2 + [(1, 2), (3, 4), (3, 4), (3, 4)], "XYZXYZ"), m("ABAC", e2 + [(1, 2), (3, 4), (3, 4), (2, 3)], "XYZXZX")]
    # the mined graphs with one of their edges doubled
    for n, e in (MINED[::8] if q else MINED[::2]):
        out.append({"nodes": n, "edges": e + [[e[0][0], e[0][1], "Z"]], "multi": True})
    out += [dict(x, keys=k) for x in out[5:17:3] + out[-1:] for k in ("int", "str")]
    one = [m("AB", e2, "XY"), m("AB", [(1, 2)], "X"), m([None, None], e2, "XY"), m([None] * 3, e2 + [(2, 3)], "XYX"), m(["A", None], [(1, 2), (2, 1)], "XY")]
    for d in (m("ABAB", e2 + [(3, 4), (3, 4)], "XYXZ"), m("ABA", e2 + [(2, 3), (2, 1)], "XYXY")):
        out += [dict(d, rows=[r]) for r in one] + [dict(d, rows=[one[0], one[3]], again=1), dict(d, rows=[one[4], one[1]])]
    return out


def families(W, tier):
    q = tier == "quick"
    hs = [harness("small", small(q), "every weakly connected directed graph on 2 or 3 vertices; up to 6 different labels, any texts of one character", W),
          harness("repeats", repeats(q), "paths, stars, cycles, copies of up to 7 vertices; any labels of one character", W),
          harness("mined", of(MINED), "%d graphs of 5 vertices for which patterns are merged and pruned; any labels (equal or not, in any order)" % len(MINED), W),
          harness("large", of(LARGE[::2] if q else LARGE), "graphs of 6 or 7 vertices", W),
          harness("freed", [s for n, e in (MINED[::7] if q else MINED + LARGE[::3]) for s in freed(n, e)], "the same graphs with one label made any label", W),
          harness("names", [spec(["A", "B", "A"], path(3), "XX"), spec("AAB", [(1, 2), (1, 3)], "XY"), spec([AB, AB], [(1, 2)], "X"),
                            dict(nodes=MINED[9][0], edges=MINED[9][1])], "labels of one or two characters (so any names like P0, v1 or 12)", W, lengths_=(1, 2)),
          harness("cover", rowed(q), "code tables with one or two given patterns (also ones that do not occur, overlap themselves or have symmetries)", W),
          harness("ids", [dict(x, ids=i) for i in ("str", "zero", "tuple", "neg") for x in of(MINED[9:11] if q else MINED[1::3]) + [spec("ABAB", path(4), "XYX"), spec([AB, "A", AB], [(1, 2), (2, 3), (2, 1)], "XXY")]],
                  "vertices called by texts, by 0, by negative numbers, by tuples", W),
          harness("multi", multi(q), "graphs with parallel edges (of different labels)", W),
          harness("timeout", of(MINED[9:21:5] if q else MINED[::3], timeout=10), "the time limit passes before any reading of the clock", W),
          harness("again", of(MINED[1::5], same=True) + [dict(s, before={"nodes": MINED[0][0], "edges": MINED[0][1]}) for s in of(MINED[2::5])],
                  "a miner fitted before on another graph or on the same graph object", W)]
    return hs
