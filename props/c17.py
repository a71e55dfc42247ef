"""C17: the table of periodic patterns describes exactly the occurrences they stand for, on the user's time scale"""
from .persym import *

INFO = {"explanation": "PeriodicPatternMiner.transform executed on mined and imported patterns with symbolic times; the displayed "
                       "pattern, start and corrections are read back independently and compared with reconstruct()."}
SMALL = ["short", "two", "concat2", "tied", "nested", "noise", "none"]
BIG = ["concat3", "nested2", "mixed", "blockfirst", "twoblocks"]
SEC, MIN, HOUR = 10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9
W = ("shown",)


def shapes_for(n):
    return [(3, [0]), (2, [0, 1]), (3, [0, 1]), (2, [(2, [0])]), (2, [0, (2, [1])]), (2, [(2, [0]), 1])] + \
        ([] if n < 2 else [(2, [(2, [0, 1]), 2]), (3, [(2, [0]), 0]), (2, [0, 1, 2]), (2, [(2, [(2, [0])])])])


def harnesses(tier, W=W, scales=UNIT_SCALES, over=True):
    q = tier == "quick"
    hs = []

    def add(nm, bounds, **k):
        hs.append(Harness(nm, run_miner(what=W, **k), bounds, hash_mode="eq", witness_every=6))

    def imp(nm, bounds, **k):
        hs.append(Harness(nm, run_imported(what=W, **k), bounds, hash_mode="eq", log_mode="uf", witness_every=6))
    imp("imported", "imported patterns, tree shapes with up to 6 occurrences in increasing order; start, periods, distances, corrections any integers; "
        "8 time scales", shs=shapes_for(1 if q else 2), scales=scales, kinds=["int", "dt"], increasing=True)
    if over:
        imp("overlapping", "imported patterns whose occurrences are in any order", shs=[(2, [0, 1]), (2, [(2, [0])])] if q else [(2, [0, 1]), (2, [(2, [0])]), (3, [0]), (2, [0, 1, 0])],
            scales=[(0, 1)] if q else [(0, 1), (9, 60)], kinds=["int", "dt"], increasing=False, residual=False)
    imp("several", "two imported patterns", shs=[(2, [0]), (2, [0, 1])], pairs=[(2, [0]), (2, [1])], scales=[(0, 1), (9, 60)] if over else [(3, 1)], kinds=["int", "dt"] if over else ["dt"], increasing=True)
    add("units", "mined patterns, %d families of logs, start any integer, 7 time scales, integers or dates" % len(SMALL),
        fams=SMALL, scales=[1000, 10 ** 4, 10 ** 6, SEC, MIN, HOUR, DAY] if over else [1000, SEC, HOUR], kinds=["int", "dt"], autos=[True])
    add("big", "mined patterns, nested and combined", fams=BIG, scales=[SEC] if q else [1000, SEC, DAY], kinds=["int", "dt"], autos=[True])
    add("noscale", "without automatic scaling", fams=SMALL, scales=[1, 1000], kinds=["int"], autos=[False])
    return hs


replay = replay_any
