"""C16: mined periodic patterns and residuals give back exactly the event log"""
from .persym import *

INFO = {"explanation": "PeriodicPatternMiner.fit, reconstruct and get_residuals executed on event logs whose times are symbolic "
                       "(unbounded start, moved occurrences), as integers or dates."}
SMALL = ["short", "two", "concat2", "tied", "nested", "noise", "none", "same", "same-event"]
BIG = ["simple", "concat3", "nested2", "mixed", "blockfirst", "twoblocks", "long"]
SEC, MIN, HOUR = 10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9


def harnesses(tier):
    q = tier == "quick"
    W = ("lossless",)
    hs = []

    def add(nm, bounds, **k):
        hs.append(Harness(nm, run_miner(what=W, **k), bounds, hash_mode="eq", witness_every=6))
    add("units", "%d families of logs (up to 10 occurrences), start any integer, 8 time scales from ns to days, integers or dates" % len(SMALL),
        fams=SMALL, scales=[1, 10, 1000, 10 ** 6, SEC, MIN, HOUR, DAY], kinds=["int", "dt"], autos=[True])
    add("noscale", "without automatic scaling", fams=SMALL, scales=[1, 1000, HOUR], kinds=["int", "dt"], autos=[False])
    add("big", "families with nested and combined patterns (up to 27 occurrences)", fams=BIG, scales=[1, SEC] if q else [1, 10, SEC, DAY],
        kinds=["int", "dt"], autos=[True])
    add("orders", "unsorted and duplicated rows", fams=["short", "tied", "none", "concat2"] + ([] if q else ["two", "nested"]),
        scales=[10, HOUR] if q else [1, 10, HOUR], kinds=["dt"] if q else ["int", "dt"],
        autos=[True], orders=["reversed", "events"] if q else ["reversed", "rotated", "events"], changes=["none", "repeat"])
    add("events", "events that are numbers, simple cycles only", fams=["two", "tied", "concat2", "nested", "noise"], scales=[1], kinds=["int", "dt"],
        autos=[True, False], complexs=[True, False], evkinds=["int", "digits"])
    add("moved", "one occurrence moved by a symbolic amount in [-%d, %d], or dropped" % ((1, 1) if q else (4, 4)),
        fams=["short", "two", "concat2", "same-event"] + ([] if q else ["tied", "nested", "simple", "noise", "concat3"]),
        scales=[1], kinds=["int"], autos=[True], changes=["move", "drop"], width=1 if q else 4)
    add("reuse", "a miner fitted before on another log", fams=["two", "nested", "none"], scales=[1, DAY], kinds=["int", "dt"], autos=[True],
        befores=[{"points": [(t, e) for t, e in F.fam("concat2")], "unit": "s"}, {"points": F.fam("nested"), "unit": "int"}])
    hs.append(Harness("repeated", run_repeated([(0, 1), (9, 60)], ["int", "dt"], W),
                      "imported patterns that give some occurrences twice; start, period and two residuals any integers", hash_mode="eq", log_mode="uf", witness_every=6))
    return hs


replay = replay_any
