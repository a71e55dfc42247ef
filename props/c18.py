"""C18: exporting periodic patterns and importing them elsewhere gives back the same model"""
from .persym import *
from . import c17

INFO = {"explanation": "export_patterns and import_patterns (twice in a row) executed on mined and imported patterns with symbolic "
                       "times; every public view of the miners is compared."}
W = ("roundtrip",)


def harnesses(tier):
    q = tier == "quick"
    hs = c17.harnesses(tier, W, [(0, 1), (9, 60)] if q else UNIT_SCALES, not q)

    def add(nm, bounds, **k):
        hs.append(Harness(nm, run_miner(what=W, **k), bounds, hash_mode="eq", witness_every=6))
    add("events", "events that are numbers, miners used before", fams=["two", "tied", "concat2", "none"], scales=[1, 10 ** 9], kinds=["int", "dt"],
        autos=[True], evkinds=["int", "digits"], used=[True, False])
    hs.append(Harness("repeated", run_repeated([(0, 1)] if q else [(0, 1), (9, 60)], ["int", "dt"], W),
                      "imported patterns that give some occurrences twice", hash_mode="eq", log_mode="uf", witness_every=6))
    hs.append(Harness("occurrences", run_imported(shs=c17.shapes_for(2), scales=[(0, 1), (9, 60)], kinds=["int"] if q else ["int", "dt"], increasing=True,
                                                  what=("lossless",)),
                      "imported patterns give the occurrences written in the file", hash_mode="eq", log_mode="uf", witness_every=6))
    return hs


replay = replay_any
