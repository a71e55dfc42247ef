#!/usr/bin/env python3
"""python replay.py <module> <counterexample.json>  -- re-run a counterexample on the real code (fresh interpreter)"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import importlib

if __name__ == "__main__":
    if len(sys.argv) == 2:
        c = json.load(open(sys.argv[1]))
        mod = importlib.import_module(c["module"])
    else:
        mod = importlib.import_module(sys.argv[1])
        c = json.load(open(sys.argv[2]))
    import warnings
    warnings.simplefilter("ignore")
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    problems = mod.replay(c)
    sys.stdout = out
    print("PROBLEMS " + json.dumps([[str(a), str(b)] for a, b in problems]))
    sys.exit(1 if problems else 0)
