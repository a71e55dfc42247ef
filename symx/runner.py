"""Runs the harnesses of one property on 8 workers, replays counterexamples on the real code, writes the evidence."""
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
SLICE_S = 6.0


class Harness:
    """one symbolic harness.  run(c) drives the code under test; it must set c.payload = fn(model)->json-able early"""

    def __init__(self, name, run, bounds, functions="", log_mode="concrete", float_as_object=False, conc_cap=400,
                 witness_every=1, weight=1.0, query_timeout_ms=20000, hash_mode="concrete"):
        self.name, self.run, self.bounds = name, run, bounds
        self.functions = functions
        self.log_mode, self.float_as_object = log_mode, float_as_object
        self.conc_cap = conc_cap
        self.witness_every = witness_every
        self.query_timeout_ms = query_timeout_ms
        self.hash_mode = hash_mode


def jsonable(x):
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else float(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    if hasattr(x, "item"):
        return x.item()
    return str(x)


# ------------------------------------------------------------------------------------------------ worker side
_H = None
_MOD = None
_WIT = {}


def _worker_init(modname, tier, scratch):
    global _H, _MOD
    d = tempfile.mkdtemp(prefix="w", dir=scratch)
    os.chdir(d)
    sys.stdout = open(os.devnull, "w")
    if not os.environ.get("SX_DEBUG"):
        sys.stderr = open(os.devnull, "w")
    import warnings
    warnings.simplefilter("ignore")
    _MOD = importlib.import_module(modname)
    _H = _MOD.harnesses(tier)


def _task(args):
    hi, prefix, until = args
    from symx import engine, loader, values
    from symx import bitmap
    h = _H[hi]
    values.LOG_MODE = h.log_mode
    values.HASH_MODE = h.hash_mode
    loader.FLOAT_AS_OBJECT = h.float_as_object
    eng = engine.Engine(query_timeout_ms=h.query_timeout_ms, conc_cap=h.conc_cap)
    out = {"hi": hi, "cex": [], "wit": [], "notes": [], "funcs": [], "pending": [], "err": None, "spurious": []}
    prof = loader.Profiler()
    state = {"n": 0, "retries": 0}
    wseen = _WIT.setdefault(hi, [0, 0])

    def payload_of(e, model):
        try:
            return {"harness": h.name, "data": jsonable(e.payload(model))}
        except Exception as ex:
            out["notes"].append("payload: %r" % (ex,))
            return None

    def report(p, count=True):
        """first replay in this process (cheap filter); confirmed by the parent in a fresh interpreter"""
        try:
            problems = _MOD.replay(copy.deepcopy(p))
        except Exception as ex:
            problems = [["replay-error", repr(ex)]]
        if not problems and not count:
            return False
        if not problems:
            eng.stats.add("not_reproduced")
            if len(out["spurious"]) < 2:
                out["spurious"].append({"label": p["label"], "data": p["data"], "exc": p.get("exc", "")[-700:]})
            return False
        out["cex"].append(p)
        return True

    def on_cex(e, model, label, neg=None):
        p = payload_of(e, model)
        if p is None:
            return
        p["label"] = label
        if report(p):
            return
        # the model may rely on an over-approximation (e.g. uninterpreted logarithms): try other models of the query
        if state["retries"] < 400:
            for m in e.more_models(model, neg, 12):
                state["retries"] += 1
                p = payload_of(e, m)
                if p is None:
                    return
                p["label"] = label
                if report(p, False):
                    eng.stats.add("not_reproduced", -1)
                    return

    eng.cex_handler = on_cex

    def witness(e, why):
        """run the real code on one concrete input of this path"""
        try:
            m = e.small_model()
        except BaseException as ex:
            return
        p = payload_of(e, m)
        if p is None:
            return
        t = time.time()
        try:
            problems = _MOD.replay(copy.deepcopy(p))
        except Exception as ex:
            problems = [["replay-error", repr(ex)]]
        wseen[1] += 1
        eng.stats.add("witness_runs")
        eng.stats.add("witness_s", time.time() - t)
        if problems:
            p["label"] = "witness(%s): %s" % (why, problems[0][1][:200])
            out["cex"].append(p)

    def run(e):
        state["n"] += 1
        bitmap.set_weights({})
        e.payload = lambda m: None
        pr = state["n"] == 1
        if pr:
            sys.setprofile(prof)
        try:
            h.run(e)
        except Exception as ex:
            if isinstance(ex, (engine.PathEnd, engine.CexFound)):
                raise
            sys.setprofile(None)
            tb = traceback.format_exc()
            if os.environ.get("SX_DEBUG"):
                sys.stderr.write(tb)
            try:
                m = e.small_model()
            except engine.PathEnd:
                raise
            p = payload_of(e, m)
            if p is not None:
                p["label"] = "exception %s: %s" % (type(ex).__name__, str(ex)[:200])
                p["exc"] = tb[-1500:]
                report(p)
            eng.stats.add("counterexamples")
            raise engine.CexFound(str(ex))
        finally:
            sys.setprofile(None)

    def on_path(e):
        wseen[0] += 1
        if wseen[0] <= 100 or wseen[0] % h.witness_every == 0:
            witness(e, "path")

    def on_unsupported(e, ex):
        out["notes"].append("%s: %s" % (type(ex).__name__, str(ex)[:300]))
        witness(e, "unsupported")

    end = min(time.time() + SLICE_S, until)
    try:
        out["pending"] = eng.explore(run, prefix=prefix, deadline=end, on_path=on_path, on_unsupported=on_unsupported)
    except engine.NonDet as ex:
        out["err"] = "nondeterministic re-execution: %s" % ex
    except BaseException as ex:
        out["err"] = "engine: %s %s" % (type(ex).__name__, traceback.format_exc()[-1200:])
    out["stats"] = dict(eng.stats)
    out["funcs"] = sorted(prof.seen)
    out["files"] = sorted(loader.FILES)
    return out


# ------------------------------------------------------------------------------------------------ replay
def replay_subprocess(modname, path, timeout=240):
    """re-run a counterexample on the unpatched real code in a fresh interpreter; returns list of problems"""
    env = dict(os.environ)
    env["PYTHONPATH"] = os.environ.get("SX_REPO", "/repo")
    d = tempfile.mkdtemp(prefix="sxreplay")
    try:
        r = subprocess.run([PY, "-W", "ignore", os.path.join(ROOT, "replay.py"), modname, path], cwd=d, env=env,
                           capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return [["timeout", "replay did not terminate within %ss" % timeout]], "timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for line in r.stdout.splitlines():
        if line.startswith("PROBLEMS "):
            return json.loads(line[9:]), ""
    return None, (r.stdout + r.stderr)[-2000:]


def load_findings():
    fn = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            # other lines are comments or "fixed: property=..." records, which suppress nothing
            if line.startswith("finding: "):
                out.append(dict(json.loads(line[9:]), status="finding"))
    return out


# ------------------------------------------------------------------------------------------------ parent
def main(pid, modname, tier, budget, seed=1):
    t_start = time.time()
    mod = importlib.import_module(modname)
    hs = mod.harnesses(tier)
    only = os.environ.get("SX_ONLY")
    scratch = tempfile.mkdtemp(prefix="sx_%s_" % pid)
    evdir = os.path.join(ROOT, "evidence")
    rdir = os.path.join(evdir, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(rdir, f))
    findings = [f for f in load_findings() if f.get("property") == pid and f.get("status") == "finding"]
    nproc = int(os.environ.get("SX_PROCS", "8"))
    per = {h.name: {"bounds": h.bounds, "stats": {}, "pending": 0, "notes": {}, "errors": []} for h in hs}
    funcs, files = set(), set()
    violation = None
    known, spurious, replays = {}, 0, 0
    seen_payload = set()
    spurious_ex = []
    deadline = t_start + budget
    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(nproc, initializer=_worker_init, initargs=(modname, tier, scratch), maxtasksperchild=200)
    try:
        queue = [(i, []) for i, h in enumerate(hs) if not only or only in h.name]
        running = []
        slots = nproc + 2
        while queue or running:
            # round-robin over harnesses so that every harness gets explored
            now = time.time()
            if now > deadline:
                for hi, _ in queue:
                    per[hs[hi].name]["pending"] += 1
                queue = []
                if not running:
                    break
            while queue and len(running) < slots:
                k = min(range(len(queue)), key=lambda j: per[hs[queue[j][0]].name].get("dispatched", 0))
                hi, prefix = queue.pop(k)
                n = per[hs[hi].name]
                n["dispatched"] = n.get("dispatched", 0) + 1
                running.append((pool.apply_async(_task, ((hi, prefix, deadline),)), hi, time.time()))
            done = [r for r in running if r[0].ready()]
            if not done:
                if running and all(time.time() - r[2] > 300 for r in running) and time.time() > deadline + 240:
                    for r in running:
                        per[hs[r[1]].name]["errors"].append("worker did not return")
                        per[hs[r[1]].name]["pending"] += 1
                    break
                time.sleep(0.02)
                continue
            for r in done:
                running.remove(r)
                res = r[0].get()
                p = per[hs[res["hi"]].name]
                for k, v in res["stats"].items():
                    p["stats"][k] = p["stats"].get(k, 0) + v
                for n in res["notes"]:
                    p["notes"][n] = p["notes"].get(n, 0) + 1
                if res["err"]:
                    p["errors"].append(res["err"])
                    p["pending"] += 1
                funcs.update(map(tuple, res["funcs"]))
                files.update(res["files"])
                queue.extend((res["hi"], px) for px in res["pending"])
                spurious += res["stats"].get("not_reproduced", 0)
                for sp in res["spurious"]:
                    if len(spurious_ex) < 5:
                        spurious_ex.append(sp)
                for c in res["cex"]:
                    key = hashlib.sha1(json.dumps([c["harness"], c["data"]], sort_keys=True).encode()).hexdigest()[:12]
                    if key in seen_payload:
                        continue
                    seen_payload.add(key)
                    if p.get("wasted", 0) >= 60:  # of this harness; others keep being replayed
                        spurious += 1
                        p["stats"]["not_reproduced"] = p["stats"].get("not_reproduced", 0) + 1
                        continue
                    path = os.path.join(rdir, "%s-%s.json" % (pid, key))
                    c["property"], c["module"] = pid, modname
                    with open(path, "w") as f:
                        json.dump(c, f, indent=1)
                    replays += 1
                    problems, log = replay_subprocess(modname, path)
                    if problems is None:
                        p["errors"].append("replay failed: " + log[-600:])
                        continue
                    if not problems:
                        spurious += 1
                        p["wasted"] = p.get("wasted", 0) + 1
                        if len(spurious_ex) < 5:
                            spurious_ex.append({"label": c["label"], "data": c["data"], "exc": c.get("exc", "")[-700:]})
                        p["stats"]["not_reproduced"] = p["stats"].get("not_reproduced", 0) + 1
                        os.remove(path)
                        continue
                    unknown = []
                    for pr in problems:
                        f = next((f for f in findings if f["key"] == pr[0]), None)
                        if f:
                            known.setdefault(f["key"], f["what"])
                        else:
                            unknown.append(pr)
                    c["problems"] = problems
                    with open(path, "w") as f:
                        json.dump(c, f, indent=1)
                    if unknown:
                        violation = (path, unknown[0][1], c)
                        break
                    os.remove(path)
                if violation:
                    break
            if violation:
                break
    finally:
        pool.terminate()
        pool.join()
        shutil.rmtree(scratch, ignore_errors=True)
    for f in findings:  # a listed finding whose key was not met stays listed; it is printed only when it shows up
        pass
    # ---------------------------------------------------------------- evidence
    tot = {}
    for h, p in per.items():
        for k, v in p["stats"].items():
            tot[k] = tot.get(k, 0) + v
    exhaustive = (not violation and all(
        p["pending"] == 0 and not p["errors"] and p["stats"].get("obligations", 0) > 0 and
        not any(p["stats"].get(k) for k in ("unsupported_paths", "truncated_paths", "unknown", "not_reproduced"))
        for p in per.values()))
    wall = time.time() - t_start
    info = getattr(mod, "INFO", {})
    cov = {
        "explanation": info.get("explanation", "") + (
            " Deciding step: for every path of the executed source z3 shows (path condition and not property) "
            "unsatisfiable, or returns an input that is replayed on the unmodified code."),
        "functions_encoded": sorted("%s:%s" % f for f in funcs if "/tests/" not in f[0] and "<" != f[1][0]),
        "source_files": sorted(files),
        "bounds": {h: p["bounds"] for h, p in per.items()},
        "exhaustive_within_bounds": exhaustive,
        "paths": int(tot.get("paths", 0)),
        "queries_discharged": int(tot.get("queries", 0)),
        "proof_obligations": int(tot.get("obligations", 0)),
        "solver_time_s": round(tot.get("solver_s", 0), 3),
        "concrete_path_witnesses_run": int(tot.get("witness_runs", 0)),
        "counterexamples_not_reproduced": spurious,
        "per_harness": {h: {
            "exhausted": p["pending"] == 0 and not p["errors"],
            "stats": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in p["stats"].items()},
            "pending_subtrees": p["pending"],
            "notes": dict(list(p["notes"].items())[:10]), "errors": p["errors"][:3]} for h, p in per.items()},
    }
    if spurious_ex:
        cov["not_reproduced_examples"] = spurious_ex
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": info.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "violations": 1 if violation else 0,
          }
    if violation:
        ev["coverage"]["violation"] = {"replay": violation[0], "what": violation[1]}
    if known:
        ev["coverage"]["known_findings"] = known
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    for k, what in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for h, p in per.items():
        s = p["stats"]
        print("%s %-28s paths=%d obligations=%d queries=%d solver=%.1fs %s%s" % (
            pid, h, s.get("paths", 0), s.get("obligations", 0), s.get("queries", 0), s.get("solver_s", 0),
            "exhausted" if p["pending"] == 0 and not p["errors"] else "NOT exhausted (%d subtrees left)" % p["pending"],
            (" unsupported=%d truncated=%d unknown=%d notrepro=%d" % tuple(
                s.get(k, 0) for k in ("unsupported_paths", "truncated_paths", "unknown", "not_reproduced")))
            if any(s.get(k) for k in ("unsupported_paths", "truncated_paths", "unknown", "not_reproduced")) else ""))
        for e in p["errors"][:2]:
            print("  error:", e[-500:])
        if os.environ.get("SX_VERBOSE"):
            print("  notes:", p["notes"])
    if os.environ.get("SX_VERBOSE"):
        for s in spurious_ex:
            print("not reproduced:", json.dumps(s)[:1500])
    print("%s %s wall=%.1fs exhaustive=%s" % (pid, tier, wall, exhaustive))
    if violation:
        print("violation: %s  [%s]" % (violation[1][:600], violation[2]["label"][:200]))
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    return 0


COMMON_ASSUMPTIONS = [
    "machine floats and integers are treated as mathematical reals/integers on symbolic values; every counterexample is replayed on the real floats before it is reported",
    "pyroaring.BitMap is replaced by a symbolic set model, joblib by serial execution; numpy/pandas run for real on object arrays or after branching over every feasible value",
]
