"""python3 tools/seed.py <spec.py> [--check]   -- authoring aid for planted bugs (not used by any check).
spec.py defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS"""
import json
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = {}
exec(open(sys.argv[1]).read(), sp)
R = "/repo"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh("git", "-C", R, "checkout", "--", ".")


assert not sh("git", "-C", R, "status", "--short").stdout.strip(), "repo dirty"
d = os.path.join(ROOT, "seeded", sp["ID"])
os.makedirs(d, exist_ok=True)
open(os.path.join(d, "demo.py"), "w").write(sp["DEMO"])
open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig LC_ALL=C.UTF-8 TZ=UTC
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$work" && PYTHONPATH="$repo" timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
""")
ok = True
try:
    r0 = sh("bash", os.path.join(d, "demo.sh"), cwd=R)
    print("demo on clean tree:", r0.returncode, r0.stderr[-300:] if r0.returncode else "")
    ok &= r0.returncode == 0
    for f, old, new in sp["EDITS"]:
        p = os.path.join(R, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git", "-C", R, "diff").stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    r1 = sh("bash", os.path.join(d, "demo.sh"), cwd=R)
    print("demo with patch:", r1.returncode, (r1.stdout + r1.stderr)[-300:])
    ok &= r1.returncode != 0
    b = sh("bash", "/opt/vp/build.sh")
    ok &= b.returncode == 0
    sh("bash", "/opt/vp/test.sh", "/tmp/seed_o.json")
    o = json.load(open("/tmp/seed_o.json"))
    miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in set(o["passed"])]
    print("stable tests failing:", miss[:5])
    ok &= not miss
    if "--check" in sys.argv:
        r = subprocess.run(["python3", "check.py", sp["PROPERTY"], "quick"], cwd=ROOT, capture_output=True, text=True)
        print("CHECK exit", r.returncode, "|".join(r.stdout.splitlines()[-2:])[-400:])
finally:
    clean()
json.dump({"property": sp["PROPERTY"], "needs": sp["NEEDS"], "what_it_breaks": sp["BREAKS"]},
          open(os.path.join(d, "meta.json"), "w"), indent=1)
print(sp["ID"], "VALID" if ok else "INVALID")
