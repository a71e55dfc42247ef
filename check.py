#!/usr/bin/env python3
"""python check.py <PROPERTY> [quick|thorough]   -- decides one property on /repo's current tree"""
import os
import sys

VPY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "LC_ALL": "C.UTF-8", "TZ": "UTC",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "SX_ENV": "1",
       "MPLCONFIGDIR": "/opt/venv/mplconfig"}

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    if os.environ.get("SX_ENV") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env.pop("PYTHONPATH", None)
        os.execve(VPY, [VPY, "-W", "ignore"] + [os.path.abspath(__file__)] + sys.argv[1:], env)
    if os.environ.get("SX_REPO"):  # development only: another tree than /repo
        sys.path.insert(0, os.environ["SX_REPO"])
    sys.path.insert(0, here)
    sys.path.append(VT)
    from symx import runner
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    budget = float(os.environ.get("SX_BUDGET") or {"quick": 240, "thorough": 3000}[tier])
    sys.stdout.flush()
    rc = runner.main(pid, "props." + pid.lower(), tier, budget, int(os.environ.get("VERIF_SEED", "1")))
    sys.stdout.flush()
    os._exit(rc)
