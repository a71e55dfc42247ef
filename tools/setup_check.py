"""setup_cmd: nothing to build; verifies that the interpreter, z3 and the repository are where the checks expect them"""
import os
import subprocess
import sys
ok = subprocess.run(["/opt/venv/bin/python", "-c",
                     "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
                     "import z3, numpy, pandas; print('z3', z3.get_version_string())"]).returncode == 0
sys.exit(0 if ok and os.path.isdir("/repo/skmine") else 1)
