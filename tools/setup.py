"""Checks that the tools the checks need are here (nothing is built: the proofs are redone on every run)."""
import subprocess
import sys
import z3
for c in (["/opt/venv/bin/python", "-c", "import numpy, scipy, pandas"], ["lean", "--version"], ["cvc5", "--version"]):
    r = subprocess.run(c, capture_output=True)
    print(c[0], "ok" if r.returncode == 0 else r.stderr.decode()[-300:])
    if r.returncode:
        sys.exit(1)
print("z3", z3.get_version_string())
