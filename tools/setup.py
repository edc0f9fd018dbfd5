"""Nothing to build: checks the interpreters the machinery runs on."""
import subprocess
import sys

for py, mods in (("/opt/venv/bin/python", "torch, numpy, scipy, einops, einconv, backpack"),
                 ("/usr/local/bin/python3-vt", "z3, numpy, sympy")):
    r = subprocess.run([py, "-c", f"import {mods}"])
    if r.returncode:
        sys.exit(f"{py} lacks one of {mods}")
print("ok")
