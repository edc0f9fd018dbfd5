"""python3 tools/mkseed.py ID: writes seeded/ID from the definition in tools/seeds/ID.py.

A definition sets PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Python source that
exits non-zero / raises with the change).
"""
import json
import os
import subprocess
import sys
import shutil
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(i):
    d = {}
    exec(open(os.path.join(HERE, "tools", "seeds", f"{i}.py")).read(), d)
    out = os.path.join(HERE, "seeded", i)
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
        for f, old, new in d["EDITS"]:
            p = os.path.join(tmp, "r", "curvlinops", f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], capture_output=True, text=True,
                              check=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(d["DEMO"].lstrip())
    open(os.path.join(out, "demo.sh"), "w").write(
        '#!/bin/bash\nexport OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg '
        'PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)


for i in sys.argv[1:]:
    make(i)
