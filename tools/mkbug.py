#!/opt/venv/bin/python
"""mkbug.py SPEC.py: write seeded/<id>/ from a spec (id, property, needs, breaks, edits=[(file, old, new)], demo=python text)."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
BUGS = []
ns["bug"] = lambda **k: BUGS.append(k)
exec(open(sys.argv[1]).read(), ns)
for b in BUGS:
    wt = f"/tmp/mk_{b['id']}"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("!!", b["id"], f, "count", s.count(old))
        open(p, "w").write(s.replace(old, new, 1))
    d = os.path.join(ROOT, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True).stdout
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(b["demo"].lstrip())
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport OMP_NUM_THREADS=2 PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(wt)
    print(b["id"], len(diff.splitlines()), "lines")
