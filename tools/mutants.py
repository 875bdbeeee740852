#!/opt/venv/bin/python
"""mutants.py FILE [id...]: apply each small change of FILE to a scratch copy of /repo, run
the check of its property against the copy and say what it reports (equal=True: the change
keeps the behaviour and the check should be quiet). Development aid, used by no check."""
import os
import re
import shutil
import subprocess
import sys
import time

wt = f"/tmp/mutant_{os.getpid()}"
M = []


def m(i, props, f, old, new, equal=False, more=()):
    M.append((i, props.split(), [(f, old, new)] + list(more), equal))


exec(open(sys.argv[1]).read(), dict(m=m))
only = sys.argv[2:]
subprocess.run(["cp", "-a", os.environ.get("MUT_SRC", "/repo"), wt], check=True)
env = dict(os.environ, PYTHONPATH=f"{wt}:{wt}/torchlie:{wt}/torchkin", VERIF_REPO=wt, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", VERIF_SEED="1", DV_NOWRITE="1")
try:
    for i, props, edits, equal in M:
        if only and i not in only:
            continue
        ok = True
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) < 1:
                print(i, "TEXT NOT FOUND", f, repr(old[:60]))
                ok = False
                continue
            open(p, "w").write(s.replace(old, new, 1))
        for pr in props if ok else []:
            t = time.time()
            r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", pr], cwd="/verif", env=env, capture_output=True, text=True, timeout=1800)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            hard = [x for x in v if not x.endswith("no-failing-input-found")]
            st = "caught" if hard else "caught (no input)" if v else "MISSED"
            if equal:
                st = "quiet" if not v else "FALSE ALARM" + ("" if hard else " (no input)")
            und = re.search(r"undischarged \d+ engine-limits \d+", r.stdout)
            print(f"{i} {pr} {st} rc={r.returncode} {len(v)} {und.group(0) if und else ''} {time.time() - t:.0f}s", flush=True)
            if (equal and v) or r.returncode not in (0, 1):
                print("   ", [x for x in r.stdout.splitlines() if "failed obligation" in x][:2], r.stderr[-200:], flush=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=wt)
finally:
    shutil.rmtree(wt, ignore_errors=True)
