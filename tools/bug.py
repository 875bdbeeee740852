#!/opt/venv/bin/python
"""Try a planted bug in a scratch copy of /repo: bug.py ID [--fast] (no test suite)."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid = sys.argv[1]
fast = "--fast" in sys.argv
d = os.path.join(ROOT, "seeded", bid)
wt = f"/tmp/wt_{bid}"
shutil.rmtree(wt, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", wt], check=True)
env = dict(os.environ, PYTHONPATH=f"{wt}:{wt}/torchlie:{wt}/torchkin", VERIF_REPO=wt, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", VERIF_SEED="1", DV_NOWRITE="1")


def sh(cmd, **kw):
    return subprocess.run(cmd, cwd=wt, env=kw.pop("env", env), capture_output=True, text=True, **kw)


try:
    meta = json.load(open(f"{d}/meta.json"))
    dm = os.path.join(d, "demo.sh")
    r = sh(["bash", dm], timeout=300)
    print("demo unpatched:", r.returncode, "" if r.returncode == 0 else (r.stdout + r.stderr)[-500:])
    r = sh(["git", "apply", f"{d}/patch.diff"])
    print("apply:", r.returncode, r.stderr[-300:])
    r = sh(["bash", dm], timeout=300)
    print("demo patched:", r.returncode, (r.stdout + r.stderr)[-200:].strip())
    r = sh([sys.executable, os.path.join(ROOT, "check.py"), meta["property"], "--tier", "quick"])
    print("check:", r.returncode, "\n".join(l[:230] for l in r.stdout.splitlines()[-4:]))
    if not fast:
        e2 = dict(env, PYTHONHASHSEED="0", PYTHONPATH=env["PYTHONPATH"] + ":/opt/vp/pytest_plugins")
        r = sh([sys.executable, "-m", "pytest", "tests", "-m", "not cudaext", "-n", "8", "--dist", "loadfile", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300", f"--junitxml={wt}.xml", "-o", "junit_family=xunit2"], env=e2)
        print("tests:", r.stdout.strip().splitlines()[-6:])
        sh(["python3", "/opt/vp/results.py", f"{wt}.json", f"junit:{wt}.xml"])
        try:
            res = json.load(open(f"{wt}.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            g = lambda o: set(o.get("passed") or o.get("stable") or o.get("tests") or [])
            miss = g(base) - g(res)
            print("stable tests failing:", len(miss), sorted(miss)[:5])
        except Exception as e:
            print("results?", e)
finally:
    shutil.rmtree(wt, ignore_errors=True)
    for f in (f"{wt}.xml", f"{wt}.json"):
        if os.path.exists(f):
            os.remove(f)
