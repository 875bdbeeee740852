#!/opt/venv/bin/python
"""Entry point of every check: check.py <property> [--tier quick|thorough]."""
import os
import sys

sys.dont_write_bytecode = True
for _v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dv.run as R  # noqa: E402

if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    try:
        rc = R.main()
    except SystemExit:
        raise
    except BaseException as e:  # an engine failure is never a verdict
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
