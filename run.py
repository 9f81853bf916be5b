#!/usr/bin/env python3
"""Run one property check:  run.py C01 [--replay FILE] [--sub NAME] [--scale X] [--shards N]

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Any other exit status is an error of the check itself.
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VP_REPO", "/repo")


def main():
    scratch = tempfile.mkdtemp(prefix="vpcheck.")
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("NUMBA_", "PYTHON", "HYPOTHESIS")):
            del env[k]
    env.update(
        LANG="C.UTF-8",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONUNBUFFERED="1",
        PYTHONPATH=os.pathsep.join([REPO, HERE]),
        PYTHONWARNINGS="ignore",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        # Same machine code on every CPU, a fresh cache for every run: numba's own
        # cache does not notice a change in a callee that lives in another module.
        NUMBA_CPU_NAME="generic",
        NUMBA_CPU_FEATURES="",
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        NUMBA_NUM_THREADS="1",
        NUMBA_THREADING_LAYER="workqueue",
        VP_SCRATCH=scratch,
        VP_HERE=HERE,
        VP_REPO=REPO,
    )
    os.makedirs(env["MPLCONFIGDIR"])
    os.makedirs(env["NUMBA_CACHE_DIR"])
    work = os.path.join(scratch, "work")
    os.makedirs(work)
    args = [os.path.abspath(a) if os.path.exists(a) and os.sep in a else a for a in sys.argv[1:]]
    try:
        rc = subprocess.call([PY, "-m", "vp.runner", *args], cwd=work, env=env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc if rc >= 0 else 4


if __name__ == "__main__":
    sys.exit(main())
