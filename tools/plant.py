"""Plant one or more bugs: build the patch, confirm it, run the checks on it.

    python3 tools/plant.py BUGS.py [id ...]      make and confirm
    python3 tools/plant.py --check id [...]      only run the property's check on the planted bug

BUGS.py holds BUGS = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new)], demo=)].
Works in scratch copies under /tmp/mut; /repo is never changed.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO, VERIF = "/repo", "/verif"
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
SCRATCH="$(mktemp -d)"
trap 'rm -rf -- "$SCRATCH"' EXIT
export PYTHONPATH="$PWD" NUMBA_CACHE_DIR="$SCRATCH/cache" PYTHONDONTWRITEBYTECODE=1
mkdir -p "$SCRATCH/work"
cd "$SCRATCH/work" || exit 3
/opt/venv/bin/python "$HERE/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired as t:
        return subprocess.CompletedProcess(cmd, 124, str(t.stdout), "")


def copy(name):
    d = f"/tmp/mut/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.check_call(["cp", "-a", REPO, d])
    for r, ds, fs in os.walk(d):
        if r.endswith("__pycache__"):
            for f in fs:
                os.unlink(os.path.join(r, f))
    return d


def original_lines_only(d, patch):
    """Every removed line belongs to the base commit."""
    base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=REPO).stdout.strip()
    bad, cur, n = [], None, 0
    removed = 0
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            bl = sh(["git", "blame", "-l", "--root", "HEAD", "--", cur], cwd=REPO).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            if not bl[n - 1].lstrip("^").startswith(base[:30]):
                bad.append((cur, n, l))
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad, removed


def tests(d):
    s = tempfile.mkdtemp(prefix="ptest", dir="/tmp")
    try:
        run = s + "/run"
        os.mkdir(run)
        subprocess.check_call(f"tar -C {d} --exclude=./.git --exclude=./openptv_python -cf - . | tar -C {run} -xf -", shell=True)
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_isolate", "--rootdir=.", "--doctest-glob=*.md", "--doctest-glob=*.rst",
                "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={s}/junit.xml"],
               cwd=run, env={"PYTHONPATH": f"{d}:/opt/vp/plugin", "PYTHONDONTWRITEBYTECODE": "1", "NUMBA_CACHE_DIR": s + "/cache", "TMPDIR": s})
        sh([PY, "/opt/vp/results.py", s + "/o.json", f"junit:{s}/junit.xml"])
        got = json.load(open(s + "/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base.get("tests")
        return sorted(set(stable) - set(got["passed"])), r.stdout[-600:]
    finally:
        shutil.rmtree(s, ignore_errors=True)


def demo(seed, d):
    return sh(["bash", seed + "/demo.sh"], cwd=d, timeout=300)


def check(bug_id, prop=None, d=None):
    seed = f"{VERIF}/seeded/{bug_id}"
    made = d is None
    if made:
        d = copy("c_" + bug_id)
        r = sh(["git", "apply", seed + "/patch.diff"], cwd=d)
        if r.returncode:
            return bug_id, "?", "DOES NOT APPLY " + r.stdout
        prop = json.load(open(seed + "/meta.json"))["property"]
    out = []
    for p in prop.split(","):
        r = sh([PY, f"{VERIF}/run.py", p], cwd=VERIF, env={"VP_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick", "VP_EVIDENCE": "/tmp/mut/ev"})
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        out.append(f"{p} rc={r.returncode} {v[0][:300] if v else r.stdout[-200:]}")
    if made:
        shutil.rmtree(d, ignore_errors=True)
    return bug_id, "CAUGHT" if "rc=1" in out[0] else "MISSED", " | ".join(out)


def make(b):
    bid = b["id"]
    d = copy(bid)
    try:
        for f, old, new in b["edits"]:
            p = f"{d}/openptv_python/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                return bid, "EDIT", f"{t.count(old)} matches in {f}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        patch = sh(["git", "diff", "--no-color"], cwd=d).stdout
        bad, removed = original_lines_only(d, patch)
        if bad or not removed:
            return bid, "NOT-ORIGINAL", str(bad) + f" removed={removed}"
        seed = tempfile.mkdtemp(prefix="seed")
        open(seed + "/patch.diff", "w").write(patch)
        open(seed + "/demo.sh", "w").write(DEMO)
        open(seed + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(seed + "/meta.json", "w"), indent=1)
        r0, r1 = demo(seed, REPO), demo(seed, d)
        if r0.returncode != 0 or r1.returncode in (0, 124):
            return bid, "DEMO", f"clean rc={r0.returncode} {r0.stdout[-400:]} / patched rc={r1.returncode} {r1.stdout[-300:]}"
        lost, tail = tests(d)
        if lost:
            return bid, "TESTS", f"{lost[:6]}"
        dst = f"{VERIF}/seeded/{bid}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(seed, dst)
        return check(bid, b["property"], d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--check":
        ids = a[1:] or sorted(os.listdir(VERIF + "/seeded"))
        jobs, fn = ids, check
    else:
        bugs = runpy.run_path(a[0])["BUGS"]
        jobs = [b for b in bugs if len(a) == 1 or b["id"] in a[1:]]
        fn = make
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for r in ex.map(fn, jobs):
            print(*r, flush=True)
