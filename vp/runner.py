"""Drive one check: generate cases with Hypothesis, judge them, report.

A check module ``checks/<id>.py`` defines

    PROPERTY = "C01"
    RULE     = text: how cases are made and what makes one non-trivial
    ASSUMPTIONS = [text, ...]                      (optional)
    SUBS     = [Sub(name, strategy, judge, quick=N, thorough=M, examples=[case,...])]

``strategy`` generates plain JSON data (the *case*).  ``judge(case)`` runs the real
code on it and raises ``Violation`` (or fails an ``assert``) when the property does
not hold.  It returns a list of labels; the label "nontrivial" (or ``True``) marks the
case as non-trivial.  The judge takes nothing but the case, so a shrunk case replays
without the library:  run.py C01 --replay FILE
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback

from . import deps
from .core import HarnessError, Reject, Sub, Violation  # noqa: F401

SHRINK_SECONDS = {"quick": 45.0, "thorough": 240.0}
WALL = {"quick": 780.0, "thorough": 6 * 3600.0}


class StopShrinking(BaseException):
    pass


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def silence():
    """Library chatter (prints) goes to /dev/null; our own lines go to the real stdout."""
    real = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)
    return os.fdopen(real, "w", buffering=1)


def judge_case(sub, case):
    """Returns (labels, None) or (None, message) when the property fails on the case."""
    try:
        out = sub.judge(case)
    except Violation as e:
        return None, str(e) or "violation"
    except (HarnessError, MemoryError, KeyboardInterrupt, StopShrinking, Reject):
        raise
    except AssertionError as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return None, "assertion failed: %s [%s:%d %s]" % (
            str(e)[:400],
            os.path.basename(tb.filename),
            tb.lineno or 0,
            (tb.line or "")[:160],
        )
    except Exception as e:  # the code under test raised on an input it has to accept
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(
            "%s:%d" % (os.path.basename(f.filename), f.lineno or 0) for f in tb[-4:]
        )
        return None, "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], where)
    if out is True:
        out = ["nontrivial"]
    return list(out or []), None


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.rejected = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.subs = collections.Counter()

    def add(self, sub, case, labels):
        self.evaluations += 1
        self.subs[sub.name] += 1
        for l in set(labels):
            self.labels[sub.name + ":" + l] += 1
        if "nontrivial" in labels:
            text = sub.name + dumps(case)
            h = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if sum(1 for s in self.samples if s["check"] == sub.name) < 2:
                    t = dumps(case)
                    self.samples.append(
                        {"check": sub.name, "case": case if len(t) < 1500 else t[:1500] + "..."}
                    )


def run_shard(mod, subs, tier, seed, shard, nshards, scale, journal, deadline):
    """Runs in a child process. Returns (stats, failure or None)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = Stats()
    for sub in subs:
        total = sub.quick if tier == "quick" else sub.thorough
        n = max(1, -(-int(total * scale) // nshards))
        state = {"fail": None, "first": None}

        def one(case):
            if time.time() > deadline:
                raise HarnessError("out of time in %s" % sub.name)
            if state["first"] and time.time() - state["first"] > SHRINK_SECONDS[tier]:
                raise StopShrinking
            text = dumps(case)
            journal.seek(0)
            journal.write(sub.name + "\n" + text + "\n")
            journal.truncate()
            journal.flush()
            try:
                labels, msg = judge_case(sub, case)
            except Reject:
                stats.rejected += 1
                hypothesis.assume(False)
            if msg is None:
                if not state["first"]:
                    stats.add(sub, case, labels)
                return
            stats.evaluations += 1
            if state["first"] is None:
                state["first"] = time.time()
            if state["fail"] is None or len(text) <= len(state["fail"][1]):
                state["fail"] = (sub.name, text, msg)
            state["last"] = (sub.name, text, msg)
            raise Violation(msg)

        if shard == 0:
            for case in sub.examples:
                try:
                    one(case)
                except Violation:
                    return stats, state["fail"]

        hseed = int.from_bytes(
            hashlib.sha256(
                ("%s/%s/%d/%d" % (mod.PROPERTY, sub.name, seed, shard)).encode()
            ).digest()[:6],
            "big",
        )

        @hypothesis.seed(hseed)
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.target, Phase.shrink),
        )
        @given(sub.strategy)
        def prop(case):
            one(case)

        try:
            prop()
        except Violation:
            return stats, state.get("last") or state["fail"]
        except StopShrinking:
            return stats, state["fail"]
        except hypothesis.errors.Flaky:
            if state["fail"]:
                name, text, msg = state["fail"]
                if sub.schedules or judge_case(sub, json.loads(text))[1]:
                    return stats, state["fail"]
            raise HarnessError("flaky result in %s" % sub.name)
    return stats, None


def child(mod, subs, tier, seed, shard, nshards, scale, scratch, deadline):
    base = os.path.join(scratch, "shard%d" % shard)
    os.makedirs(base, exist_ok=True)
    os.makedirs(os.path.join(base, "work"), exist_ok=True)
    os.chdir(os.path.join(base, "work"))
    random.seed(0)
    try:
        with open(os.path.join(base, "journal"), "w", encoding="utf-8") as journal:
            res = run_shard(
                mod, subs, tier, seed, shard, nshards, scale, journal, deadline
            )
        out = ("ok", res)
    except BaseException as e:  # noqa: BLE001
        out = ("error", "".join(traceback.format_exception(e))[-4000:])
    with open(os.path.join(base, "out.tmp"), "wb") as f:
        pickle.dump(out, f)
    os.rename(os.path.join(base, "out.tmp"), os.path.join(base, "out"))
    os._exit(0)


def report(mod, sub_name, text, msg, out):
    here = os.environ["VP_HERE"]
    d = os.path.join(here, "replays")
    os.makedirs(d, exist_ok=True)
    digest = hashlib.sha256((sub_name + text).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s-%s.json" % (mod.PROPERTY, sub_name, digest))
    with open(path, "w", encoding="utf-8") as f:
        json.dump(
            {
                "property": mod.PROPERTY,
                "check": sub_name,
                "case": json.loads(text),
                "message": msg,
                "replay": "python3 run.py %s --replay %s" % (mod.PROPERTY, path),
            },
            f,
            indent=1,
        )
    print("  %s: %s" % (sub_name, msg), file=out)
    print("  case: %s" % text[:2000], file=out)
    print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path), file=out)


def load_findings(prop):
    """known_findings.txt lines:  finding: property=C05 check=<sub> case=<json> -- what"""
    here = os.environ["VP_HERE"]
    res = []
    try:
        with open(os.path.join(here, "known_findings.txt"), encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                head, _, what = line.partition(" -- ")
                parts = head.split(None, 3)
                kv = dict(p.split("=", 1) for p in parts[1:])
                if kv["property"] == prop:
                    res.append((kv["check"], kv["case"], what))
    except FileNotFoundError:
        pass
    return res


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--shards", type=int)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in WALL:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = os.environ["VP_SCRATCH"]
    here = os.environ["VP_HERE"]
    out = sys.stdout if a.verbose else silence()
    deps.ensure()
    mod = importlib.import_module("checks." + a.check.lower())
    import openptv_python

    repo = os.path.realpath(os.environ["VP_REPO"])
    if not os.path.realpath(openptv_python.__file__).startswith(repo + os.sep):
        print("error: imported %s" % openptv_python.__file__, file=out)
        return 3
    subs = [s for s in mod.SUBS if a.sub is None or s.name == a.sub]
    byname = {s.name: s for s in mod.SUBS}
    if a.replay:
        with open(a.replay, encoding="utf-8") as f:
            r = json.load(f)
        for _ in range(40 if byname[r["check"]].schedules else 1):
            labels, msg = judge_case(byname[r["check"]], r["case"])
            if msg is not None:
                break
        if msg is not None:
            print("  %s: %s" % (r["check"], msg), file=out)
            print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, a.replay), file=out)
            return 1
        print("holds on the replayed case (%s)" % ", ".join(labels), file=out)
        return 0

    for name, case, what in load_findings(mod.PROPERTY):
        if name in byname and judge_case(byname[name], json.loads(case))[1] is not None:
            print("KNOWN-FINDING: property=%s %s" % (mod.PROPERTY, what), file=out)

    # Compile the kernels once, before forking.
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    for sub in subs:
        if not sub.warm:
            continue

        @hypothesis.seed(7)
        @settings(
            max_examples=sub.warm,
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate,),
        )
        @given(sub.strategy)
        def warm(case):
            try:
                judge_case(sub, case)
            except (Reject, HarnessError):
                pass

        try:
            pid_safe = sub.fork_safe_warm
            if pid_safe:
                warm()
        except Exception:  # noqa: BLE001  (the shards will report it)
            pass
    twarm = time.time() - t0

    nshards = a.shards or (getattr(mod, "SHARDS", 4) if tier == "quick" else 8)
    deadline = t0 + WALL[tier]
    pids = {}
    sys.stdout.flush()
    for k in range(nshards):
        pid = os.fork()
        if pid == 0:
            child(mod, subs, tier, seed, k, nshards, a.scale, scratch, deadline)
        pids[pid] = k

    stats = Stats()
    failure = None
    error = None
    crashes = []
    kill_at = None
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            if now > deadline + 20 or (kill_at and now > kill_at):
                for p in list(pids):
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                if not kill_at:
                    error = error or "a shard did not finish in time"
                break
            time.sleep(0.05)
            continue
        if pid not in pids:
            continue
        k = pids.pop(pid)
        base = os.path.join(scratch, "shard%d" % k)
        if os.WIFSIGNALED(status) or not os.path.exists(os.path.join(base, "out")):
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
            crashes.append((k, sig))
            continue
        with open(os.path.join(base, "out"), "rb") as f:
            kind, res = pickle.load(f)
        if kind == "error":
            error = res
            continue
        st, fail = res
        stats.evaluations += st.evaluations
        stats.rejected += st.rejected
        stats.nontrivial |= st.nontrivial
        stats.labels.update(st.labels)
        stats.subs.update(st.subs)
        for s in st.samples:
            if sum(1 for x in stats.samples if x["check"] == s["check"]) < 2:
                stats.samples.append(s)
        if fail and (failure is None or len(fail[1]) < len(failure[1])):
            failure = fail
        if fail and not kill_at:
            kill_at = time.time() + 2.0
    for k, sig in crashes:
        if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
            with open(os.path.join(scratch, "shard%d" % k, "journal"), encoding="utf-8") as f:
                name, text = f.read().split("\n")[:2]
            failure = failure or (name, text, "the process crashed with signal %d" % sig)
        else:
            error = error or "shard %d ended by signal %d" % (k, sig)

    wall = time.time() - t0
    evidence = {
        "property": mod.PROPERTY,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": len(stats.nontrivial),
            "rule": mod.RULE,
            "samples": stats.samples,
            "evaluations_per_check": dict(sorted(stats.subs.items())),
            "labels": dict(sorted(stats.labels.items())),
            "rejected": stats.rejected,
            "shards": nshards,
            "warm_up_s": round(twarm, 1),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", mod.PROPERTY + ".json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if failure:
        report(mod, *failure, out=out)
        return 1
    if error:
        print("error of the check, not a verdict:\n" + error, file=out)
        return 3
    print(
        "%s: held on %d cases (%d distinct non-trivial) in %.1f s (warm-up %.1f s)"
        % (mod.PROPERTY, stats.evaluations, len(stats.nontrivial), wall, twarm),
        file=out,
    )
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
