"""C29 - incomplete files are refused, failed writes are reported, and an interrupted run can be repeated."""
import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from checks.c14 import VALUES, YAML_VALUES, lines_of, make, readers
from checks.c15 import cal_st
from checks.c17 import fill, frames
from vp import flow
from vp.core import Sub, check
from vp.gen import AIR, IDENT_AP, Scene, fl, make_cal, media, rng, scene, seeds

PROPERTY = "C29"
RULE = (
    "Generated files of every kind cut at a drawn place before their last value; generated objects written to places "
    "of which one fails (a full device, a missing folder, a name taken by a folder); forward tracking of generated "
    "sequences that meets a cut or missing file, or an output that cannot be written, at a drawn frame, and is "
    "repeated afterwards; non-trivial: the uncut file is readable, the faultless write succeeds, and the interrupted run had "
    "written at least one frame or had particles to link."
)
ASSUMPTIONS = [
    "A cut inside the last number of a file, or between the rows of a file without a count, leaves a complete file.",
    "A fault in the middle of writing rt_is or a targets file itself may leave that file incomplete; reading it is refused then.",
]


def refused(f, what):
    """f raises, or returns nothing or an empty list."""
    try:
        got = f()
    except Exception:  # noqa: BLE001 - any refusal will do
        return
    check(got is None or got is False or hasattr(got, "__len__") and len(got) == 0, "%s was read: %s", what, repr(got)[:300])


# ---- files cut short

def put(path, text):
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def last_value(text, by_line):
    """Where the last value of the file begins."""
    body = text.rstrip()
    if by_line:
        return body.rfind("\n") + 1
    return len(body) - len(body.split()[-1])


def cut_at(text, place, whole, by_line=False):
    """A true beginning of the file that lacks at least its last value."""
    end = last_value(text, by_line)
    p = min(int(place * (end + 1)), end)
    if whole:  # between two lines
        p = text.rfind("\n", 0, p) + 1
    return text[:p]


def judge_cut(case):
    from openptv_python import image_processing, orientation, sortgrid
    from openptv_python.calibration import Calibration, read_ori
    from openptv_python.parameters import ControlPar  # noqa: F401
    from openptv_python.tracking_frame_buf import Frame, read_path_frame, read_targets, write_path_frame, write_targets

    kind, v, g = case["kind"], case["v"], rng(case["seed"])
    d = tempfile.mkdtemp(dir=".")
    path = os.path.join(d, "file.par")
    what = "%s cut short" % kind
    labels = [kind]
    if kind in VALUES:
        text = "".join((x if isinstance(x, str) else repr(x)) + "\n" for x in lines_of(kind, v))
        for r in readers(kind, v):
            put(path, text)
            r(Path(path))
            put(path, cut_at(text, case["place"], case["whole"], True))
            refused(lambda: r(Path(path)), what)
    elif kind in ("ori", "addpar"):
        cal, add = make_cal(v), os.path.join(d, "file.addpar")
        cal.write(path, add)
        victim = path if kind == "ori" else add
        text = open(victim).read()
        Calibration.from_file(Path(path), Path(add))
        put(victim, cut_at(text, case["place"], case["whole"]))
        for r in (Calibration.from_file, read_ori, lambda a, b: Calibration().from_file(a, b)):
            refused(lambda: r(Path(path), Path(add)), what)
    elif kind in ("targets", "rt_is", "ptv_is", "added"):
        f, num = fill(v), case["num"]
        n_parts, targs = f.num_parts, [f.targets[k][: f.num_targets[k]] for k in range(v["cams"])]
        base = [os.path.join(d, n) for n in ("rt_is", "ptv_is", "added")]
        cams = [os.path.join(d, "cam%d.%%05d" % k) for k in range(v["cams"])]
        check(f.write(*base, cams, num), "writing failed")
        check(Frame(v["cams"], 4).read(*base, cams, num), "reading failed")
        k = case["seed"] % v["cams"]
        victim = cams[k] % num + "_targets" if kind == "targets" else "%s.%d" % (base[("rt_is", "ptv_is", "added").index(kind)], num)
        text = open(victim).read()
        if kind in ("ptv_is", "added") and not n_parts:
            return labels
        short = cut_at(text, case["place"], case["whole"])
        if kind in ("ptv_is", "added") and "\n" not in short:
            return labels  # only the count is damaged, which another file has
        put(victim, short)
        refused(lambda: Frame(v["cams"], 4).read(*base, cams, num), "a frame with its %s file cut short" % kind)
        if kind == "targets":
            refused(lambda: read_targets(cams[k], num), what)
        else:
            check(write_targets(targs[k], len(targs[k]), cams[k], num), "writing failed")
            refused(lambda: read_path_frame(*base, num), what)
        # written again, it is complete
        if kind != "targets":
            check(write_path_frame(f.correspond, f.path_info, n_parts, *base, num), "writing failed")
        else:
            check(write_targets(targs[k], len(targs[k]), cams[k], num), "writing failed")
        check(open(victim).read() == text, "%s written again is not what it was", kind)
        return labels + (["nontrivial"] if n_parts and any(targs) else [])
    elif kind in ("calblock", "man_ori"):
        rows = [[str(i + 1)] + ["%.3f" % x for x in p] for i, p in enumerate(v)]
        text = "\n".join(" ".join(r) for r in rows)
        put(path, text)
        man = os.path.join(d, "man_ori.par")
        nums = [[int(x) + 1 for x in g.permutation(len(v))[:4]] for _ in range(case["cams"])]
        mtext = "\n".join("\n".join(map(str, q)) for q in nums) + "\n"
        put(man, mtext)
        last = case["cams"] - 1
        check(orientation.read_man_ori_fix(path, man, last) is not None, "man_ori is not readable")
        if kind == "man_ori":
            put(man, cut_at(mtext, case["place"], case["whole"]))
            refused(lambda: orientation.read_man_ori_fix(path, man, last), what)
        else:
            check(len(sortgrid.read_calblock(path)) == orientation.read_calblock(path)[1] == len(v), "calblock is not readable")
            i = int(case["place"] * len(v) * 0.999)
            part = rows[i][: 1 + case["seed"] % 3]
            put(path, "\n".join(" ".join(r) for r in rows[:i] + [part]))
            refused(lambda: sortgrid.read_calblock(path), what)
            refused(lambda: orientation.read_calblock(path), what)
    elif kind == "filter":
        text = "\n".join(" ".join("%.3f" % x for x in g.uniform(0, 0.3, 3)) for _ in range(3)) + "\n"
        img = g.integers(0, 200, (8, 9)).astype(np.uint8)
        put(path, text)
        image_processing.prepare_image(img, 1, 2, path)
        put(path, cut_at(text, case["place"], case["whole"]))
        refused(lambda: image_processing.prepare_image(img, 1, 2, path), what)
    return labels + ["nontrivial"]


# ---- writes that fail

def spoil(path, how):
    """Makes writing to path fail; returns what undoes it."""
    old = None
    if os.path.lexists(path):
        old = open(path).read()
        os.remove(path)
    if how == "full":
        os.symlink("/dev/full", path)
    else:
        os.mkdir(path)

    def undo():
        os.remove(path) if how == "full" else os.rmdir(path)
        if old is not None:
            put(path, old)

    return undo


def failed(f, what):
    try:
        got = f()
    except Exception:  # noqa: BLE001
        return
    check(got is not None and not got, "%s: reported %r", what, got)


def judge_full(case):
    from openptv_python.parameters import write_target_par
    from openptv_python.tracking_frame_buf import Frame, write_path_frame, write_targets

    kind, v, how = case["kind"], case["v"], case["how"]
    d = tempfile.mkdtemp(dir=".")
    path = os.path.join(d, "file.out")
    if kind == "frame":
        num = case["num"]
        base = [os.path.join(d, n) for n in ("rt_is", "ptv_is", "added")]
        cams = [os.path.join(d, "cam%d.%%05d" % k) for k in range(v["cams"])]
        f, o = fill(v), fill(dict(case["old"], cams=v["cams"], targs=(case["old"]["targs"] * 4)[: v["cams"]]))
        files = ["%s.%d" % (b, num) for b in base] + [c % num + "_targets" for c in cams]
        check(f.write(*base, cams, num), "writing failed")
        want = [open(p).read() for p in files]
        check(o.write(*base, cams, num), "writing failed")
        before = [open(p).read() for p in files]
        i = case["seed"] % len(files)
        undo = spoil(files[i], how)
        failed(lambda: f.write(*base, cams, num), "a frame written where %s fails (%s)" % (os.path.basename(files[i]), how))
        if i < 3:
            failed(lambda: write_path_frame(f.correspond, f.path_info, f.num_parts, *base, num), "%s that fails (%s)" % (os.path.basename(files[i]), how))
        else:
            failed(lambda: write_targets(f.targets[i - 3], f.num_targets[i - 3], cams[i - 3], num), "a targets file that fails (%s)" % how)
        if i in (1, 2):  # what the frame was read from is not lost with its links
            if how == "full":
                check(open(files[0]).read() in (want[0], before[0]), "rt_is is neither the old nor the new one after %s failed", files[i])
            else:
                check(open(files[0]).read() == before[0], "rt_is changed though %s could not be opened", files[i])
            check([open(p).read() for p in files[3:]] == before[3:], "targets changed though the links could not be written")
        undo()
        check(f.write(*base, cams, num), "writing failed after the fault was repaired")
        check([open(p).read() for p in files] == want, "the frame written again differs")
        check(Frame(v["cams"], 4).read(*base, cams, num), "reading failed")
        return ["frame", "nontrivial"]
    if kind in ("ori", "addpar"):
        cal, add = make_cal(v), os.path.join(d, "file.addpar")
        cal.write(path, add)
        undo = spoil(path if kind == "ori" else add, how)
        failed(lambda: cal.write(path, add), "a calibration whose %s fails (%s)" % (kind, how))
        undo()
        return [kind, "nontrivial"]
    cls, obj = kind.split(":")[1], make(kind.split(":")[1], v)
    writers = [lambda: obj.to_yaml(Path(path))]
    if cls == "TargetPar":
        writers.append(lambda: write_target_par(obj, path))
    if cls == "PftVersionPar":
        writers.append(lambda: obj.write(Path(path)))
    for w in writers:
        w()
        undo = spoil(path, how)
        failed_or_raises(w, "%s that fails (%s)" % (kind, how))
        undo()
        os.remove(path)
    return [kind, "nontrivial"]


def failed_or_raises(w, what):
    """Writers without a result can only raise."""
    try:
        w()
    except Exception:  # noqa: BLE001
        return
    check(False, "%s: nothing was reported", what)


# ---- interrupted runs

def contents(d):
    return {n: open(os.path.join(d, n)).read() for n in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, n))}


def judge_interrupt(case):
    s, g = Scene(case["scene"]), rng(case["seed"])
    T, first = case["T"], case["first"]
    m = case["tracks"]
    x, v = g.uniform(-1, 1, (m, 3)) * 4, g.uniform(-1, 1, (m, 3)) * 0.4
    fr = []
    for t in range(T):
        pts = [s.local(p) for p in x]
        fr.append(flow.frame(s, g, pts, 0.1, clutter=2)[0])
        x = x + v

    def run(d):
        flow.forward(flow.run(d, s, first, first + T - 1, [-1.0, 1.0] * 3, 1.0, 100.0, 0))

    dirs = [tempfile.mkdtemp(dir=".") for _ in range(2)]
    for d in dirs:
        for t, f in enumerate(fr):
            flow.write(d, s, first + t, f)
    run(dirs[0])
    want = contents(dirs[0])
    d, t = dirs[1], case["at"] % T
    before = contents(d)
    num = first + t
    what = case["what"]
    targ = "cam%d.%05d_targets" % (g.integers(1, s.n + 1), num)
    name = {"ptv": "ptv_is.%d" % num, "added": "added.%d" % num, "rt": "rt_is.%d" % num, "targ": targ}[what]
    p = os.path.join(d, name)
    if what in ("ptv", "added"):
        undo = spoil(p, case["how"])
    else:
        text = open(p).read()
        if case["lost"]:
            os.remove(p)
        else:
            put(p, cut_at(text, case["place"], True))
        undo = lambda: put(p, text)  # noqa: E731
    try:
        run(d)
        done = True
    except Exception:  # noqa: BLE001
        done = False
    check(not done, "tracking finished although %s %s", name, "could not be written (%s)" % case["how"] if what in ("ptv", "added") else "was lost" if case["lost"] else "was cut short")
    undo()
    after = contents(d)
    # what was written is a true part of the results, the rest is as it was
    for n in after:
        if n == name:
            continue
        k = int(n.split(".")[1].split("_")[0]) - first
        reached = k <= t if what in ("ptv", "added") else k <= t - 3
        if n not in before:
            check(reached, "%s was written before the run failed at frame %d", n, t)
            if not (k == t and n.startswith(("ptv_is", "added"))):
                check(after[n] == want[n], "%s of the interrupted run differs from the whole run's", n)
        elif reached:
            check(after[n] in (want[n], before[n]), "%s is neither what it was nor what it should become", n)
        else:
            check(after[n] == before[n], "%s changed although the run failed at frame %d", n, t)
    run(d)
    again = contents(d)
    check(sorted(again) == sorted(want), "files of the repeated run: %s", sorted(set(again) ^ set(want)))
    for n in want:
        check(again[n] == want[n], "%s of the repeated run differs from that of an undisturbed run", n)
    return [what] + (["nontrivial"] if any(r.split()[1] != "-2" for n in want if n.startswith("ptv_is") for r in want[n].split("\n")[1:] if r) else [])


place = st.one_of(fl(0, 1), st.just(1.0))
PAR = sorted(VALUES)
cut_kind = st.one_of(
    st.sampled_from(PAR).flatmap(lambda k: st.tuples(st.just(k), VALUES[k])),
    st.tuples(st.sampled_from(["ori", "addpar"]), cal_st),
    st.tuples(st.sampled_from(["targets", "rt_is", "ptv_is", "added"]), frames()),
    st.tuples(st.sampled_from(["targets", "rt_is", "ptv_is", "added"]), frames()),
    st.tuples(st.sampled_from(["calblock", "man_ori"]), st.lists(st.tuples(fl(-50, 50), fl(-50, 50), fl(-50, 50)).map(list), min_size=4, max_size=12)),
    st.tuples(st.just("filter"), st.none()),
)
full_kind = st.one_of(
    st.tuples(st.just("frame"), frames()),
    st.tuples(st.just("frame"), frames()),
    st.tuples(st.sampled_from(["ori", "addpar"]), cal_st),
    st.sampled_from(sorted(YAML_VALUES)).flatmap(lambda k: st.tuples(st.just("par:" + k), YAML_VALUES[k])),
)
NUMBER = st.sampled_from([1, 10001, 498])


def with_kind(kind, **more):
    return st.tuples(kind, st.fixed_dictionaries(more)).map(lambda t: dict(t[1], kind=t[0][0], v=t[0][1]))


SUBS = [
    Sub("cut", with_kind(cut_kind, place=place, whole=st.booleans(), seed=seeds(), num=NUMBER, cams=st.integers(1, 4)), judge_cut, 700),
    Sub("failing", with_kind(full_kind, how=st.sampled_from(["full", "folder"]), seed=seeds(), num=NUMBER, old=frames()), judge_full, 300),
    Sub(
        "interrupted",
        st.fixed_dictionaries(
            {
                "scene": scene(2, 4, mm=st.one_of(st.just(AIR), media(1, 10.0)), aps=st.just(IDENT_AP)),
                "seed": seeds(),
                "T": st.sampled_from([5, 4, 6, 3]),
                "first": st.sampled_from([1, 10001, 98]),
                "tracks": st.sampled_from([3, 1, 6]),
                "at": st.integers(0, 5),
                "what": st.sampled_from(["ptv", "added", "rt", "targ"]),
                "how": st.sampled_from(["full", "folder"]),
                "lost": st.booleans(),
                "place": place,
            }
        ),
        judge_interrupt,
        80,
    ),
]
