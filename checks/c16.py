"""C16 - target files."""
import copy
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp.core import Reject, Sub, check, close
from vp.gen import fl, rng, seeds

PROPERTY = "C16"
RULE = (
    "Generated lists of 0 to 40 targets with the sizes, numbers and positions recognition can give (and unused ones), "
    "all styles of file names, frame numbers from 1 to 99999; files of the check's own writer with other white space; "
    "non-trivial: at least two different targets."
)
ASSUMPTIONS = ["Positions are kept to the four decimals of the format.", "Frame number 0 is special in the legacy format and left out."]


@st.composite
def targets(draw):
    n = draw(st.sampled_from([3, 5, 0, 1, 2, 12, 40]))
    big = draw(st.booleans())
    return [
        {
            "pnr": draw(st.integers(-999, 30000)) if big else i,
            "x": draw(st.one_of(fl(0, 2000), fl(-99999, 99999) if big else fl(0, 2000))),
            "y": draw(fl(0, 2000)),
            "n": draw(st.integers(0, 10**6 if big else 200)),
            "nx": draw(st.integers(0, 2000)),
            "ny": draw(st.integers(0, 2000)),
            "sumg": draw(st.integers(0, 10**8 if big else 5000)),
            "tnr": draw(st.sampled_from([-1, 0, 7, -999, 20479])),
        }
        for i in range(n)
    ]


names = st.sampled_from(["cam1.%05d", "cam1.", "cam1.#", "img_%d", "a b_%04d", "cam2", "x.%d.tif", "c#", "cam1.#.tif", "#_cam"])


def plain(name, frame):
    if "#" in name:
        name = name.replace("#", "%05d")
    if "%" not in name:
        name += "%05d"
    return name % frame + "_targets"


def make(ts):
    from openptv_python.tracking_frame_buf import Target

    return [Target(**t) for t in ts]


def same(back, ts, tol):
    check(len(back) == len(ts), "%d targets came back of %d", len(back), len(ts))
    for b, t in zip(back, ts):
        for f in ("pnr", "n", "nx", "ny", "sumg", "tnr"):
            check(getattr(b, f) == t[f] and isinstance(getattr(b, f), int), "%s is %r instead of %r", f, getattr(b, f), t[f])
        close((b.x, b.y), (t["x"], t["y"]), tol, "position")


def judge_round(case):
    from openptv_python.tracking_frame_buf import compare_targets, read_targets, write_targets

    ts = case["targets"]
    lst = make(ts)
    keep = copy.deepcopy(lst)
    d = tempfile.mkdtemp(dir=".")
    base = os.path.join(d, case["name"])
    fr = case["frame"]
    n = len(ts) - min(case["spare"], len(ts))
    other = make(ts[:1])
    check(write_targets(other, len(other), base, fr + 1), "writing failed")
    check(write_targets(lst, n, base, fr), "writing failed")
    check(lst == keep, "the targets were changed")
    got = sorted(os.listdir(d))
    want = sorted(plain(case["name"], k) for k in (fr, fr + 1))
    check(got == want, "files %s instead of %s", got, want)
    back = read_targets(base, fr)
    same(back, ts[:n], 0.51e-4)
    # the other frame is still there, and again the first one, from what was read
    same(read_targets(base, fr + 1), ts[:1], 0.51e-4)
    text = open(os.path.join(d, plain(case["name"], fr))).read()
    check(text.split()[0] == str(n), "the header is %r", text.split()[:1])
    check(len(text.splitlines()) == n + 1, "%d lines for %d targets", len(text.splitlines()), n)
    check(write_targets(back, n, base, fr), "writing failed")
    again = read_targets(base, fr)
    check(again == back, "what was read does not come back exactly")
    for a, b in zip(again, back):
        check(compare_targets(a, b), "compare_targets")
    return ["nontrivial"] if n > 1 and ts[0] != ts[1] else []


def judge_read(case):
    """Files of other writers: any white space, any number of digits."""
    from openptv_python.tracking_frame_buf import read_targets

    ts = case["targets"]
    d = tempfile.mkdtemp(dir=".")
    sep = case["sep"]
    g = rng(case["seed"])
    lines = ["%s%d%s" % (case["pad"], len(ts), case["end"])]
    for t in ts:
        fmt = "%." + str(g.integers(4, 12)) + "f"
        lines.append(
            case["pad"]
            + sep.join([str(t["pnr"]), fmt % t["x"], fmt % t["y"]] + [str(t[f]) for f in ("n", "nx", "ny", "sumg", "tnr")])
            + case["end"]
        )
    path = os.path.join(d, "cam1.0007_targets")
    with open(path, "w", newline="") as f:
        f.write("".join(lines))
    same(read_targets(os.path.join(d, "cam1.%04d"), 7), ts, 0.51e-4)
    with open(os.path.join(d, "plain_targets"), "w", newline="") as f:
        f.write("".join(lines))
    same(read_targets(os.path.join(d, "plain"), 0), ts, 0.51e-4)
    return ["nontrivial"] if len(ts) > 1 else []


def judge_bad(case):
    from openptv_python.tracking_frame_buf import read_targets, write_targets

    ts = case["targets"] or [{"pnr": 0, "x": 1.0, "y": 2.0, "n": 3, "nx": 1, "ny": 3, "sumg": 9, "tnr": -1}]
    d = tempfile.mkdtemp(dir=".")
    base = os.path.join(d, "cam.%04d")
    try:
        read_targets(base, case["frame"])
        check(False, "a missing file was read")
    except IOError:
        pass
    ok = write_targets(make(ts), len(ts), os.path.join(d, "none", "cam.%04d"), case["frame"])
    check(not ok, "writing into a missing folder succeeded")
    write_targets(make(ts), len(ts), base, case["frame"])
    path = base % case["frame"] + "_targets"
    lines = open(path).read().splitlines()
    k = 1 + case["seed"] % len(ts)
    if case["damage"] == "cut":  # fewer lines than announced
        lines = lines[:k]
    else:
        lines[k] = " ".join(lines[k].split()[:-1])
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    try:
        out = read_targets(base, case["frame"])
    except ValueError:
        return ["nontrivial"]
    check(False, "a damaged file gave %d targets", len(out))


def judge_equal(case):
    """Targets are equal when every field is."""
    from openptv_python.tracking_frame_buf import Target, compare_targets

    t = case["target"]
    a, b = Target(**t), Target(**t)
    check(a == b and compare_targets(a, b), "equal targets compare unequal")
    f = case["field"]
    setattr(b, f, t[f] + 1)
    check(not (a == b) and a != b and not compare_targets(a, b), "targets with different %s compare equal", f)
    a = Target()
    a.set_pos((t["x"], t["y"]))
    a.set_pnr(t["pnr"])
    a.set_pixel_counts(t["n"], t["nx"], t["ny"])
    a.set_sum_grey_value(t["sumg"])
    check(a.pos() == (t["x"], t["y"]) and a.count_pixels() == (t["n"], t["nx"], t["ny"]) and a.sum_grey_value() == t["sumg"], "setters and getters")
    a.tnr = t["tnr"]
    check(a == Target(**t), "a target made by its setters differs")
    return ["nontrivial"]


base_case = {
    "targets": targets(),
    "name": names,
    "frame": st.one_of(st.integers(1, 300), st.integers(1, 99998)),
    "spare": st.sampled_from([0, 0, 0, 1, 3]),
    "seed": seeds(),
}

SUBS = [
    Sub("round", st.fixed_dictionaries(base_case), judge_round, 800),
    Sub(
        "read",
        st.fixed_dictionaries(
            dict(base_case, sep=st.sampled_from([" ", "\t", "   "]), pad=st.sampled_from(["", " ", "\t"]), end=st.sampled_from(["\n", "\r\n", " \n"]))
        ),
        judge_read,
        400,
    ),
    Sub("bad", st.fixed_dictionaries(dict(base_case, damage=st.sampled_from(["cut", "short"]))), judge_bad, 200),
    Sub(
        "equal",
        st.fixed_dictionaries(
            {
                "target": st.fixed_dictionaries(
                    {"pnr": st.integers(-1, 99), "x": fl(0, 99), "y": fl(0, 99), "n": st.integers(0, 99), "nx": st.integers(0, 99), "ny": st.integers(0, 99), "sumg": st.integers(0, 99), "tnr": st.integers(-1, 9)}
                ),
                "field": st.sampled_from(["pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr"]),
            }
        ),
        judge_equal,
        200,
    ),
]
