"""C15 - calibration files: write, read, compare, copy."""
import copy
import os
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check, close
from vp.gen import IDENT_AP, fl, make_cal, rot, seeds, rng

PROPERTY = "C15"
RULE = (
    "Generated calibrations written and read back through every entry point, files re-laid-out with other white "
    "space, and pairs of calibrations that differ in exactly one drawn field; non-trivial: all of position, angles, "
    "interior orientation and at least one distortion parameter are non-default."
)

cal_st = st.fixed_dictionaries(
    {
        "pos": st.lists(fl(-5000, 5000), min_size=3, max_size=3),
        "ang": st.lists(fl(-7, 7), min_size=3, max_size=3),
        "pp": st.tuples(fl(-50, 50), fl(-50, 50), st.one_of(fl(1, 500), fl(-500, 500))).map(list),
        "glass": st.lists(fl(-2000, 2000), min_size=3, max_size=3),
        "ap": st.one_of(
            st.just(IDENT_AP),
            st.tuples(*[fl(-0.1, 0.1)] * 5, fl(0.5, 1.5), fl(-0.5, 0.5)).map(list),
        ),
    }
)

def interesting(c):
    return all(c["pos"]) and all(c["ang"]) and all(c["pp"]) and c["ap"] != IDENT_AP


def same(cal, c, ap=True):
    """What was read, against what was written, to the precision of the file."""
    close(cal.get_pos(), c["pos"], 0.51e-8 + 1e-12, "position")
    close(cal.get_angles(), c["ang"], 0.51e-8, "angles")
    close(cal.get_rotation_matrix(), rot(c["ang"]), 3e-8, "rotation matrix")
    close(cal.get_primary_point(), c["pp"], 0.51e-4, "interior orientation")
    close(cal.get_glass_vec(), c["glass"], 1e-12, "glass vector")
    close(cal.added_par, c["ap"] if ap else IDENT_AP, 0.51e-8, "added parameters")


def writers():
    from openptv_python import calibration as m

    return {
        "method": lambda cal, o, a: cal.write(o, a),
        "function": lambda cal, o, a: m.write_calibration(cal, o, a),
        "parts": lambda cal, o, a: m.write_ori(
            cal.ext_par, cal.int_par, cal.glass_par, cal.added_par, o, a
        ),
    }


def readers():
    from openptv_python import calibration as m

    return {
        "read_calibration": m.read_calibration,
        "read_ori": m.read_ori,
        "from_file": m.Calibration.from_file,
        "from_file on an object": lambda o, a: m.Calibration().from_file(o, a),
    }


def judge_files(case):
    c = case["cal"]
    cal = make_cal(c)
    before = copy.deepcopy(cal)
    w, r = writers()[case["writer"]], readers()[case["reader"]]
    ori, add = "x.ori", "x.addpar"
    for f in (ori, add):
        if os.path.exists(f):
            os.unlink(f)
    ret = w(cal, ori, add if case["with_add"] else None)
    check(ret is None or bool(ret), "writing reported failure")
    check(os.path.exists(add) == case["with_add"], "the added-parameter file: %s", os.path.exists(add))
    for f in ("ext_par", "int_par", "glass_par", "added_par"):
        check(
            np.array_equal(np.array(getattr(cal, f)), np.array(getattr(before, f))),
            "writing changed %s",
            f,
        )
    got = r(Path(ori), Path(add) if case["with_add"] else None)
    same(got, c, ap=case["with_add"])
    # the values are what counts, not the layout of the lines
    text = open(ori, encoding="utf-8").read().split()
    check(len(text) == 21, "%d numbers in the file", len(text))
    g = rng(case["seed"])
    seps = [" ", "  ", "\t", "\n", "\n\n", "\r\n"]
    with open(ori, "w", encoding="utf-8", newline="") as f:
        f.write("".join(t + seps[g.integers(len(seps))] for t in text))
    again = r(Path(ori), Path(add) if case["with_add"] else None)
    for f in ("get_pos", "get_angles", "get_primary_point", "get_glass_vec", "get_rotation_matrix"):
        close(getattr(again, f)(), getattr(got, f)(), 0, f + " from a re-laid-out file")
    # reading and writing settle at once: the second and third files are the same
    w(got, "y.ori", "y.addpar")
    third = r(Path("y.ori"), Path("y.addpar"))
    w(third, "z.ori", "z.addpar")
    for e in ("ori", "addpar"):
        check(
            open("y." + e, "rb").read() == open("z." + e, "rb").read(),
            "writing what was read gives another .%s file",
            e,
        )
    return ["nontrivial"] if interesting(c) else []


def judge_compare(case):
    from openptv_python import calibration as m

    c = case["cal"]
    a, b = make_cal(c), make_cal(c)
    check(m.compare_calibration(a, b) is True or m.compare_calibration(a, b) == 1, "equal calibrations compare different")
    d = copy.deepcopy(c)
    f, i = case["field"]
    d[f][i] += case["delta"]
    if d[f][i] == c[f][i]:
        return []
    b = make_cal(d)
    for x, y in ((a, b), (b, a)):
        check(not m.compare_calibration(x, y), "calibrations with another %s[%d] compare equal", f, i)
        check(bool(m.compare_exterior(x.ext_par, y.ext_par)) == (f not in ("pos", "ang")), "compare_exterior when %s differs", f)
        check(bool(m.compare_interior(x.int_par, y.int_par)) == (f != "pp"), "compare_interior when %s differs", f)
        check(bool(m.compare_glass(x.glass_par, y.glass_par)) == (f != "glass"), "compare_glass when %s differs", f)
        check(bool(m.compare_addpar(x.added_par, y.added_par)) == (f != "ap"), "compare_addpar when %s differs", f)
    # a copy is equal, and independent of the original
    n = m.Calibration()
    b.copy(n)
    check(bool(m.compare_calibration(n, b)), "a copy compares different")
    check(not m.compare_calibration(n, a), "a copy of another calibration compares equal")
    b.set_pos(np.array([1.0, 2.0, 1e5]))
    b.added_par += 1.0
    b.glass_par += 1.0
    b.int_par.cc += 1.0
    same(n, d)
    return ["nontrivial"] if interesting(c) else []


def judge_missing(case):
    from openptv_python import calibration as m

    for r in readers().values():
        try:
            r(Path("no_such_%d.ori" % case["i"]), None)
        except IOError:
            continue
        check(False, "a missing orientation file was read")
    cal = m.Calibration()
    try:
        cal.write("no_such_dir_%d/x.ori" % case["i"], "x.addpar")
    except IOError:
        pass
    else:
        check(False, "writing into a missing directory was reported as success")
    return ["nontrivial"]


FIELDS = [(f, i) for f, n in (("pos", 3), ("ang", 3), ("pp", 3), ("glass", 3), ("ap", 7)) for i in range(n)]
SUBS = [
    Sub(
        "files",
        st.fixed_dictionaries(
            {
                "cal": cal_st,
                "with_add": st.sampled_from([True, True, False]),
                "writer": st.sampled_from(["method", "function", "parts"]),
                "reader": st.sampled_from(
                    ["read_calibration", "read_ori", "from_file", "from_file on an object"]
                ),
                "seed": seeds(),
            }
        ),
        judge_files,
        quick=2000,
        thorough=40000,
    ),
    Sub(
        "compare",
        st.fixed_dictionaries(
            {
                "cal": cal_st,
                "field": st.sampled_from(FIELDS).map(list),
                "delta": st.one_of(fl(1e-3, 1.0), fl(-1.0, -1e-3)),
            }
        ),
        judge_compare,
        quick=2500,
        thorough=50000,
    ),
    Sub("missing", st.fixed_dictionaries({"i": st.integers(0, 20)}), judge_missing, quick=20, thorough=40),
]
