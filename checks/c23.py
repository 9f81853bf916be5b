"""C23 - detections are given to the right reference points; the files that name those points are read as written."""
import copy
import math
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.c22 import RIG, disturbed, project, rig, state
from vp.core import Sub, check, close
from vp.gen import fl, rng, seeds

PROPERTY = "C23"
RULE = (
    "Generated cameras and reference points (some outside the image), detections near the projections, doubled, "
    "missing, plus clutter, in any order, any search radius; calibration block and manual orientation files of the "
    "check's own writer (white space, line ends, blank lines); non-trivial: at least two points get a detection and at least one "
    "gets none or has two to choose from (matching), the whole chain recovers the camera (chain), two or more points (files)."
)
ASSUMPTIONS = [
    "The projection itself is judged by C04-C07; here the library's own is used to decide which detection is nearest.",
    "Reference points are numbered by their row, as everywhere in the code.",
]


def fields(t):
    return (t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr)


def detections(g, img, case):
    from openptv_python.tracking_frame_buf import Target

    out = []
    e = case["eps"]
    for i, p in enumerate(img):
        for _ in range(int(g.choice([0, 1, 1, 1, 2, 3]))):
            d = g.uniform(-1.3, 1.3, 2) * e * g.choice([0.1, 1.0])
            out.append(p + d)
    for _ in range(case["clutter"]):
        out.append(np.array([g.uniform(-20, 1300), g.uniform(-20, 1044)]))
    order = g.permutation(len(out))
    return [
        Target(
            pnr=int(k if case["numbered"] else g.integers(-999, 50)), x=float(out[j][0]), y=float(out[j][1]),
            n=int(g.integers(1, 99)), nx=int(g.integers(1, 9)), ny=int(g.integers(1, 9)),
            sumg=int(g.integers(1, 9999)), tnr=int(g.integers(-1, 50)),
        )
        for k, j in enumerate(order)
    ]


def judge_sort(case):
    from openptv_python.orientation import match_detection_to_ref
    from openptv_python.sortgrid import nearest_neighbour_pix, sortgrid

    g, v, cpar, pts = rig(case)
    if case["wide"]:  # some points outside the image
        cpar.imx, cpar.imy = 700, 500
    img = project(v.cal, cpar, pts)
    det = detections(g, img, case)
    eps = case["eps"]
    before, cal0 = [fields(t) for t in det], state(v.cal)
    if case["entry"] == "sortgrid":
        res = sortgrid(v.cal, cpar, len(pts), pts, eps, det)
    else:
        res = match_detection_to_ref(v.cal, pts, det, cpar, eps)
    check(len(res) == len(pts), "%d results for %d reference points", len(res), len(pts))
    check([fields(t) for t in det] == before, "the detections were changed")
    check((state(v.cal) == cal0).all(), "the calibration was changed")
    found = none = choice = 0
    for i, (x, y) in enumerate(img):
        inside = -eps < x < cpar.imx + eps and -eps < y < cpar.imy + eps
        near = [t for t in det if abs(t.x - x) < eps and abs(t.y - y) < eps] if inside else []
        near.sort(key=lambda t: math.hypot(t.x - x, t.y - y))
        r = res[i]
        if not near:
            none += 1
            if inside:
                check(nearest_neighbour_pix(det, x, y, eps) == -999, "a neighbour outside the radius %g", eps)
            check(r.pnr == -999, "point %d has no detection within %g, but got number %d", i, eps, r.pnr)
            continue
        found += 1
        choice += len(near) > 1
        check(r.pnr == i, "point %d has a detection within %g, but its target is numbered %d", i, eps, r.pnr)
        dmin = math.hypot(near[0].x - x, near[0].y - y)
        same = [t for t in near if math.hypot(t.x - x, t.y - y) <= dmin + 1e-9]
        check(
            any(fields(t)[1:] == fields(r)[1:] for t in same),
            "point %d at (%.3f, %.3f) got the detection at (%.3f, %.3f), the nearest is at (%.3f, %.3f)",
            i, x, y, r.x, r.y, near[0].x, near[0].y,
        )
        j = nearest_neighbour_pix(det, x, y, eps)
        check(any(det[j] is t for t in same), "nearest neighbour of (%.3f, %.3f) is not number %d", x, y, j)
    # detections in another order are given to the same points
    perm = g.permutation(len(det))
    res2 = match_detection_to_ref(v.cal, pts, [det[k] for k in perm], cpar, eps)
    for a, b, (x, y) in zip(res, res2, img):
        check((a.pnr == -999) == (b.pnr == -999), "the order of the detections decides if a point is matched")
        if a.pnr != -999:
            close(math.hypot(b.x - x, b.y - y), math.hypot(a.x - x, a.y - y), 1e-9, "distance after a change of order")
    return ["nontrivial"] if found > 1 and none + choice > 0 else ["plain"]


def judge_chain(case):
    """Detections in any order + a camera slightly off -> every point identified -> the camera is found."""
    from openptv_python.orientation import full_calibration, match_detection_to_ref
    from openptv_python.parameters import OrientPar
    from openptv_python.tracking_frame_buf import Target

    g, v, cpar, pts = rig(case)
    img = project(v.cal, cpar, pts)
    # points seen apart from each other
    keep = []
    for i in range(len(pts)):
        inside = 0 < img[i][0] < cpar.imx and 0 < img[i][1] < cpar.imy
        if inside and all(np.abs(img[i] - img[j]).max() > 30 for j in keep):
            keep.append(i)
    pts, img = pts[keep], img[keep]
    cal = disturbed(g, v, case["pert"] * 0.2)
    shift = np.abs(project(cal, cpar, pts) - img).max()
    if len(pts) < 8 or shift > 14:
        return ["unfit"]
    gone = set(g.permutation(len(pts))[: case["gone"]].tolist()) if len(pts) > 10 else set()
    order = [int(i) for i in g.permutation(len(pts)) if i not in gone]
    det = [Target(pnr=k, x=float(img[i][0]), y=float(img[i][1]), n=9, nx=3, ny=3, sumg=100 + i) for k, i in enumerate(order)]
    res = match_detection_to_ref(cal, pts, det, cpar, 15)
    for i in range(len(pts)):
        if i in gone:
            check(res[i].pnr == -999, "missing point %d got a detection", i)
        else:
            check(res[i].pnr == i and res[i].sumg == 100 + i, "point %d got number %d, %d", i, res[i].pnr, res[i].sumg - 100)
    try:
        r, used, _ = full_calibration(cal, pts, res, cpar, OrientPar())
    except ValueError as e:
        check(False, "calibration after matching failed: %s", e)
    check(list(used) == [i for i in range(len(pts)) if i not in gone], "points used: %s", list(used))
    dist = np.linalg.norm(v.pos - v.aim_pt)
    close(cal.get_pos() / dist, v.pos / dist, 1e-4, "camera position / distance")
    check(np.abs(project(cal, cpar, pts) - img).max() < 0.1, "points are projected elsewhere after the calibration")
    return ["nontrivial"] if shift > 1 else ["near"]


# ---------------------------------------------------------------- files


def _write(path, rows, case, g):
    with open(path, "w", newline="") as f:
        for r in rows:
            sep = {"space": " ", "tab": "\t", "pad": "   "}[case["sep"]]
            f.write(("  " if case["lead"] else "") + sep.join(r) + (" " if case["lead"] else "") + case["eol"])
            if case["blank"] and g.uniform() < 0.3:
                f.write(case["eol"])


def judge_files(case):
    from openptv_python import orientation, sortgrid

    g = rng(case["seed"])
    d = tempfile.mkdtemp(dir=".")
    path = os.path.join(d, "calblock.txt")
    pts = case["pts"]
    rows = [[str(i + 1)] + [case["fmt"] % x for x in p] for i, p in enumerate(pts)]
    want = np.array([[float(x) for x in r[1:]] for r in rows]).reshape(-1, 3)
    _write(path, rows, dict(case, blank=False), g)
    a = sortgrid.read_calblock(path)
    check(len(a) == len(pts), "sortgrid.read_calblock: %d of %d points", len(a), len(pts))
    for i in range(len(pts)):
        check(int(a[i]["pnr"]) == i + 1, "point %d is numbered %s", i + 1, a[i]["pnr"])
        close([a[i]["x"], a[i]["y"], a[i]["z"]], want[i], 0, "sortgrid.read_calblock: point %d" % (i + 1))
    _write(path, rows, case, g)
    fix, num = orientation.read_calblock(path)
    check(num == len(pts) and np.shape(fix) == (len(pts), 3), "orientation.read_calblock: %s points, %s", num, np.shape(fix))
    close(fix, want, 0, "orientation.read_calblock")

    # manual orientation: four numbers for each camera
    n_cam = case["n_cam"]
    mpath = os.path.join(d, "man_ori.par")
    pool = list(range(1, len(pts) + 1)) + ([len(pts) + 3] if case["unknown"] else [])
    nums = [[int(x) for x in g.permutation(pool)[:4]] for _ in range(n_cam)] if len(pool) >= 4 else [[1, 2, 3, 4]] * n_cam
    flat = [str(x) for q in nums for x in q]
    per = case["per_line"]
    lines = [flat[i : i + per] for i in range(0, len(flat), per)]
    _write(mpath, lines, case, g)
    for c in range(n_cam):
        got = orientation.read_man_ori_fix(path, mpath, c)
        if len(pts) < 4 or max(nums[c]) > len(pts):
            check(got is None, "camera %d: %s for numbers %s of %d points", c, got, nums[c], len(pts))
        else:
            check(got is not None, "camera %d: nothing for numbers %s of %d points", c, nums[c], len(pts))
            close(got, want[[x - 1 for x in nums[c]]], 0, "camera %d: points %s" % (c, nums[c]))

    spath = os.path.join(d, "sortgrid.par")
    check(sortgrid.read_sortgrid_par(spath) == 25, "no sortgrid.par: the radius is not the default")
    with open(spath, "w") as f:
        f.write("%d%s" % (case["radius"], case["eol"]))
    check(sortgrid.read_sortgrid_par(spath) == case["radius"], "sortgrid.par: the radius is not read")
    return ["nontrivial"] if len(pts) > 1 else ["few"]


SUBS = [
    Sub(
        "sort",
        st.fixed_dictionaries(
            dict(
                view=RIG, radius=st.sampled_from([6.0, 3.0]), seed=seeds(), n=st.sampled_from([4, 1, 12, 30]),
                eps=st.sampled_from([25, 5, 10.5, 100, 1.0]), clutter=st.sampled_from([5, 0, 30]),
                numbered=st.booleans(), wide=st.booleans(), entry=st.sampled_from(["sortgrid", "match"]),
            )
        ),
        judge_sort,
        quick=800,
        thorough=20000,
    ),
    Sub(
        "chain",
        st.fixed_dictionaries(
            dict(
                view=RIG, radius=st.sampled_from([6.0, 5.0]), seed=seeds(), n=st.sampled_from([20, 30, 16]),
                pert=st.sampled_from([0.3, 1.0, 0.1]), gone=st.sampled_from([0, 1, 3]),
            )
        ),
        judge_chain,
        quick=300,
        thorough=6000,
    ),
    Sub(
        "files",
        st.fixed_dictionaries(
            dict(
                seed=seeds(),
                pts=st.lists(st.tuples(fl(-500, 500), fl(-500, 500), fl(-100, 100)).map(list), min_size=1, max_size=12),
                fmt=st.sampled_from(["%.4f", "%r", "%.2f", "%g"]),
                sep=st.sampled_from(["space", "tab", "pad"]), eol=st.sampled_from(["\n", "\r\n"]),
                lead=st.booleans(), blank=st.booleans(), n_cam=st.sampled_from([1, 2, 4]),
                per_line=st.sampled_from([1, 4, 2]), unknown=st.booleans(), radius=st.integers(1, 500),
            )
        ),
        judge_files,
        quick=600,
        thorough=12000,
        warm=1,
    ),
]
