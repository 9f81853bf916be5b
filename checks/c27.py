"""C27 - results depend on the arguments alone; the arguments are left as they were."""
import copy
import os
import shutil
import sys
import tempfile
import threading

import numpy as np
from hypothesis import strategies as st

from vp import flow
from vp.core import Sub, check
from vp.gen import Scene, make_cal, media, rng, scene, seeds

PROPERTY = "C27"
RULE = (
    "Histories of 3 to 14 calls drawn from 39 functions of all modules on two generated set-ups (cameras, media, points, "
    "targets, images); every call is repeated with the same arguments after all the others, in another order, and with "
    "newly built equal ones; tracking runs are repeated after a run on other data; non-trivial: at least three different "
    "functions were called on both set-ups (calls), links were made (tracking)."
)
ASSUMPTIONS = [
    "Functions that are meant to change an argument (calibrations, target references) get a copy, which then belongs to the result.",
    "Equal means identical, bit by bit, with one thread, as the code is used by default here.",
]


def snap(x):
    """The full value of an argument or a result, comparable."""
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.void):
        return ("record", x.tobytes())
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (str, bytes)) or x is None:
        return x
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if hasattr(x, "_fields"):
        return ("named", [snap(v) for v in x])
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    if hasattr(x, "__dict__"):
        return (type(x).__name__, {k: snap(v) for k, v in vars(x).items()})
    raise TypeError(type(x))


class World:
    def __init__(self, c):
        from openptv_python.parameters import TargetPar, TrackPar, VolumePar, convert_track_par_to_tuple
        from openptv_python.tracking_frame_buf import Target, match_coords

        self.s = s = Scene(c["scene"], all_cam=c["all_cam"])
        g = rng(c["seed"])
        self.cals, self.cpar, self.mm = s.cals, s.cpar, s.cpar.mm
        z = float(s.center[2])
        self.vpar = VolumePar(
            x_lay=[-100.0, 100.0], z_min_lay=[z - 12.0, z - 11.0], z_max_lay=[z + 12.0, z + 11.0],
            cn=0.1, cnx=0.1, cny=0.1, csumg=0.1, eps0=0.05, corrmin=10.0,
        )
        self.tpar = convert_track_par_to_tuple(
            TrackPar(dvxmin=-2.0, dvxmax=2.0, dvymin=-2.0, dvymax=2.0, dvzmin=-2.0, dvzmax=2.0, dangle=100.0, dacc=2.0, add=1)
        )
        self.points = np.array([s.local(g.uniform(-6, 6, 3)) for _ in range(12)])
        self.targets = []
        for k in range(s.n):
            rows = sorted((float(s.image_lib(k, p)[1]), float(s.image_lib(k, p)[0]), i) for i, p in enumerate(self.points))
            self.targets.append(
                [Target(pnr=j, x=x, y=y, n=12, nx=4, ny=3, sumg=200 + i, tnr=i) for j, (y, x, i) in enumerate(rows)]
            )
        self.flat = [match_coords(t, self.cpar, cal, 1e-5) for t, cal in zip(self.targets, self.cals)]
        self.image = np.zeros((60, 80), dtype=np.uint8)
        for _ in range(9):
            y, x = g.integers(4, 56), g.integers(4, 76)
            self.image[y - 1 : y + 2, x - 1 : x + 2] = g.integers(40, 255, (3, 3))
        self.icpar = copy.deepcopy(self.cpar)
        self.icpar.imx, self.icpar.imy = 80, 60
        self.target_par = TargetPar(
            gvthresh=[30, 30, 30, 30], discont=50, nnmin=2, nnmax=50, nxmin=1, nxmax=20, nymin=1, nymax=20, sumg_min=10, cr_sz=2
        )
        self.metric = np.array([[s.metric(k, p) for k in range(s.n)] for p in self.points])
        self.flat_pts = np.array([[s.views[k].image(p) for k in range(s.n)] for p in self.points])


def ops():
    from openptv_python import (
        correspondences, epi, find_candidate, image_processing, imgcoord, multimed, orientation, ray_tracing, segmentation,
        sortgrid, track, tracking_frame_buf, trafo,
    )
    from openptv_python.parameters import OrientPar

    def shifted(cal, g):
        c = copy.deepcopy(cal)
        c.set_pos(c.get_pos() + g.uniform(-2, 2, 3))
        c.set_angles(c.get_angles() + g.uniform(-0.01, 0.01, 3))
        return c

    def calibrate(full):
        def f(cal, pts, img, cpar):
            c = copy.deepcopy(cal)
            if full:
                r = orientation.full_calibration(c, pts, img, cpar, OrientPar(k1flag=1))
            else:
                r = orientation.external_calibration(c, pts, img, cpar)
            return r, c
        return f

    def lut(vpar, cpar, cal, pts):
        c = copy.deepcopy(cal)
        c = multimed.init_mmlut(vpar, cpar, c) or c
        return c, [multimed.get_mmf_from_mmlut(c, p) for p in pts]

    def corresp(targets, flat, cals, vpar, cpar):
        t = copy.deepcopy(targets)
        return correspondences.py_correspondences(t, flat, cals, vpar, cpar), t

    def rest(*a):
        p = [-1] * 4
        return track.candsearch_in_pix_rest(*a[:-1], p, a[-1]), p

    # name -> (function, arguments out of a world w, a camera k, another j, a point i and a generator g)
    def px(w, k):
        return np.array([w.s.image_lib(k, p) for p in w.points])

    return {
        "pixel_to_metric": (trafo.pixel_to_metric, lambda w, k, j, i, g: [w.targets[k][i].x, w.targets[k][i].y, w.cpar]),
        "metric_to_pixel": (trafo.metric_to_pixel, lambda w, k, j, i, g: [*w.metric[i, k], w.cpar]),
        "arr_metric_to_pixel": (trafo.arr_metric_to_pixel, lambda w, k, j, i, g: [w.metric[:, k].copy(), w.cpar]),
        "dist_to_flat": (trafo.dist_to_flat, lambda w, k, j, i, g: [*w.metric[i, k], w.cals[k], 1e-6]),
        "flat_to_dist": (trafo.flat_to_dist, lambda w, k, j, i, g: [*w.flat_pts[i, k], w.cals[k]]),
        "flat_image_coord": (imgcoord.flat_image_coord, lambda w, k, j, i, g: [w.points[i].copy(), w.cals[k], w.mm]),
        "flat_image_coordinates": (imgcoord.flat_image_coordinates, lambda w, k, j, i, g: [w.points.copy(), w.cals[k], w.mm]),
        "img_coord": (imgcoord.img_coord, lambda w, k, j, i, g: [w.points[i].copy(), w.cals[k], w.mm]),
        "image_coordinates": (imgcoord.image_coordinates, lambda w, k, j, i, g: [w.points.copy(), w.cals[k], w.mm]),
        "ray_tracing": (ray_tracing.ray_tracing, lambda w, k, j, i, g: [*w.flat_pts[i, k], w.cals[k], w.mm]),
        "multimed_nlay": (multimed.multimed_nlay, lambda w, k, j, i, g: [w.cals[k], w.mm, w.points[i].copy()]),
        "multimed_r_nlay": (multimed.multimed_r_nlay, lambda w, k, j, i, g: [w.cals[k], w.mm, w.points[i].copy()]),
        "trans_cam_point": (
            multimed.trans_cam_point, lambda w, k, j, i, g: [w.cals[k].ext_par, w.mm, w.cals[k].glass_par, w.points[i].copy()]
        ),
        "init_mmlut": (lut, lambda w, k, j, i, g: [w.vpar, w.cpar, w.cals[k], w.points[:3].copy()]),
        "volumedimension": (
            multimed.volumedimension, lambda w, k, j, i, g: [10.0, -10.0, 5.0, -5.0, 0.0, 0.0, w.vpar, w.cpar, w.cals]
        ),
        "epi_mm": (epi.epi_mm, lambda w, k, j, i, g: [*w.flat_pts[i, k], w.cals[k], w.cals[j], w.mm, w.vpar]),
        "epi_mm_2D": (epi.epi_mm_2D, lambda w, k, j, i, g: [*w.flat_pts[i, k], w.cals[k], w.mm, w.vpar]),
        "epipolar_curve": (
            epi.epipolar_curve, lambda w, k, j, i, g: [np.array(px(w, k)[i]), w.cals[k], w.cals[j], 5, w.cpar, w.vpar]
        ),
        "find_candidate": (
            find_candidate.find_candidate,
            lambda w, k, j, i, g: [
                w.flat[k], w.targets[k], len(w.targets[k]), -3.0, -3.0, 3.0, 3.0, 12, 4, 3, 205, w.vpar, w.cpar, w.cals[k]
            ],
        ),
        "correspondences": (corresp, lambda w, k, j, i, g: [w.targets, w.flat, w.cals, w.vpar, w.cpar]),
        "point_position": (
            orientation.point_position, lambda w, k, j, i, g: [w.flat_pts[i].copy(), w.s.n, w.mm, w.cals]
        ),
        "point_positions": (orientation.point_positions, lambda w, k, j, i, g: [w.flat_pts.copy(), w.mm, w.cals, w.vpar]),
        "single_cam_point_positions": (
            orientation.point_positions, lambda w, k, j, i, g: [w.flat_pts[:, k : k + 1].copy(), w.mm, [w.cals[k]], w.vpar]
        ),
        "dumbbell": (orientation.dumbbell_target_func, lambda w, k, j, i, g: [w.flat_pts.copy(), w.cpar, w.cals, 9.0, 1.5]),
        "external_calibration": (
            calibrate(False), lambda w, k, j, i, g: [shifted(w.cals[k], g), w.points.copy(), px(w, k), w.cpar]
        ),
        "full_calibration": (
            calibrate(True), lambda w, k, j, i, g: [shifted(w.cals[k], g), w.points.copy(), px(w, k), w.cpar]
        ),
        "sortgrid": (sortgrid.sortgrid, lambda w, k, j, i, g: [w.cals[k], w.cpar, 12, w.points.copy(), 20.0, w.targets[k]]),
        "match_detection_to_ref": (
            orientation.match_detection_to_ref, lambda w, k, j, i, g: [w.cals[k], w.points.copy(), w.targets[k], w.cpar, 20]
        ),
        "match_coords": (
            tracking_frame_buf.match_coords, lambda w, k, j, i, g: [w.targets[k], w.cpar, w.cals[k], 1e-5]
        ),
        "get_by_pnrs": (
            tracking_frame_buf.get_by_pnrs, lambda w, k, j, i, g: [w.flat[k], g.permutation(12)[:7]]
        ),
        "target_recognition": (
            segmentation.target_recognition, lambda w, k, j, i, g: [w.image.copy(), w.target_par, k, w.icpar]
        ),
        "prepare_image": (image_processing.prepare_image, lambda w, k, j, i, g: [w.image.copy(), 1, 0]),
        "preprocess_image": (image_processing.preprocess_image, lambda w, k, j, i, g: [w.image.copy(), 0, w.icpar, 2]),
        "subtract_mask": (
            image_processing.subtract_mask, lambda w, k, j, i, g: [w.image.copy(), (g.random((60, 80)) < 0.5).astype(np.uint8)]
        ),
        "searchquader": (track.searchquader, lambda w, k, j, i, g: [w.points[i].copy(), w.tpar, w.cpar, w.cals]),
        "point_to_pixel": (track.point_to_pixel, lambda w, k, j, i, g: [w.points[i].copy(), w.cals[k], w.cpar]),
        "candsearch_in_pix": (
            track.candsearch_in_pix,
            lambda w, k, j, i, g: [w.targets[k], 12, w.targets[k][i].x, w.targets[k][i].y, 90.0, 90.0, 90.0, 90.0, w.cpar],
        ),
        "candsearch_in_pix_rest": (
            rest,
            lambda w, k, j, i, g: [w.targets[k], 12, w.targets[k][i].x, w.targets[k][i].y, 9.0, 9.0, 9.0, 9.0, w.cpar],
        ),
        "angle_acc": (
            track.angle_acc, lambda w, k, j, i, g: [w.points[i].copy(), w.points[i - 1].copy(), w.points[i - 2].copy()]
        ),
    }


def result(f, args):
    try:
        return f(*args)
    except (ValueError, ZeroDivisionError, np.linalg.LinAlgError) as e:
        return "raised " + type(e).__name__


def outcome(f, args):
    return snap(result(f, args))


def arguments(table, names, ws, call):
    w = ws[call["w"]]
    g = rng(call["seed"])
    k = int(g.integers(0, w.s.n))
    j = int((k + 1) % w.s.n)
    i = int(g.integers(0, 12))
    f, make = table[names[call["op"] % len(names)]]
    return names[call["op"] % len(names)], f, make(w, k, j, i, g)


def judge_calls(case):
    table = ops()
    names = sorted(table)
    worlds = [World(c) for c in case["worlds"]]

    world0 = [snap(w) for w in worlds]
    calls = []
    for call in case["calls"]:
        name, f, args = arguments(table, names, worlds, call)
        before = snap(args)
        kept = result(f, args)
        r = snap(kept)
        check(snap(args) == before, "%s changed its arguments", name)
        calls.append((name, f, args, r, kept))
    g = rng(case["seed"])
    for q in g.permutation(len(calls)):
        name, f, args, r, kept = calls[q]
        check(outcome(f, args) == r, "%s gives something else when it is called again with the same arguments", name)
    for name, f, args, r, kept in calls:
        check(snap(kept) == r, "what %s had returned changed with later calls", name)
    check([snap(w) for w in worlds] == world0, "a call changed cameras, targets or parameters it was not to change")
    fresh = [World(c) for c in case["worlds"]]
    for q in g.permutation(len(calls)):
        name, f, args = arguments(table, names, fresh, case["calls"][q])
        check(outcome(f, args) == calls[q][3], "%s gives something else when it is called with equal, new arguments", name)
    used = {(c["w"], names[c["op"] % len(names)]) for c in case["calls"]}
    ok = len({b for a, b in used}) >= 3 and len({a for a, b in used}) == 2
    return (["nontrivial"] if ok else ["few"]) + sorted({"op:" + b for a, b in used})


def judge_threads(case):
    """The same calls in several threads at once, each with arguments of its own, give what they gave alone."""
    table = ops()
    names = sorted(table)
    worlds = [World(c) for c in case["worlds"]]
    calls = []
    for call in case["calls"]:
        name, f, args = arguments(table, names, worlds, call)
        # Compiled with parallel=True: whether it may run in threads is up to numba's threading layer.
        if name != "angle_acc":
            calls.append((name, f, args, outcome(f, args)))
    g = rng(case["seed"])
    plans = [
        [(name, f, copy.deepcopy(args), r) for _ in range(case["rounds"]) for q in g.permutation(len(calls)) for name, f, args, r in [calls[q]]]
        for _ in range(case["threads"])
    ]
    bad, start = [], threading.Barrier(len(plans))

    def work(plan):
        try:
            start.wait()
            for name, f, args, r in plan:
                if outcome(f, args) != r:
                    bad.append("%s gives something else while other threads call the library" % name)
                    return
        except Exception as e:  # noqa: BLE001
            bad.append("%s in a thread: %r" % (name, e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(p,)) for p in plans]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    check(not bad, "%s", "; ".join(sorted(bad)))
    used = {(c["w"], names[c["op"] % len(names)]) for c in case["calls"]}
    ok = len({b for a, b in used}) >= 2 and len({a for a, b in used}) == 2
    return (["nontrivial"] if ok else ["few"]) + sorted({"op:" + b for a, b in used})


def judge_track(case):
    """Tracking the same files again, after a run on other files, gives the same files."""
    d = tempfile.mkdtemp(dir=".")
    scenes, data = [], []
    for c in case["worlds"]:
        s = Scene(c["scene"])
        g = rng(c["seed"])
        v = [g.uniform(-1, 1, 3) for _ in range(4)]
        x = [g.uniform(-7, 7, 3) for _ in range(4)]
        frames = []
        for t in range(4):
            pts = [s.local(x[i] + t * v[i]) for i in range(4)]
            frames.append(flow.frame(s, g, pts, 0.1, [s.local(x[3] + t * v[3] + 4)], clutter=2)[0])
        scenes.append(s)
        data.append(frames)

    def once(q, name, keep=None):
        p = os.path.join(d, name)
        os.mkdir(p)
        s = scenes[q]
        for t, f in enumerate(data[q]):
            flow.write(p, s, 11 + t, f)
        before = snap([s.cals, s.cpar])
        r = keep(p) if keep else flow.run(p, s, 11, 14, [-3, 3, -3, 3, -3, 3], 1.0, 120.0, case["add"])
        flow.forward(r)
        out = [r.npart, r.nlinks]
        if case["back"]:
            out.append(flow.backward(r))
        check(snap([s.cals, s.cpar]) == before, "tracking changed cameras or control parameters")
        out.append([flow.read(p, s, 11 + t) for t in range(4)])
        shutil.rmtree(os.path.abspath(p))
        return out

    a = once(0, "a")
    b = once(1, "b")
    check(once(0, "c") == a, "the same tracking run gives something else after a run on other data")
    check(once(1, "d") == b, "the same tracking run gives something else after a run on other data")
    links = sum(n >= 0 for f in a[-1] for p, n in f["links"])
    return ["nontrivial"] if links else ["none"]


WORLD = st.fixed_dictionaries(
    dict(scene=scene(2, 4, mm=media(1, 10.0), h=(200, 500)), seed=seeds(), all_cam=st.sampled_from([0, 1]))
)
CALL = st.fixed_dictionaries(dict(op=st.sampled_from(range(39)), w=st.sampled_from([0, 1]), seed=seeds()))
SUBS = [
    Sub(
        "calls",
        st.fixed_dictionaries(
            dict(worlds=st.tuples(WORLD, WORLD).map(list), calls=st.lists(CALL, min_size=3, max_size=14), seed=seeds())
        ),
        judge_calls,
        quick=200,
        thorough=5000,
    ),
    Sub(
        "threads",
        st.fixed_dictionaries(
            dict(
                worlds=st.tuples(WORLD, WORLD).map(list), calls=st.lists(CALL, min_size=2, max_size=8), seed=seeds(),
                threads=st.sampled_from([4, 2, 3]), rounds=st.sampled_from([2, 1, 3]),
            )
        ),
        judge_threads,
        quick=100,
        thorough=3000,
        schedules=True,
    ),
    Sub(
        "track",
        st.fixed_dictionaries(dict(worlds=st.tuples(WORLD, WORLD).map(list), add=st.sampled_from([1, 0]), back=st.booleans())),
        judge_track,
        quick=24,
        thorough=600,
    ),
]
