"""C08 - triangulation."""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from vp.core import Reject, Sub, check, close
from vp.gen import AIR, Scene, fl, rng, scene, seeds

PROPERTY = "C08"
RULE = (
    "Generated rigs of two to four cameras behind one glass plane, batches of space points, exact and disturbed image "
    "points, any subset of at least two cameras seeing each; non-trivial: a point seen by at least two cameras in "
    "refracting media (position), two skew lines (midpoint), at least one full pair (dumbbell)."
)
ASSUMPTIONS = ["Triangulation uses one glass layer (the library's ray tracing)."]

UNUSED = -1e10


def midpoint(p, a, q, b):
    """Closest points of two lines, by solving the normal equations."""
    A = np.array([[a @ a, -(a @ b)], [a @ b, -(b @ b)]])
    s, t = np.linalg.solve(A, np.array([(q - p) @ a, (q - p) @ b]))
    u, w = p + s * a, q + t * b
    return np.linalg.norm(u - w), 0.5 * (u + w)


def judge_midpoint(case):
    from openptv_python.orientation import skew_midpoint

    p, a, q, b = (np.array(case[k], dtype=float) for k in ("p", "a", "q", "b"))
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na < 0.1 or nb < 0.1 or np.linalg.norm(np.cross(a / na, b / nb)) < 0.05:
        return ["parallel"]
    keep = [v.copy() for v in (p, a, q, b)]
    d, m = skew_midpoint(p, a, q, b)
    rd, rm = midpoint(p, a, q, b)
    s = 1e-9 * (1 + np.abs(p - q).max()) / 0.05**2
    close(d, rd, s, "distance of the lines")
    close(m, rm, s, "midpoint")
    d2, m2 = skew_midpoint(q, b, p, a)
    close((d2, *m2), (d, *m), s, "after exchanging the lines")
    d3, m3 = skew_midpoint(p + a * case["t"], -2.0 * a, q, b)
    close((d3, *m3), (d, *m), s * 20, "after another description of the first line")
    for v, k in zip((p, a, q, b), keep):
        check((v == k).all(), "an argument changed")
    # lines through a common point
    d4, m4 = skew_midpoint(p - a * case["t"], a, p - b * 1.5, b)
    close((d4, *m4), (0.0, *p), s * 20, "lines that meet")
    return ["nontrivial"] if rd > 1e-6 else []


def expected(s, targs):
    """Mean over all pairs of the midpoints of the exactly traced rays."""
    rays = [s.views[k].trace(*t) if t[0] != UNUSED else None for k, t in enumerate(targs)]
    ds, ms = [], []
    for i, j in itertools.combinations(range(len(rays)), 2):
        if rays[i] is None or rays[j] is None:
            continue
        d, m = midpoint(*rays[i], *rays[j])
        ds.append(d)
        ms.append(m)
    return np.mean(ds), np.mean(ms, axis=0)


def make_targets(s, case, g):
    """Image points: exact ones plus noise, some cameras not used."""
    n = case["npts"]
    pts, targs = [], np.empty((n, s.n, 2))
    for i in range(n):
        p = s.local(g.uniform(-12, 12, 3))
        pts.append(p)
        used = g.permutation(s.n)[: g.integers(2, s.n + 1)] if case["drop"] else range(s.n)
        for k in range(s.n):
            if k in used:
                targs[i, k] = np.array(s.views[k].image(p)) + g.normal(0, 1, 2) * case["noise"]
            else:
                targs[i, k] = UNUSED
    return pts, targs


def judge_positions(case):
    from openptv_python.orientation import (
        multi_cam_point_positions,
        point_position,
        point_positions,
    )

    s = Scene(case["scene"])
    g = rng(case["seed"])
    pts, targs = make_targets(s, case, g)
    keep = targs.copy()
    cals = copy.deepcopy(s.cals)
    mm = s.cpar.mm
    res, rcm = point_positions(targs, mm, s.cals, None)
    check((targs == keep).all(), "the image points changed")
    check(res.shape == (len(pts), 3) and rcm.shape == (len(pts),), "shapes %s %s", res.shape, rcm.shape)
    res2, rcm2 = multi_cam_point_positions(targs, mm, s.cals)
    close(res2, res, 0, "multi_cam_point_positions")
    close(rcm2, rcm, 0, "multi_cam_point_positions convergence")
    for i, p in enumerate(pts):
        ed, em = expected(s, targs[i])
        close(rcm[i], ed, 1e-6, "ray convergence of point %d" % i)
        close(res[i], em, 1e-5, "position of point %d" % i)
        if case["noise"] == 0:
            close(res[i], p, 1e-4, "true position of point %d" % i)
            close(rcm[i], 0.0, 1e-4, "convergence of exact rays")
        d, r = point_position(targs[i], s.n, mm, s.cals)
        close((d, *r), (rcm[i], *res[i]), 1e-12, "one point against the batch")
        # cameras that do not see the point play no part
        seen = [k for k in range(s.n) if targs[i, k, 0] != UNUSED]
        d, r = point_position(targs[i][seen], len(seen), mm, [s.cals[k] for k in seen])
        close((d, *r), (rcm[i], *res[i]), 1e-9, "with the other cameras left out")
        # nor does the order of the cameras
        perm = g.permutation(s.n)
        d, r = point_position(targs[i][perm], s.n, mm, [s.cals[k] for k in perm])
        close((d, *r), (rcm[i], *res[i]), 1e-8, "with the cameras in another order")
    for a, b in zip(s.cals, cals):
        check(np.array_equal(a.ext_par, b.ext_par) and np.array_equal(a.glass_par, b.glass_par), "a calibration changed")
    m = s.v0.mm
    return ["nontrivial"] if len({m["n1"], m["n2"][0], m["n3"]}) > 1 and len(pts) else []


def judge_single(case):
    from openptv_python.epi import epi_mm_2D
    from openptv_python.orientation import point_positions, single_cam_point_positions
    from openptv_python.parameters import VolumePar

    s = Scene(case["scene"])
    g = rng(case["seed"])
    v = s.views[0]
    z0 = -60 + g.uniform(0, 10, 2)
    z1 = -40 + g.uniform(0, 30, 2)
    vp = VolumePar(x_lay=[-40.0, 60.0], z_min_lay=z0.tolist(), z_max_lay=z1.tolist())
    n = case["npts"]
    targs = g.uniform(-3, 3, (n, 1, 2))
    res, rcm = point_positions(targs, s.cpar.mm, [v.cal], vp)
    res2, _ = single_cam_point_positions(targs, s.cpar.mm, [v.cal], vp)
    close(res2, res, 0, "single_cam_point_positions")
    close(rcm, np.zeros(n), 0, "convergence of single rays")
    for i in range(n):
        t = v.trace(*targs[i, 0])
        if t is None:
            raise Reject
        X, a = t
        f = (X[0] + 40.0) / 100.0
        z = 0.5 * (z0[0] + f * (z0[1] - z0[0]) + z1[0] + f * (z1[1] - z1[0]))
        close(res[i], X + a * ((z - X[2]) / a[2]), 1e-5, "position of point %d" % i)
        close(res[i], epi_mm_2D(targs[i, 0, 0], targs[i, 0, 1], v.cal, s.cpar.mm, vp), 0, "epi_mm_2D")
    try:
        point_positions(targs, s.cpar.mm, [], vp)
    except ValueError:
        pass
    else:
        check(False, "positions without a camera")
    return ["nontrivial"] if n else []


def judge_dumbbell(case):
    from openptv_python.orientation import dumbbell_target_func, weighted_dumbbell_precision

    s = Scene(case["scene"])
    g = rng(case["seed"])
    case = dict(case, npts=2 * case["pairs"], drop=False)
    pts, targs = make_targets(s, case, g)
    L, w = case["length"], case["weight"]
    got = weighted_dumbbell_precision(targs, s.cpar.mm, s.cals, L, w)
    close(dumbbell_target_func(targs, s.cpar, s.cals, L, w), got, 0, "dumbbell_target_func")
    ds, ms = zip(*[expected(s, t) for t in targs])
    err = 0.0
    for i in range(0, len(ms), 2):
        dist = np.linalg.norm(ms[i] - ms[i + 1])
        err += 1 - min(L, dist) / max(L, dist)
    close(got, np.mean(ds) + w * err / case["pairs"], 1e-5 * (1 + w), "dumbbell target function")
    check(got >= 0, "negative target function")
    return ["nontrivial"]


mmst = st.one_of(st.just(AIR), st.just({"n1": 1.0, "n2": [1.49], "d": [5.0], "n3": 1.33}))
rig = st.one_of(scene(2, 4), scene(2, 4), scene(2, 4, mm=mmst))
SUBS = [
    Sub(
        "midpoint",
        st.fixed_dictionaries(
            {k: st.lists(fl(-100, 100), min_size=3, max_size=3) for k in "pq"}
            | {k: st.lists(fl(-2, 2), min_size=3, max_size=3) for k in "ab"}
            | {"t": fl(-5, 5)}
        ),
        judge_midpoint,
        quick=3000,
        thorough=50000,
    ),
    Sub(
        "positions",
        st.fixed_dictionaries(
            {
                "scene": rig,
                "npts": st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(0, 5), st.just(40)),
                "drop": st.booleans(),
                "noise": st.sampled_from([0.0, 0.0, 0.01, 0.1]),
                "seed": seeds(),
            }
        ),
        judge_positions,
        quick=1600,
        thorough=30000,
    ),
    Sub(
        "single",
        st.fixed_dictionaries({"scene": scene(1, 1), "npts": st.integers(0, 4), "seed": seeds()}),
        judge_single,
        quick=600,
        thorough=10000,
    ),
    Sub(
        "dumbbell",
        st.fixed_dictionaries(
            {
                "scene": rig,
                "pairs": st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3), st.just(17)),
                "noise": st.sampled_from([0.0, 0.01, 0.1]),
                "length": fl(1, 40),
                "weight": fl(0, 10),
                "seed": seeds(),
            }
        ),
        judge_dumbbell,
        quick=600,
        thorough=10000,
    ),
]
