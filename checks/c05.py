"""C05 - projection of space points through refracting layers."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Reject, Sub, check, close
from vp.gen import IDENT_AP, View, fl, make_cal, make_mm, media, rng, rot, seeds, view

PROPERTY = "C05"
RULE = (
    "Generated cameras in front of one to three plane layers of any orientation, thickness and index, space points in "
    "and outside the field of view; non-trivial: at least one interface refracts, the point is more than 1 mm off the "
    "glass normal through the camera, and the tolerance is below a tenth of the refraction's effect (snell) or the "
    "glass is oblique (others)."
)
ASSUMPTIONS = [
    "The library stops its iteration when a step is below 0.001 mm; the tolerance is the resulting bound, computed "
    "per case from the contraction of the iteration. Cases that converge slowly (grazing) are counted apart.",
    "With several layers the first one is on the camera side of the plane the glass vector points to and the others "
    "behind it, as in the C library.",
]


def pinhole(v, p):
    d = np.asarray(p) - v.pos
    den = v.R[:, 2] @ d
    return -v.cc * (v.R[:, 0] @ d) / den, -v.cc * (v.R[:, 1] @ d) / den


def point(v, case):
    """A point in the last medium, near where the drawn image point looks."""
    t = v.trace(*case["pt"])
    if t is None:
        raise Reject
    return t[0] + case["s"] * t[1]


def judge_snell(case):
    from openptv_python.imgcoord import flat_image_coord, img_coord
    from openptv_python.trafo import flat_to_dist

    v = View(case["view"])
    p = point(v, case)
    ref = v.image(p)
    close(ref, case["pt"], 1e-6 * (1 + v.cc), "the two reference models")
    keep = p.copy()
    u = flat_image_coord(p, v.cal, v.mmpar)
    check((p == keep).all(), "the point was changed")
    tol = v.slack(p)
    if tol is None:
        return ["grazing"]
    close(u, ref, tol, "flat image point against Snell's law")
    w = img_coord(p, v.cal, v.mmpar)
    close(w, flat_to_dist(u[0], u[1], v.cal), 1e-12, "distorted image point")
    tb, r, _, _ = v.solve(p)
    effect = math.hypot(*(np.array(ref) - pinhole(v, p)))
    labels = ["layers%d" % len(v.mm["n2"])]
    if r > 1 and tol < 0.1 * effect:
        labels.append("nontrivial")
    return labels


def judge_pinhole(case):
    from openptv_python.imgcoord import flat_image_coord

    v = View(case["view"])
    n = case["n"]
    k = len(v.mm["n2"])
    v.mm.update(n1=n, n2=[n] * k, n3=n)
    v.mmpar = make_mm(v.mm)
    p = v.pos + case["t"] * (v.R @ np.array([case["pt"][0], case["pt"][1], -v.cc]))
    u = flat_image_coord(p, v.cal, v.mmpar)
    close(u, case["pt"], 2e-9 * (1 + v.cc) + 1e-9 * v.cc / case["t"], "image of a point when all indices are %g" % n)
    return ["nontrivial"] if any(v.c["q"]) else []


def judge_arrays(case):
    from openptv_python.imgcoord import (
        flat_image_coord,
        flat_image_coordinates,
        image_coordinates,
        img_coord,
    )

    v = View(case["view"])
    g = rng(case["seed"])
    n = case["n"]
    loc = np.column_stack(
        [
            v.c["off"][0] + g.uniform(-80, 80, n),
            v.c["off"][1] + g.uniform(-80, 80, n),
            v.water_top - g.uniform(0.0, 150, n),
        ]
    )
    pts = loc @ v.Q.T
    keep = pts.copy()
    flat = flat_image_coordinates(pts, v.cal, v.mmpar)
    dist = image_coordinates(pts, v.cal, v.mmpar)
    check((pts == keep).all(), "the points were changed")
    check(flat.shape == (n, 2) and dist.shape == (n, 2), "shapes %s %s", flat.shape, dist.shape)
    for i in range(n):
        close(flat[i], flat_image_coord(pts[i], v.cal, v.mmpar), 1e-12, "row %d of flat_image_coordinates" % i)
        close(dist[i], img_coord(pts[i], v.cal, v.mmpar), 1e-9, "row %d of image_coordinates" % i)
    for bad in (np.zeros(2), np.zeros(4)):
        for f in (flat_image_coord, img_coord):
            try:
                f(bad, v.cal, v.mmpar)
            except ValueError:
                continue
            check(False, "%s accepted a vector of shape %s", f.__name__, bad.shape)
    return ["nontrivial"] if n > 1 and any(v.c["q"]) else []


def judge_frames(case):
    """The change to the glass frame and back."""
    from openptv_python.multimed import back_trans_point, move_along_ray, trans_cam_point

    v = View(case["view"])
    p = v.to_global(
        np.array(case["loc"]) + np.array([v.c["off"][0], v.c["off"][1], v.G])
    )
    loc = v.to_local(p)
    glass = v.cal.glass_par.copy()
    pos_t, cross_p, cross_c, z0 = trans_cam_point(v.cal.ext_par, v.mmpar, v.cal.glass_par, p)
    s = 1e-12 * (1000 + np.abs(p).max() + np.abs(v.pos).max())
    close(pos_t[2], loc[2] - v.G, 100 * s, "height above the water side of the glass")
    close(z0, v.cam_local[2] - v.G, 100 * s, "height of the camera")
    close(pos_t[0], np.hypot(*(loc[:2] - v.cam_local[:2])), 1000 * s, "distance from the camera's normal")
    check(pos_t[1] == 0, "the rotated point is off the plane of incidence")
    close(v.to_local(cross_p), [loc[0], loc[1], v.G], 100 * s, "foot of the point")
    close(v.to_local(cross_c), [v.cam_local[0], v.cam_local[1], v.G + v.mm["d"][0]], 100 * s, "foot of the camera")
    back = back_trans_point(pos_t, v.mmpar, v.cal.glass_par, cross_p, cross_c)
    close(back, p, 1000 * s, "point after going to the glass frame and back")
    # moving radially in the glass frame moves along the line of feet
    moved = back_trans_point(
        np.array([pos_t[0] * case["f"], 0.0, pos_t[2]]), v.mmpar, v.cal.glass_par, cross_p, cross_c
    )
    exp = v.cam_local.copy()
    exp[:2] += (loc[:2] - exp[:2]) * case["f"]
    exp[2] = loc[2]
    if pos_t[0] > 1e-6:
        close(v.to_local(moved), exp, 1e4 * s, "radially moved point")
    check((v.cal.glass_par == glass).all(), "the glass vector changed")
    a = p - v.pos
    a = a / np.linalg.norm(a)
    if abs(a[2]) > 1e-3:
        q = move_along_ray(case["z"], v.pos, a)
        close(q[2], case["z"], 1e-9, "height after move_along_ray")
        close(np.cross(q - v.pos, a), 0 * a, 1e-9 * (1 + np.linalg.norm(q - v.pos)), "distance from the ray")
    return ["nontrivial"] if any(v.c["q"]) else []


def judge_radial(case):
    """The radial shift itself, for a camera that looks down its own z axis."""
    from openptv_python.multimed import multimed_nlay, multimed_r_nlay

    v = View(
        {
            "q": [0, 0, 0],
            "G": 1.0,
            "h": case["h"],
            "lat": [0, 0],
            "off": case["off"],
            "depth": 0.0,
            "roll": 0.0,
            "pp": [0, 0, 50.0],
            "ap": IDENT_AP,
            "mm": case["mm"],
        }
    )
    mm = make_mm(case["mm"])
    # in this frame heights count from the water side of the first layer
    z0 = case["h"] + case["mm"]["d"][0]
    cal = make_cal({"pos": [case["off"][0], case["off"][1], z0], "ang": [0, 0, 0], "pp": [0, 0, 50.0], "ap": IDENT_AP})
    Z = v.water_top - v.G - case["depth"]
    r, th = case["r"], case["th"]
    p = np.array([case["off"][0] + r * math.cos(th), case["off"][1] + r * math.sin(th), Z])
    glob = p + np.array([0, 0, v.G])
    tol = v.slack(glob)
    if tol is None:
        return ["grazing"]
    f = multimed_r_nlay(cal, mm, p)
    xq, yq = multimed_nlay(cal, mm, p)
    close((xq, yq), (case["off"][0] + (p[0] - case["off"][0]) * f, case["off"][1] + (p[1] - case["off"][1]) * f), 1e-9, "apparent position")
    tb, rr, _, _ = v.solve(glob)
    zd = z0 - Z
    if rr > 1e-3:
        # the image plane is perpendicular to the normal: tolerance of the radius
        close(f * rr, zd * tb, (tol / 50.0) * zd + 1e-9 * zd, "apparent radius")
    if {case["mm"]["n1"], case["mm"]["n3"], *case["mm"]["n2"]} == {1.0}:
        close(f, 1.0, 1e-4 if len(case["mm"]["n2"]) > 1 else 0, "radial shift without refraction")
    # the same for every direction
    th2 = th + 1.234
    p2 = np.array([case["off"][0] + r * math.cos(th2), case["off"][1] + r * math.sin(th2), Z])
    close(multimed_r_nlay(cal, mm, p2), f, 1e-9 + 0.001 / max(r, 1e-2), "radial shift in another direction")
    return ["nontrivial"] if abs(f - 1) > 1e-3 and rr > 1 else []


pt = st.tuples(fl(-5, 5), fl(-4, 4)).map(list)
SUBS = [
    Sub(
        "snell",
        st.fixed_dictionaries({"view": view(layers=3), "pt": pt, "s": fl(0, 250)}),
        judge_snell,
        quick=3000,
        thorough=60000,
    ),
    Sub(
        "pinhole",
        st.fixed_dictionaries(
            {
                "view": view(layers=3),
                "n": st.one_of(st.just(1.0), st.just(1.33), fl(1.0, 1.8)),
                "pt": pt,
                "t": fl(0.5, 20),
            }
        ),
        judge_pinhole,
        quick=2000,
        thorough=30000,
    ),
    Sub(
        "arrays",
        st.fixed_dictionaries({"view": view(layers=2), "n": st.integers(0, 6), "seed": seeds()}),
        judge_arrays,
        quick=800,
        thorough=15000,
    ),
    Sub(
        "frames",
        st.fixed_dictionaries(
            {
                "view": view(),
                "loc": st.tuples(fl(-200, 200), fl(-200, 200), fl(-300, 50)).map(list),
                "f": fl(0.5, 1.5),
                "z": fl(-300, 300),
            }
        ),
        judge_frames,
        quick=3000,
        thorough=50000,
    ),
    Sub(
        "radial",
        st.fixed_dictionaries(
            {
                "h": fl(40, 800),
                "off": st.tuples(fl(-100, 100), fl(-100, 100)).map(list),
                "depth": fl(0, 300),
                "r": fl(0, 150),
                "th": fl(-3, 3),
                "mm": media(3),
            }
        ),
        judge_radial,
        quick=3000,
        thorough=50000,
    ),
]
