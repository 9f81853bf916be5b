"""C07 - epipolar lines."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Reject, Sub, check, close
from vp.gen import AIR, Scene, fl, scene, seeds, rng

PROPERTY = "C07"
RULE = (
    "Generated pairs of cameras in front of one glass plane, volumes with horizontal or sloping limits, image points "
    "given directly or as images of a space point; non-trivial: an epipolar segment of more than 0.1 mm."
)
ASSUMPTIONS = ["Projections in the library stop iterating at 0.001 mm; tolerances follow from that."]


def vpar(c):
    from openptv_python.parameters import VolumePar

    return VolumePar(
        x_lay=list(c["x_lay"]), z_min_lay=list(c["zmin"]), z_max_lay=list(c["zmax"]), cn=0.1, cnx=0.1, cny=0.1, csumg=0.1, eps0=0.1, corrmin=10.0
    )


def at_z(X, a, z):
    return X + a * ((z - X[2]) / a[2])


def lerp(x, xs, zs):
    return zs[0] + (x - xs[0]) * (zs[1] - zs[0]) / (xs[1] - xs[0])


def image(v, p):
    """Reference image and tolerance, for points in the water."""
    tol = v.slack(p)
    if tol is None or v.to_local(p)[2] > v.water_top + 1e-9:
        raise Reject
    return np.array(v.image(p)), tol + 1e-7 * v.cc


def judge_mm(case):
    from openptv_python.epi import epi_mm, epi_mm_2D
    from openptv_python.imgcoord import flat_image_coord

    s = Scene(case["scene"])
    v1, v2 = s.views[:2]
    vp = vpar(case["vol"])
    keep = vpar(case["vol"])
    mm = s.cpar.mm
    x, y = case["pt"]
    t = v1.trace(x, y)
    if t is None:
        raise Reject
    X, a = t
    z0, z1 = lerp(X[0], vp.x_lay, vp.z_min_lay), lerp(X[0], vp.x_lay, vp.z_max_lay)
    (e0, t0), (e1, t1) = image(v2, at_z(X, a, z0)), image(v2, at_z(X, a, z1))
    got = epi_mm(x, y, v1.cal, v2.cal, mm, vp)
    close(got[:2], e0, t0 + 1e-6, "end of the epipolar line at the lower limit")
    close(got[2:], e1, t1 + 1e-6, "end of the epipolar line at the upper limit")
    p = epi_mm_2D(x, y, v1.cal, mm, vp)
    close(p, at_z(X, a, 0.5 * (z0 + z1)), 1e-6, "point in the middle of the volume")
    mid, tm = image(v1, np.asarray(p))
    close(flat_image_coord(np.asarray(p), v1.cal, mm), (x, y), tm + 1e-6, "image of that point in its own camera")
    check(vp == keep, "the volume was changed")
    # the image of every point of the ray is near the line; on it without refraction
    seg = e1 - e0
    length = np.linalg.norm(seg)
    f = case["f"]
    q = at_z(X, a, (1 - f) * z0 + f * z1)
    u = np.array(flat_image_coord(q, v2.cal, mm))
    if length > 1e-3:
        d = abs(seg[0] * (u - e0)[1] - seg[1] * (u - e0)[0]) / length
        along = ((u - e0) @ seg) / length**2
        plain = len({v1.mm["n1"], v1.mm["n2"][0], v1.mm["n3"]}) == 1
        check(d <= (1e-6 + t0 + t1 if plain else 0.05 * length + t0 + t1), "image of a point of the ray is %.3g mm off the epipolar line", d)
        check(-1e-3 < along < 1.001, "image of a point of the ray beyond the end of the line (%.3f)", along)
    return ["nontrivial"] if length > 0.1 else []


def judge_curve(case):
    from openptv_python.epi import epipolar_curve
    from openptv_python.trafo import metric_to_pixel, pixel_to_metric

    s = Scene(case["scene"])
    v1, v2 = s.views[:2]
    vp = vpar(case["vol"])
    cp = s.cpar
    # a space point and its images
    p = s.local(case["p"])
    x, y = v1.image(p)
    px = s.pixel(0, p)
    n = case["num"]
    t = v1.trace(x, y)
    if t is None:
        raise Reject
    X, a = t
    zs = [vp.z_min_lay[0] + (vp.z_max_lay[0] - vp.z_min_lay[0]) * i / (n - 1) for i in range(n)]
    exp, tols = [], []
    for z in zs:
        _, tol = image(v2, at_z(X, a, z))
        exp.append(s.pixel(1, at_z(X, a, z)))
        tols.append(tol)
    got = epipolar_curve(np.array(px), v1.cal, v2.cal, n, cp, vp)
    check(got.shape == (n, 2), "shape %s", got.shape)
    # correcting the distorted pixel is approximate; that moves the whole curve
    from openptv_python.trafo import dist_to_flat

    mx, my = pixel_to_metric(px[0], px[1], cp)
    fx, fy = dist_to_flat(mx, my, v1.cal)
    shift = np.hypot(fx - x, fy - y)
    check(shift < 0.02, "correcting the image point moved it by %.3g mm", shift)
    tol = (np.array(tols)[:, None] + 4 * shift) / np.array([cp.pix_x, cp.pix_y]) + 1e-4
    close(got, np.array(exp), tol, "epipolar curve")
    # the curve passes through the image of the point, and through the point's own pixel in its own camera
    span = np.linalg.norm(got[-1] - got[0])
    if vp.z_min_lay[0] <= p[2] <= vp.z_max_lay[0]:
        u = np.array(s.pixel(1, p))
        best = 1e9
        for i in range(n - 1):
            b, d = got[i], got[i + 1] - got[i]
            L = d @ d
            w = 0 if L == 0 else min(1.0, max(0.0, ((u - b) @ d) / L))
            best = min(best, np.linalg.norm(b + w * d - u))
        check(best <= tol.max() * 2 + 0.05 * span / (n - 1), "the image of the point is %.3g px off the curve", best)
    own = epipolar_curve(np.array(px), v1.cal, v1.cal, n, cp, vp)
    _, to = image(v1, at_z(X, a, zs[0]))
    _, tn = image(v1, at_z(X, a, zs[-1]))
    # distorting again is the approximate inverse of correcting
    close(own, np.tile(px, (n, 1)), (max(to, tn) + 2 * shift + 1e-6) / min(cp.pix_x, cp.pix_y) + 1e-4, "curve in the point's own camera")
    return ["nontrivial"] if span > 10 else []


vol = st.fixed_dictionaries(
    {
        "x_lay": st.tuples(fl(-80, -10), fl(10, 80)).map(list),
        "zmin": st.tuples(fl(-60, -40), fl(-60, -40)).map(list),
        "zmax": st.tuples(fl(-35, 0), fl(-35, 0)).map(list),
    }
)
mmst = st.one_of(st.just(AIR), st.just({"n1": 1.0, "n2": [1.49], "d": [5.0], "n3": 1.33}))
pt = st.tuples(fl(-5, 5), fl(-4, 4)).map(list)
SUBS = [
    Sub(
        "epi_mm",
        st.fixed_dictionaries({"scene": st.one_of(scene(2, 2), scene(2, 2, mm=mmst)), "vol": vol, "pt": pt, "f": fl(0, 1)}),
        judge_mm,
        quick=2000,
        thorough=40000,
    ),
    Sub(
        "curve",
        st.fixed_dictionaries(
            {
                "scene": st.one_of(scene(2, 2), scene(2, 2, mm=mmst)),
                "vol": vol,
                "p": st.tuples(fl(-15, 15), fl(-15, 15), fl(-10, 10)).map(list),
                "num": st.integers(2, 12),
            }
        ),
        judge_curve,
        quick=1200,
        thorough=30000,
    ),
]
