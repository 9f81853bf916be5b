"""C02 - lens distortion: Brown's formula and its inverse."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check, close
from vp.gen import IDENT_AP, added_pars, fl, make_cal

PROPERTY = "C02"
RULE = (
    "Generated added parameters (each zero or not, up to about 5% displacement at the sensor corner), "
    "principal points and image points on a sensor of 8 mm half diagonal; non-trivial: a distortion of more "
    "than 0.1 micrometre at the point, off both axes."
)
ASSUMPTIONS = [
    "The library evaluates y with the already displaced x in the p1 term, as the C library does; the tolerance "
    "allows that second-order difference and nothing more when p1 = 0.",
    "The inverse is approximate to second order in the distortion when shear or p1 are in play (as in the C library).",
]


def brown(x, y, ap):
    k1, k2, k3, p1, p2, scx, she = ap
    r2 = x * x + y * y
    rad = k1 * r2 + k2 * r2**2 + k3 * r2**3
    dx = x * rad + p1 * (r2 + 2 * x * x) + 2 * p2 * x * y
    dy = y * rad + p2 * (r2 + 2 * y * y) + 2 * p1 * x * y
    return (
        scx * (x + dx) - math.sin(she) * (y + dy),
        math.cos(she) * (y + dy),
        dx,
        dy,
    )


def gradient(x, y, ap):
    """Largest relative slope of the displacement at the point."""
    k1, k2, k3, p1, p2, _, _ = (abs(a) for a in ap)
    r = math.hypot(x, y)
    return 3 * k1 * r**2 + 5 * k2 * r**4 + 7 * k3 * r**6 + 8 * (p1 + p2) * r


def parts(case):
    cal = make_cal({"pos": [0, 0, 300], "ang": [0, 0, 0], "pp": case["pp"], "ap": case["ap"]})
    xh, yh = case["pp"][:2]
    return cal, xh, yh


def judge_forward(case):
    from openptv_python.trafo import distort_brown_affine, flat_to_dist

    cal, xh, yh = parts(case)
    ap = case["ap"]
    fx, fy = case["pt"]
    gx, gy = flat_to_dist(fx, fy, cal)
    x, y = fx + xh, fy + yh
    ex, ey, dx, dy = brown(x, y, ap)
    second = 2 * abs(ap[3]) * abs(y) * abs(dx)
    tol = 1e-11
    close(gx, ex, tol + second * abs(math.sin(ap[6])) * 1.01, "distorted x")
    close(gy, ey, tol + second * 1.01, "distorted y")
    gx2, gy2 = distort_brown_affine(x, y, cal.added_par)
    close((gx2, gy2), (gx, gy), 1e-13, "flat_to_dist against distort_brown_affine")
    check(list(cal.added_par) == ap and cal.int_par.xh == xh, "the calibration changed")
    d = math.hypot(ex - x, ey - y)
    return ["nontrivial"] if d > 1e-4 and x != 0 and y != 0 else []


def bound(x, y, ap, tol):
    """How far off the library's inverse may be, by its own definition."""
    _, _, dx, dy = brown(x, y, ap)
    g = gradient(x, y, ap)
    r = math.hypot(x, y)
    shift = 1.1 * (abs(ap[5] - 1) * abs(x) + abs(ap[6]) * abs(y)) + abs(dx) + abs(dy)
    dx, dy = abs(dx) + g * shift, abs(dy) + g * shift
    second = 2.2 * abs(ap[3]) * (abs(y) + dy) * dx + 1.1 * abs(math.sin(ap[6])) * dy / ap[5]
    # the last step of the iteration moves at most tol*r, or by the contraction of that;
    # a residual error is multiplied by g + the affine part
    return 1.5 * second * (1 + g) + 4 * tol * r * (g + 2 * abs(ap[6]) + 1e-9) + 1e-9


def judge_inverse(case):
    from openptv_python.trafo import dist_to_flat, flat_to_dist

    cal, xh, yh = parts(case)
    ap = case["ap"]
    fx, fy = case["pt"]
    tol = case["tol"]
    if tol is None:
        args, t = (), 1e-5
    else:
        args, t = (tol,), tol
    qx, qy = flat_to_dist(fx, fy, cal)
    bx, by = dist_to_flat(qx, qy, cal, *args)
    x, y = fx + xh, fy + yh
    b = bound(x, y, ap, t)
    close((bx, by), (fx, fy), b, "flat point after distorting and correcting")
    # the other order: the point is taken as a measured one
    cx, cy = dist_to_flat(fx, fy, cal, *args)
    rx, ry = flat_to_dist(cx, cy, cal)
    close((rx, ry), (fx, fy), 1.5 * bound(fx, fy, ap, t), "measured point after correcting and distorting")
    check(list(cal.added_par) == ap, "the calibration changed")
    _, _, dx, dy = brown(x, y, ap)
    moved = math.hypot(dx, dy)
    labels = []
    if moved > 1e-4 and x and y:
        labels.append("nontrivial")
        if b < 0.02 * moved:
            labels.append("tight")
    return labels


def judge_none(case):
    from openptv_python.trafo import (
        correct_brown_affine,
        dist_to_flat,
        distort_brown_affine,
        flat_to_dist,
    )

    cal = make_cal({"pos": [0, 0, 300], "ang": [0, 0, 0], "pp": case["pp"]})
    ap = np.array(IDENT_AP)
    x, y = case["pt"]
    xh, yh = case["pp"][:2]
    close(flat_to_dist(x, y, cal), (x + xh, y + yh), 1e-14 * 30, "undistorted lens, flat_to_dist")
    close(dist_to_flat(x, y, cal), (x - xh, y - yh), 1e-14 * 30, "undistorted lens, dist_to_flat")
    close(distort_brown_affine(x, y, ap), (x, y), 1e-14 * 30, "no distortion")
    close(correct_brown_affine(x, y, ap), (x, y), 1e-14 * 30, "no distortion to correct")
    # the sensor centre does not move, whatever the lens
    full = np.array(case["ap"])
    check(tuple(distort_brown_affine(0.0, 0.0, full)) == (0, 0), "the centre is moved by distortion")
    check(tuple(correct_brown_affine(0.0, 0.0, full)) == (0, 0), "the centre is moved by correction")
    return ["nontrivial"] if xh and yh and x and y else []


pt = st.tuples(fl(-6.5, 6.5), fl(-5.0, 5.0)).map(list)
pp = st.tuples(st.one_of(st.just(0.0), fl(-0.3, 0.3)), st.one_of(st.just(0.0), fl(-0.3, 0.3)), fl(20, 120)).map(list)
ap = st.one_of(added_pars(1.0), added_pars(2.0), added_pars(1.0, affine=False))
ap_radial = added_pars(1.5).map(lambda a: a[:3] + [0.0] + a[4:6] + [0.0])
SUBS = [
    Sub(
        "forward",
        st.fixed_dictionaries({"pp": pp, "ap": ap, "pt": pt}),
        judge_forward,
        quick=6000,
        thorough=120000,
    ),
    Sub(
        "inverse",
        st.fixed_dictionaries(
            {
                "pp": pp,
                "ap": st.one_of(ap, ap_radial),
                "pt": pt,
                "tol": st.sampled_from([None, 1e-5, 1e-7, 1e-9]),
            }
        ),
        judge_inverse,
        quick=6000,
        thorough=120000,
    ),
    Sub(
        "undistorted",
        st.fixed_dictionaries({"pp": pp, "pt": pt, "ap": ap}),
        judge_none,
        quick=1500,
        thorough=20000,
    ),
]
