"""C09 - epipolar lines and the candidates along them."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Reject, Sub, check, close
from vp.gen import AIR, IDENT_AP, Scene, added_pars, fl, make_cal, make_cpar, rng, scene, seeds

PROPERTY = "C09"
RULE = (
    "candidates: generated x-sorted target tables (0 to 3000 targets, clustered and with equal coordinates), target "
    "sizes, thresholds and line segments in any direction, inside and outside the sensor; non-trivial: at least one "
    "candidate is expected and at least one target in the line's window is rejected. lines: generated rigs with two "
    "cameras; non-trivial: the media refract and the line is longer than 0.01 mm."
)
ASSUMPTIONS = [
    "Decisions closer to a threshold than rounding (1e-9 relative) may go either way.",
    "A line whose bounding box misses the sensor gives no candidate, even where a target at the border lies within "
    "the band width of it.",
]
MAXCAND = 40


# ---------------------------------------------------------------- candidates


def build(case):
    g = rng(case["seed"])
    n = case["n"]
    cp = make_cpar({"num_cams": 1, "imx": case["imx"], "imy": case["imy"], "pix": case["pix"], "mm": AIR})
    cal = make_cal({"pos": [0, 0, 100], "ang": [0, 0, 0], "pp": case["pp"], "ap": case["ap"]})
    w, h = case["imx"] * case["pix"][0] / 2, case["imy"] * case["pix"][1] / 2
    a, b = (np.array(case[k], dtype=float) * case["span"] * (w, h) for k in ("a", "b"))
    if case["shape"] == "vertical":
        b[0] = a[0]
    elif case["shape"] == "horizontal":
        b[1] = a[1]
    elif case["shape"] == "point":
        b = a.copy()
    if case["edge"] >= 0:  # the line just reaches the border of the sensor, or just not
        side = case["edge"]
        c, far = side % 2, np.array([w, h]) * (1 if side < 2 else -1)
        end = (min if side < 2 else max)(a[c], b[c])
        move = far[c] * (1 + case["gap"]) - end
        a[c], b[c] = a[c] + move, b[c] + move
    if np.hypot(*(b - a)) < 1e-3:  # a line is a point or has a direction
        b = a.copy()
    eps = case["eps"] * w
    x, y = g.uniform(-w, w, n), g.uniform(-h, h, n)
    near = g.random(n) < case["near"]
    t, d = g.uniform(-0.1, 1.1, n), g.normal(0, 1, n) * eps
    u = b - a
    nrm = np.array([-u[1], u[0]]) / np.hypot(*u) if np.hypot(*u) > 0 else np.array([0.6, 0.8])
    x = np.where(near, a[0] + t * u[0] + d * nrm[0], x)
    y = np.where(near, a[1] + t * u[1] + d * nrm[1], y)
    if case["ties"]:
        x = np.round(x, 1)
    order = np.argsort(x, kind="stable")
    return g, n, cp, cal, a, b, eps, x[order], y[order]


def judge_cand(case):
    from openptv_python.epi import Coord2d_dtype
    from openptv_python.find_candidate import find_candidate
    from openptv_python.parameters import VolumePar
    from openptv_python.tracking_frame_buf import Target
    from openptv_python.trafo import correct_brown_affine

    g, n, cp, cal, a, b, eps, x, y = build(case)
    pnr = g.permutation(n)
    crd = np.recarray((n,), dtype=Coord2d_dtype)
    crd.pnr, crd.x, crd.y = pnr, x, y
    top = case["size"]
    pix = [
        Target(pnr=i, n=int(q[0]), nx=int(q[1]), ny=int(q[2]), sumg=int(q[3]))
        for i, q in enumerate(g.integers(1, top + 1, (n, 4)))
    ]
    me = [min(v, top) for v in case["me"]]
    cn, cnx, cny, csumg = case["crit"]
    vp = VolumePar(
        x_lay=[-1.0, 1.0], z_min_lay=[0.0, 0.0], z_max_lay=[1.0, 1.0], cn=cn, cnx=cnx, cny=cny, csumg=csumg, eps0=eps, corrmin=0.0
    )
    keep = crd.copy()
    out = find_candidate(crd, pix, n, float(a[0]), float(a[1]), float(b[0]), float(b[1]), *me, vp, cp, cal)
    check((crd == keep).all(), "the coordinate table was changed")

    # brute force
    lim = [0, 0, 0, 0]
    w, h = cp.imx * cp.pix_x / 2, cp.imy * cp.pix_y / 2
    lo = correct_brown_affine(-w - cal.int_par.xh, -h - cal.int_par.yh, cal.added_par)
    hi = correct_brown_affine(w - cal.int_par.xh, h - cal.int_par.yh, cal.added_par)
    mn, mx = np.minimum(a, b), np.maximum(a, b)
    tiny = 1e-9 * (1 + w + h)
    off = [mx[0] - lo[0], hi[0] - mn[0], mx[1] - lo[1], hi[1] - mn[1]]
    if min(abs(v) for v in off) < tiny:
        return ["edge"]
    if min(off) <= 0:
        check(len(out) == 0, "%d candidates of a line that misses the sensor", len(out))
        return ["missed"]

    u = b - a
    L = np.hypot(*u)
    if L > 0 and abs(u[0]) < 1e-7 and abs(u[0]) > 0:
        return ["steep"]
    rel = np.stack([x - a[0], y - a[1]], axis=1)
    dist = np.abs(rel[:, 0] * u[1] - rel[:, 1] * u[0]) / L if L > 0 else np.abs(rel[:, 1])
    slack = [x - (mn[0] - eps), mx[0] + eps - x, y - (mn[1] - eps), mx[1] + eps - y, eps - dist]

    def ratio(p, q):
        return min(p, q) / max(p, q)

    sure, maybe, score = [], [], {}
    inwin = 0
    for j in range(n):
        s = min(v[j] for v in slack)
        if s < -tiny:
            continue
        inwin += 1
        t = pix[pnr[j]]
        qn, qx, qy, qs = ratio(me[0], t.n), ratio(me[1], t.nx), ratio(me[2], t.ny), ratio(me[3], t.sumg)
        if qn < cn or qx < cnx or qy < cny or qs <= csumg:
            continue
        score[j] = (4 * qs + 2 * qn + qx + qy) * (me[3] + t.sumg)
        maybe.append(j)
        if s > tiny:
            sure.append(j)
    got = [int(c.pnr) for c in out]
    check(len(set(got)) == len(got), "a candidate appears twice")
    check(len(got) <= MAXCAND, "%d candidates", len(got))
    for j in got:
        check(j in score, "candidate %d at (%r, %r) does not satisfy the criteria", j, x[j], y[j])
    if len(got) < MAXCAND:
        miss = [j for j in sure if j not in got]
        check(not miss, "target %s at x=%r of %d targets was not found", miss[:1], x[miss[0]] if miss else None, n)
    else:
        full = [j for j in sure if j < max(got) and j not in got]
        check(not full, "target %s was passed over", full[:1])
    check(got == sorted(got), "candidates are not in the order of x")
    for c in out:
        j = int(c.pnr)
        close(c.tol, dist[j], 1e-8 * (1 + w + h), "distance from the line")
        close(c.corr, score[j], 1e-9 * score[j], "correlation")
    labels = ["full"] if len(got) == MAXCAND else []
    if sure and inwin > len(maybe):
        labels.append("nontrivial")
    return labels


cand_case = st.fixed_dictionaries(
    {
        "seed": seeds(),
        "n": st.one_of(st.integers(0, 40), st.integers(0, 400), st.integers(400, 3000)),
        "imx": st.integers(64, 2000),
        "imy": st.integers(64, 2000),
        "pix": st.tuples(fl(0.005, 0.02), fl(0.005, 0.02)).map(list),
        "pp": st.tuples(fl(-0.5, 0.5), fl(-0.5, 0.5), st.just(70.0)).map(list),
        "ap": st.one_of(st.just(IDENT_AP), added_pars(0.3)),
        "a": st.tuples(fl(-1, 1), fl(-1, 1)).map(list),
        "b": st.tuples(fl(-1, 1), fl(-1, 1)).map(list),
        "span": st.sampled_from([1.0, 1.0, 0.3, 1.6, 3.0]),
        "shape": st.sampled_from(["any", "any", "any", "vertical", "horizontal", "point"]),
        "edge": st.one_of(st.just(-1), st.just(-1), st.integers(0, 3)),
        "gap": fl(-0.04, 0.04),
        "eps": st.one_of(fl(1e-4, 0.02), fl(0.01, 0.3)),
        "near": st.sampled_from([0.0, 0.2, 0.6, 1.0]),
        "ties": st.booleans(),
        "size": st.sampled_from([2, 5, 30, 5000]),
        "me": st.lists(st.integers(1, 5000), min_size=4, max_size=4),
        "crit": st.lists(st.one_of(st.just(0.0), st.sampled_from([0.2, 0.25, 0.5]), fl(0.0, 0.6)), min_size=4, max_size=4),
    }
)


def judge_ratio(case):
    from openptv_python.find_candidate import quality_ratio

    a, b = case["a"], case["b"]
    r = quality_ratio(a, b)
    check(r == quality_ratio(b, a), "quality_ratio is not symmetric")
    check(r == (0.0 if a == b == 0 else min(a, b) / max(a, b)), "quality_ratio(%r, %r) = %r", a, b, r)
    return ["nontrivial"] if a != b and min(a, b) > 0 else []


# ---------------------------------------------------------------- lines


def zlim(vp, x):
    f = (x - vp.x_lay[0]) / (vp.x_lay[1] - vp.x_lay[0])
    return (
        vp.z_min_lay[0] * (1 - f) + vp.z_min_lay[1] * f,
        vp.z_max_lay[0] * (1 - f) + vp.z_max_lay[1] * f,
    )


def judge_line(case):
    from openptv_python.epi import epi_mm, epi_mm_2D, epipolar_curve
    from openptv_python.parameters import VolumePar
    from openptv_python.trafo import dist_to_flat, flat_to_dist, metric_to_pixel, pixel_to_metric

    s = Scene(case["scene"])
    g = rng(case["seed"])
    c1, c2 = s.views[0], s.views[1]
    p = s.local(g.uniform(-8, 8, 3))
    z0, dz = p[2] - case["below"], case["below"] + case["above"]
    tl = case["tilt"]
    xl = sorted(case["x_lay"])
    if xl[1] - xl[0] < 10:
        raise Reject
    vp = VolumePar(x_lay=xl, z_min_lay=[z0 - tl[0], z0 + tl[1]], z_max_lay=[z0 + dz + tl[2], z0 + dz - tl[3]])
    mm = s.cpar.mm
    x, y = c1.image(p)
    ray = c1.trace(x, y)
    close(np.linalg.norm(np.cross(p - ray[0], ray[1])), 0, 1e-6, "the two reference models")

    def at(z):
        return ray[0] + (z - ray[0][2]) / ray[1][2] * ray[1]

    # the library starts the ray on the water side of the glass; its x selects the limits of depth
    zmin, zmax = zlim(vp, ray[0][0])
    keep = copy.deepcopy(vp), copy.deepcopy(mm)
    ends = epi_mm(x, y, s.cals[0], s.cals[1], mm, vp)
    check((vp, mm) == keep, "the parameters were changed")
    refs, tols = [], []
    for z in (zmin, zmax):
        q = at(z)
        if c2.to_local(q)[2] > c2.water_top - 0.5:
            raise Reject  # the volume reaches into the glass
        t = c2.slack(q)
        if t is None:
            raise Reject
        refs.append(c2.image(q))
        tols.append(t + 1e-7)
    close(ends[:2], refs[0], tols[0], "end of the epipolar line at the smallest z")
    close(ends[2:], refs[1], tols[1], "end of the epipolar line at the largest z")
    mid = epi_mm_2D(x, y, s.cals[0], mm, vp)
    close(mid, at(0.5 * (zmin + zmax)), 1e-7 * (1 + np.abs(p).max()), "point in the middle of the volume")

    # pixel curve; the point itself is on it when its z is one of the samples
    k = case["k"]
    px = s.pixel(0, p)
    zs = np.linspace(vp.z_min_lay[0], vp.z_max_lay[0], k)
    if c2.to_local(at(zs[-1]))[2] > c2.water_top - 0.5 or c2.to_local(at(zs[0]))[2] > c2.water_top - 0.5:
        raise Reject
    keep = copy.deepcopy((vp, s.cpar.imx, s.cpar.imy, mm))
    curve = epipolar_curve(px, s.cals[0], s.cals[1], k, s.cpar, vp)
    check((vp, s.cpar.imx, s.cpar.imy, mm) == keep, "the parameters were changed")
    check(curve.shape == (k, 2), "shape of the curve is %s", curve.shape)
    # correction of the image point is only as good as its tolerance
    xx, yy = dist_to_flat(*pixel_to_metric(*px, s.cpar), s.cals[0], 1e-5)
    near = c1.trace(xx, yy)
    pitch = min(s.cpar.pix_x, s.cpar.pix_y)
    for i, z in enumerate(zs):
        q = near[0] + (z - near[0][2]) / near[1][2] * near[1]
        t = c2.slack(q)
        if t is None:
            raise Reject
        close(curve[i], s.pixel(1, q), (1.2 * t + 1e-7) / pitch, "point %d of the epipolar curve" % i)
    L = math.hypot(refs[0][0] - refs[1][0], refs[0][1] - refs[1][1])
    refr = abs(mm.n3 - mm.n1) > 0.02
    return ["nontrivial"] if refr and L > 0.01 else []


line_case = st.fixed_dictionaries(
    {
        "scene": scene(2, 2),
        "seed": seeds(),
        "below": fl(2, 15),
        "above": fl(2, 15),
        "tilt": st.lists(fl(0, 4), min_size=4, max_size=4),
        "x_lay": st.lists(fl(-60, 60), min_size=2, max_size=2),
        "k": st.integers(2, 12),
    }
)

SUBS = [
    Sub("candidates", cand_case, judge_cand, 1500),
    Sub("ratio", st.fixed_dictionaries({"a": st.one_of(st.integers(0, 9).map(float), fl(0, 1e6)), "b": st.one_of(st.integers(0, 9).map(float), fl(0, 1e6))}), judge_ratio, 500),
    Sub("lines", line_case, judge_line, 1000),
]
