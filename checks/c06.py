"""C06 - the multimedia lookup table."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check, close
from vp.gen import IDENT_AP, View, added_pars, fl, make_cpar, media, rng, seeds

PROPERTY = "C06"
RULE = (
    "Generated cameras (glass tilted up to about 9 degrees against the volume's z axis), media and volumes with "
    "positive, negative, integer and fractional limits; the table is filled and read at its nodes, at points seen "
    "inside the volume and at points outside it; non-trivial: the media refract and at least eight points inside the "
    "volume were read from the table (not computed afresh); read: tables of any values, read at twelve points, at least "
    "three of them inside."
)
ASSUMPTIONS = [
    "On the camera's glass normal itself (the first cell, r < rw) the ratio of radii is set to 1 by convention, as the "
    "repository's tests require; the table is compared from the second cell on.",
]
INTERP = 0.004  # mm: bilinear interpolation over 2 mm cells plus the stopping rule at both ends


def scene(c):
    v = View(c["view"])
    cp = make_cpar({"num_cams": 1, "imx": c["imx"], "imy": c["imy"], "pix": c["pix"], "mm": c["view"]["mm"]})
    from openptv_python.parameters import VolumePar

    z0, z1 = c["z"]
    vp = VolumePar(
        x_lay=[-50.0, 50.0],
        z_min_lay=[z0, z0 + c["dz"][0]],
        z_max_lay=[z0 + z1 + c["dz"][0] + c["dz"][1], z0 + z1 + c["dz"][0]],
    )
    return v, cp, vp


def judge(case):
    from openptv_python.calibration import Calibration
    from openptv_python.imgcoord import flat_image_coord
    from openptv_python.multimed import (
        get_mmf_from_mmlut,
        init_mmlut,
        move_along_ray,
        multimed_r_nlay,
        trans_cam_point,
    )

    v, cp, vp = scene(case)
    g = rng(case["seed"])
    cal = v.cal
    if case["again"]:  # a table of another volume is replaced
        vp2 = copy.deepcopy(vp)
        vp2.z_min_lay = [z + 6 for z in vp.z_min_lay]
        vp2.z_max_lay = [z + 9 for z in vp.z_max_lay]
        init_mmlut(vp2, cp, cal)
    vpk, cpk = copy.deepcopy(vp), copy.deepcopy(cp)
    out = init_mmlut(vp, cp, cal)
    check(vp == vpk and cp == cpk, "the parameters were changed")
    check(out is not None and out.mmlut_data.shape == (int(out.mmlut.nr), int(out.mmlut.nz)), "table of shape %s", out.mmlut_data.shape)
    cal = out
    for f, w in (("get_pos", v.pos), ("get_angles", v.ang), ("get_glass_vec", v.cal_case["glass"])):
        close(getattr(cal, f)(), w, 0, "calibration after the table was filled: " + f)
    data, rw = cal.mmlut_data, float(cal.mmlut.rw)
    check(np.isfinite(data).all() and (data > 0).all(), "table holds %s", data[~(data > 0)][:1])
    origin = np.array(cal.mmlut.origin)
    nr, nz = data.shape
    plain = Calibration()
    z_cam = v.cam_local[2] - v.G
    plain.set_pos(np.array([0.0, 0.0, z_cam]))

    def exact(R, Z):
        """Apparent radius over radius at (R, Z) of the glass frame, and the tolerance in mm."""
        p = v.to_global([v.cam_local[0] + R, v.cam_local[1], Z + v.G])
        tol = v.slack(p)
        if tol is None or Z + v.G > v.water_top:
            return None
        tb, r, _, _ = v.solve(p)
        zd = z_cam - Z
        d = v.Q @ np.array([0, 0, 1.0])
        cosax = abs(v.R[:, 2] @ d)
        return zd * tb / R, tol / v.cc * zd * 2.0

    # nodes hold what the direct computation gives
    for _ in range(12):
        i, j = int(g.integers(nr)), int(g.integers(nz))
        R, Z = i * rw, origin[2] + j * rw
        direct = multimed_r_nlay(plain, cp.mm, np.array([R, 0.0, Z]))
        close(data[i, j], direct, 1e-9, "table at node (%d, %d)" % (i, j))
        if i > 0:
            e = exact(R, Z)
            if e:
                close(data[i, j] * R, e[0] * R, e[1] + 1e-6, "radius from the table at node (%d, %d)" % (i, j))
    # points the camera sees in the volume
    table = copy.deepcopy(cal)
    table.set_pos(np.array([0.0, 0.0, z_cam]))
    zlo, zhi = min(vp.z_min_lay), max(vp.z_max_lay)
    inside = 0
    fresh = View(case["view"])
    hx, hy = cp.imx * cp.pix_x / 2, cp.imy * cp.pix_y / 2
    for _ in range(14):
        x, y = g.uniform(-0.97, 0.97, 2) * (hx, hy)
        t = v.trace(x - v.c["pp"][0], y - v.c["pp"][1])
        if t is None:
            continue
        p = move_along_ray(g.uniform(zlo, zhi), t[0], t[1])
        pos_t = trans_cam_point(cal.ext_par, cp.mm, cal.glass_par, p)[0]
        mmf = get_mmf_from_mmlut(cal, pos_t)
        check(mmf > 0, "the table does not cover a point seen in the volume, %s (glass frame %s)", p, pos_t)
        R = pos_t[0]
        if R < rw:
            continue
        e = exact(R, pos_t[2])
        direct = multimed_r_nlay(plain, cp.mm, pos_t)
        close(mmf * R, direct * R, INTERP, "interpolated against direct radius at r=%.3f" % R)
        if e:
            close(mmf * R, e[0] * R, INTERP + e[1], "interpolated against exact radius at r=%.3f" % R)
        close(multimed_r_nlay(table, cp.mm, pos_t) * R, direct * R, INTERP, "radius with the table in use")
        inside += 1
        # filling the table moves no image point
        a = flat_image_coord(p, fresh.cal, cp.mm)
        b = flat_image_coord(p, cal, cp.mm)
        close(b, a, 3 * INTERP / case["view"]["h"] * v.cc, "image with and without a table")
    # outside the table: nothing is extrapolated, the direct computation takes over
    for R, Z in (
        (nr * rw + g.uniform(0, 50), origin[2] + g.uniform(0, (nz - 1) * rw)),
        ((nr - 1) * rw + 0.01, origin[2] + 1.0),
        (g.uniform(rw, (nr - 1) * rw), origin[2] - g.uniform(0.001, 40)),
        (g.uniform(rw, (nr - 1) * rw), origin[2] + (nz - 1) * rw + g.uniform(0.001, 1)),
    ):
        pos_t = np.array([R, 0.0, Z])
        check(get_mmf_from_mmlut(cal, pos_t) == 0, "a value outside the table, at r=%g z=%g (table up to r=%g, z=%g..%g)", R, Z, (nr - 1) * rw, origin[2], origin[2] + (nz - 1) * rw)
        a = multimed_r_nlay(table, cp.mm, pos_t)
        b = multimed_r_nlay(plain, cp.mm, pos_t)
        if not (math.isnan(a) and math.isnan(b)):
            close(a, b, 1e-12, "radial shift outside the table")
    refracts = {v.mm["n1"], v.mm["n2"][0], v.mm["n3"]} != {1.0}
    return ["nontrivial"] if inside >= 8 and refracts else []


frac = st.one_of(st.integers(-60, -30).map(float), fl(-60, -30), st.integers(-300, -270).map(float))
case_st = st.fixed_dictionaries(
    {
        "view": st.fixed_dictionaries(
            {
                "q": st.tuples(fl(-0.12, 0.12), fl(-0.12, 0.12), fl(-3, 3)).map(list),
                "G": fl(20, 40),
                "h": fl(120, 400),
                "lat": st.tuples(fl(-0.2, 0.2), fl(-0.2, 0.2)).map(list),
                "off": st.tuples(fl(-10, 10), fl(-10, 10)).map(list),
                "depth": fl(30, 60),
                "roll": fl(-3.1, 3.1),
                "pp": st.tuples(fl(-0.1, 0.1), fl(-0.1, 0.1), fl(50, 110)).map(list),
                "ap": st.just(IDENT_AP),
                "mm": media(1, 10.0),
            }
        ),
        "imx": st.integers(200, 640),
        "imy": st.integers(200, 512),
        "pix": st.tuples(fl(0.005, 0.012), fl(0.005, 0.012)).map(list),
        "z": st.tuples(fl(-40, -10), st.one_of(fl(2, 20), st.integers(1, 20).map(float))).map(list),
        "dz": st.tuples(fl(-5, 0), fl(0, 5)).map(list),
        "again": st.booleans(),
        "seed": seeds(),
    }
)


def judge_read(case):
    """A table of any values, read at any point: bilinear between the four nodes around it."""
    from openptv_python.calibration import Calibration
    from openptv_python.multimed import get_mmf_from_mmlut

    g = rng(case["seed"])
    nr, nz, rw = case["nr"], case["nz"], case["rw"]
    origin = np.array(case["origin"])
    data = g.uniform(0.5, 1.5, (nr, nz))
    cal = Calibration()
    cal.mmlut = cal.mmlut.copy()
    cal.mmlut.origin, cal.mmlut.nr, cal.mmlut.nz, cal.mmlut.rw = origin, nr, nz, rw
    cal.mmlut_data = data.copy()
    inner = 0
    for _ in range(12):
        a, b = g.uniform(-0.5, nr + 0.5), g.uniform(-1.5, nz + 0.5)
        if g.random() < 0.3:
            a = float(g.integers(0, nr))
        a = abs(a)
        phi = g.uniform(0, 2 * math.pi) if g.random() < 0.7 else 0.0
        pos = origin + np.array([a * rw * math.cos(phi), a * rw * math.sin(phi), b * rw])
        rel = pos - origin
        a, b = math.hypot(rel[0], rel[1]) / rw, rel[2] / rw
        if min(abs(a - (nr - 1)), abs(b), abs(b - (nz - 1))) < 1e-9:
            continue
        keep = pos.copy()
        got = get_mmf_from_mmlut(cal, pos)
        check((pos == keep).all(), "reading moved the point")
        if a > nr - 1 or b < 0 or b > nz - 1:
            check(got == 0, "a value %r outside the table, at cell %r, %r of %d x %d", got, a, b, nr, nz)
            continue
        i, j = int(a), int(b)
        s, t = a - i, b - j
        want = (data[i, j] * (1 - s) + data[i + 1, j] * s) * (1 - t) + (data[i, j + 1] * (1 - s) + data[i + 1, j + 1] * s) * t
        close(got, want, 1e-7, "value at cell %r, %r of %d x %d" % (a, b, nr, nz))
        inner += 1
    check((cal.mmlut_data == data).all(), "reading changed the table")
    return ["nontrivial"] if inner >= 3 else []


read_st = st.fixed_dictionaries(
    {
        "nr": st.integers(2, 40),
        "nz": st.integers(2, 40),
        "rw": st.sampled_from([2, 1, 3, 5]),
        "origin": st.tuples(st.sampled_from([0.0, 3.0, -7.5]), st.sampled_from([0.0, -2.0, 4.25]), fl(-300, 300)).map(list),
        "seed": seeds(),
    }
)
SUBS = [Sub("read", read_st, judge_read, quick=400, thorough=20000), Sub("table", case_st, judge, quick=600, thorough=8000, warm=2)]
