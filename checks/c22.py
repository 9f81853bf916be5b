"""C22 - orientation finds the camera again, tells which points it used and what is left, and fails cleanly."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check, close
from vp.gen import IDENT_AP, View, fl, make_cal, make_cpar, rng, seeds, view

PROPERTY = "C22"
RULE = (
    "Generated cameras (any pose, glass, media, distortion) looking at 12 to 40 known points that fill a box in the "
    "water; the pose is disturbed (up to 5% of the distance and 0.05 rad) and any subset of the ten adjustable "
    "parameters is freed; points are left out by number, by the use flag or by noise; non-trivial: the start is off by "
    "more than a pixel (recovery), or some points are left out (used points), or the fit really stops at a residual "
    "(noise), or the iteration really fails (failure)."
)
ASSUMPTIONS = [
    "Measured points are made with the library's own projection (judged by C04-C07), so that the recovery can be "
    "required to be tight; one sub-check uses the check's own refraction model instead.",
    "Starting poses within 5% / 0.05 rad of the truth; free distortion coefficients start near their true values, "
    "where the library's approximate derivatives still contract.",
]

NAMES = "k1 k2 k3 p1 p2 scx she".split()
FLAGS = "cc xh yh".split() + NAMES
SENSOR = dict(imx=1280, imy=1024, pix=[0.012, 0.012], num_cams=1)

WATER = st.fixed_dictionaries(
    {
        "n1": st.just(1.0),
        "n2": st.lists(fl(1.3, 1.6), min_size=1, max_size=1),
        "d": st.lists(fl(1, 20), min_size=1, max_size=1),
        "n3": fl(1.28, 1.45),
    }
)
RIG = view(min_h=80, max_h=800, tilt=0.3, layers=2)


def rig(case):
    """The camera, its control parameters and n known points in a box of about a quarter of the distance."""
    g = rng(case["seed"])
    vc = dict(case["view"])
    size = 0.13 * (vc["h"] + vc["depth"])
    vc["depth"] = max(vc["depth"], 1.2 * size)
    v = View(vc)
    cpar = make_cpar(dict(SENSOR, mm=vc["mm"]))
    al = v.to_local(v.aim_pt)
    pts = []
    while len(pts) < case["n"]:
        # corners and edges first: the box is really filled
        q = g.uniform(-1, 1, 3) if len(pts) >= 8 else np.array([(-1) ** (len(pts) >> b & 1) for b in range(3)]) * g.uniform(0.6, 1, 3)
        pts.append(v.to_global(al + size * q))
    # the camera constant that fills the sensor to the wanted radius
    far = max(np.hypot(*v.image(p)) for p in pts)
    vc["pp"] = [vc["pp"][0], vc["pp"][1], vc["pp"][2] * case["radius"] / far]
    v = View(vc)
    order = g.permutation(len(pts))
    return g, v, cpar, np.array(pts)[order]


def project(cal, cpar, pts):
    from openptv_python.imgcoord import img_coord
    from openptv_python.trafo import metric_to_pixel

    return np.array([metric_to_pixel(*img_coord(p, cal, cpar.mm), cpar) for p in pts])


def disturbed(g, v, pert, **other):
    dist = np.linalg.norm(v.pos - v.aim_pt)
    return make_cal(
        dict(
            v.cal_case,
            pos=(v.pos + pert * 0.05 * dist * g.uniform(-1, 1, 3)).tolist(),
            ang=(np.array(v.ang) + pert * 0.05 * g.uniform(-1, 1, 3)).tolist(),
            **other,
        )
    )


def state(cal):
    return np.concatenate(
        [cal.get_pos(), cal.get_angles(), cal.get_primary_point(), cal.glass_par, cal.added_par, cal.ext_par.dm.ravel()]
    )


def check_pose(cal, v, cpar, pts, img, tol_px, what):
    from vp.gen import rot

    dist = np.linalg.norm(v.pos - v.aim_pt)
    rep = project(cal, cpar, pts)
    check(
        np.abs(rep - img).max() <= tol_px,
        "%s: the points are projected %.3g px off with the orientation found", what, np.abs(rep - img).max(),
    )
    r = rot(cal.get_angles())
    close(cal.ext_par.dm, r, 1e-9, what + ": rotation matrix of the angles found")
    return np.abs(cal.get_pos() - v.pos).max() / dist, np.abs(r - v.R).max()


# ---------------------------------------------------------------- recovery


def judge_external(case):
    from openptv_python.orientation import external_calibration

    case = dict(case, view=dict(case["view"], ap=IDENT_AP))
    g, v, cpar, pts = rig(case)
    pts = pts[: case["use"]] if case["use"] else pts
    img = project(v.cal, cpar, pts)
    cal = disturbed(g, v, case["pert"])
    before = state(cal)
    off = np.abs(project(cal, cpar, pts) - img).max()
    ok = external_calibration(cal, pts, img, cpar)
    check(ok is True, "external calibration failed from a start %.1f px off", off)
    dp, dr = check_pose(cal, v, cpar, pts, img, 0.5, "external")
    check(dp < 5e-4 and dr < 1e-3, "external: position off by %.3g of the distance, rotation by %.3g", dp, dr)
    after = state(cal)
    check((before[6:19] == after[6:19]).all(), "external calibration changed interior, glass or distortion")
    return ["nontrivial"] if off > 1 else ["near"]


def judge_full(case):
    from openptv_python.orientation import full_calibration
    from openptv_python.parameters import OrientPar
    from openptv_python.tracking_frame_buf import Target

    flags = sorted(case["flags"])
    g, v, cpar, pts = rig(case)
    img = project(v.cal, cpar, pts)
    ap = list(v.cal_case["ap"])
    for i, k in enumerate(NAMES):
        if k in flags:
            ap[i] = IDENT_AP[i] + (ap[i] - IDENT_AP[i]) * case["keep"]
    cal = disturbed(g, v, case["pert"] * (0.2 if flags else 1), ap=ap)
    before = state(cal)
    off = np.abs(project(cal, cpar, pts) - img).max()
    par = OrientPar(**{k + "flag": 1 for k in flags})
    n = len(pts)
    if case["targets"]:
        given_pts = [Target(pnr=i, x=img[i][0], y=img[i][1]) for i in range(n)]
    else:
        given_pts = img.copy()
    for _ in range(2 if case["keep"] != 1 else 1):
        try:
            res, used, err = full_calibration(cal, pts, given_pts, cpar, par)
        except ValueError as e:
            check(False, "full calibration (%s free) failed from a start %.1f px off: %s", flags, off, e)
    dp, dr = check_pose(cal, v, cpar, pts, img, 0.1, "full %s" % flags)
    if not flags:
        check(dp < 1e-5 and dr < 1e-5, "full: position off by %.3g of the distance, rotation by %.3g", dp, dr)
    check(list(used) == list(range(n)), "used points %s instead of all %d", list(used), n)
    check(np.shape(res) == (n, 2), "residuals of shape %s for %d points", np.shape(res), n)
    check(np.abs(res).max() < 2e-3, "residual %.3g mm on perfect data", np.abs(res).max())
    after = state(cal)
    check((before[9:12] == after[9:12]).all(), "the glass was changed without its flag")
    for i, k in list(enumerate(FLAGS)):
        j = {"cc": 8, "xh": 6, "yh": 7}.get(k, 9 + i)
        if k not in flags:
            check(before[j] == after[j], "%s changed from %r to %r without its flag", k, before[j], after[j])
    if not case["targets"]:
        check((given_pts == img).all(), "the measured points were changed")
    return ["nontrivial"] * int(off > 1) + ["flags%d" % len(flags)] + ["strip"] * int(case["keep"] != 1)


def judge_glass(case):
    from openptv_python.orientation import full_calibration
    from openptv_python.parameters import OrientPar

    # the glass can only be found where it refracts
    g, v, cpar, pts = rig(dict(case, view=dict(case["view"], mm=case["water"])))
    img = project(v.cal, cpar, pts)
    gl = np.array(v.cal_case["glass"])
    # a tilt of the glass, across its normal
    t = np.cross(gl, g.normal(size=3))
    t *= case["tilt"] * np.linalg.norm(gl) / np.linalg.norm(t)
    cal = disturbed(g, v, case["pert"] * 0.2, glass=(gl + t).tolist())
    off = np.abs(project(cal, cpar, pts) - img).max()
    try:
        full_calibration(cal, pts, img, cpar, OrientPar(interfflag=1))
    except ValueError as e:
        check(False, "calibration with free glass failed from a start %.1f px off: %s", off, e)
    check_pose(cal, v, cpar, pts, img, 0.3, "free glass")
    # the glass turns, its distance is not set free
    n0, n = gl + t, cal.glass_par
    turned = float(np.linalg.norm(np.cross(n0, n)) / np.linalg.norm(n0) / np.linalg.norm(n))
    far = float(np.linalg.norm(n) / np.linalg.norm(n0))
    check(abs(far - 1) <= turned**2 + 1e-6, "the glass turned by %.4g rad and its distance changed by a factor %.6f", turned, far)
    wrong = float(np.linalg.norm(np.cross(gl, n)) / np.linalg.norm(gl) / np.linalg.norm(n))
    check(wrong <= 2e-3, "the normal of the glass is %.4g rad off", wrong)
    return ["nontrivial"] if off > 1 else ["near"]


# ---------------------------------------------------------------- which points, and what is left


def judge_used(case):
    """Unmatched and skipped points do not take part; residuals and numbers belong to the points used."""
    from openptv_python.orientation import full_calibration
    from openptv_python.parameters import OrientPar
    from openptv_python.tracking_frame_buf import Target
    from openptv_python.trafo import pixel_to_metric

    g, v, cpar, pts = rig(case)
    n = len(pts)
    img = project(v.cal, cpar, pts) + case["noise"] * g.normal(size=(n, 2))
    use = case["useflag"]
    drop = g.uniform(size=n) < case["drop"]
    targs, expect = [], []
    for i in range(n):
        skip = (use == 1 and i % 2 == 0) or (use == 2 and i % 2 == 1) or (use == 3 and i % 3 == 0)
        junk = img[i] + g.uniform(-300, 300, 2)
        if drop[i]:
            # as sortgrid leaves it, or a target that was given up
            t = Target() if g.uniform() < 0.5 else Target(pnr=-999, x=float(junk[0]), y=float(junk[1]))
            targs.append(t)
        elif skip:
            targs.append(Target(pnr=i, x=float(junk[0]), y=float(junk[1])))
        else:
            targs.append(Target(pnr=i, x=float(img[i][0]), y=float(img[i][1])))
            expect.append(i)
    if len(expect) < 8:
        return ["few"]
    cal = disturbed(g, v, case["pert"])
    par = OrientPar(useflag=use)
    try:
        res, used, err = full_calibration(cal, pts, targs, cpar, par)
    except ValueError as e:
        check(False, "calibration with %d of %d points failed: %s", len(expect), n, e)
    check(list(used) == expect, "points used: %s, expected %s", list(used), expect)
    check(np.shape(res) == (len(expect), 2), "residuals of shape %s for %d points used", np.shape(res), len(expect))
    rep = project(cal, cpar, pts)
    # what is left is the projection minus the measurement, up to the last, tiny correction
    for k, i in enumerate(expect):
        a = pixel_to_metric(*rep[i], cpar)
        b = pixel_to_metric(*img[i], cpar)
        close(res[k], [a[0] - b[0], a[1] - b[1]], 2e-4, "residual of point %d (used as number %d)" % (i, k))
    if case["noise"] == 0:
        dp, dr = check_pose(cal, v, cpar, pts, img, 0.1, "used points")
    else:
        # no nearby pose fits better
        idx = np.array(expect)
        best = ((rep - img)[idx] ** 2).sum()
        dist = np.linalg.norm(v.pos - v.aim_pt)
        for _ in range(12):
            d = g.normal(size=6)
            d *= 10 ** g.uniform(-4, -2) / np.linalg.norm(d)
            c2 = make_cal(
                dict(v.cal_case, pos=(cal.get_pos() + d[:3] * dist).tolist(), ang=(cal.get_angles() + d[3:]).tolist())
            )
            other = ((project(c2, cpar, pts) - img)[idx] ** 2).sum()
            check(
                best <= other * (1 + 1e-3) + 1e-4 * len(idx),
                "sum of squared residuals %.6g px^2, but a pose nearby has %.6g", best, other,
            )
    return ["nontrivial"] * int(len(expect) < n) + ["use%d" % use]


STEP = [1e-4] * 9 + [1e-6, 1e-8, 1e-10, 1e-6, 1e-6, 1e-4, 1e-4]


def jacobian(cal, cpar, pts, cols):
    """Derivatives of the projections by the adjusted parameters, by central differences."""
    import copy

    from openptv_python.imgcoord import img_coord

    out = []
    for k in cols:
        side = []
        for h in (STEP[k], -STEP[k]):
            c = copy.deepcopy(cal)
            if k < 3:
                p = np.array(c.get_pos(), float)
                p[k] += h
                c.set_pos(p)
            elif k < 6:
                p = np.array(c.get_angles(), float)
                p[k - 3] += h
                c.set_angles(p)
            elif k < 9:
                p = np.array(c.get_primary_point(), float)
                p[[2, 0, 1][k - 6]] += h
                c.set_primary_point(p)
            else:
                p = np.array(c.added_par, float)
                p[k - 9] += h
                c.set_added_par(p)
            side.append(np.array([img_coord(p, c, cpar.mm) for p in pts]).ravel())
        out.append((side[0] - side[1]) / (2 * STEP[k]))
    return np.array(out).T


def judge_derivatives(case):
    """The numerical derivatives are the difference quotients of the projection; the calibration is as before."""
    from openptv_python.imgcoord import img_coord
    from openptv_python.orientation import num_deriv_exterior

    g, v, cpar, pts = rig(dict(case, n=12))
    cal = disturbed(g, v, case["pert"])
    before = state(cal)
    steps = [case["dpos"]] * 3 + [case["dang"]] * 3
    scale = 1 + np.abs(cal.get_pos()).max()
    for p in pts[:3]:
        base = np.array(img_coord(p, cal, cpar.mm))
        xd, yd = num_deriv_exterior(cal, cpar, case["dpos"], case["dang"], p)
        close(state(cal), before, 1e-13 * scale * 10, "the calibration after its derivatives were taken")
        for k in range(6):
            other = disturbed(g, v, 0)
            pos, ang = before[:3].copy(), before[3:6].copy()
            if k < 3:
                pos[k] += steps[k]
            else:
                ang[k - 3] += steps[k]
            other.set_pos(pos)
            other.set_angles(ang)
            want = (np.array(img_coord(p, other, cpar.mm)) - base) / steps[k]
            close((xd[k], yd[k]), want, 1e-6 * (1 + np.abs(want).max()) + 1e-9 / steps[k], "derivative by %s" % ["x0", "y0", "z0", "omega", "phi", "kappa"][k])
    return ["nontrivial"] if case["pert"] else []


def judge_deviations(case):
    """The standard deviations are those of the least squares adjustment; parameters held fixed have none."""
    from openptv_python.orientation import full_calibration
    from openptv_python.parameters import OrientPar

    flags = sorted(case["flags"])
    g, v, cpar, pts = rig(case)
    img = project(v.cal, cpar, pts) + case["noise"] * g.normal(size=(len(pts), 2))
    cal = disturbed(g, v, case["pert"] * (0.2 if flags else 1))
    par = OrientPar(**{k + "flag": 1 for k in flags}, interfflag=int(case["glass"]))
    try:
        res, used, err = full_calibration(cal, pts, img.copy(), cpar, par)
    except ValueError:
        return ["failed"]
    check(np.shape(err) == (20,) and np.isfinite(err).all() and (err >= 0).all(), "deviations %s", err)
    free = list(range(6)) + [6 + i for i, k in enumerate(FLAGS) if k in flags]
    fixed = [i for i in range(16) if i not in free] + ([18] if case["glass"] else [16, 17, 18])
    check((err[fixed] == 0).all(), "deviations %s of parameters that were held fixed", err[fixed])
    if case["glass"]:
        return ["glass"]
    rel = 0.02 if flags else 1e-6
    s0 = np.sqrt((res**2).sum() / (2 * len(pts) - 6))
    close(err[19], s0, rel * s0, "standard deviation of the measurements (%s free)" % flags)
    if any(k[0] == "k" for k in flags):
        return ["radial"]  # the library's derivatives by the radial terms are those at the distorted point
    jac = jacobian(cal, cpar, pts, free)
    norm = jac.T @ jac + np.diag([0.0] * 6 + [1.0] * len(flags))
    scale = np.sqrt(np.diag(norm))
    norm = norm / scale[:, None] / scale
    if np.linalg.cond(norm) > 1e8:
        return ["weak"]
    want = err[19] * np.sqrt(np.diag(np.linalg.inv(norm))) / scale
    rel = np.full(len(free), 2e-3 if not flags else 0.25)
    close(err[free], want, rel * want, "standard deviations with %s free" % flags)
    return ["nontrivial"]


def judge_optimum(case):
    """With noisy measurements and a wrong interior, the result is the least squares optimum, priors included."""
    from openptv_python.orientation import external_calibration, full_calibration
    from openptv_python.parameters import OrientPar

    raw = case["kind"] == "external"
    flags = [] if raw else sorted(case["flags"])
    case = dict(case, view=dict(case["view"], ap=IDENT_AP)) if raw else case
    g, v, cpar, pts = rig(case)
    n = len(pts)
    img = project(v.cal, cpar, pts) + case["noise"] * g.normal(size=(n, 2))
    pp = np.array(v.cal_case["pp"], float)
    off = case["off"] * g.uniform(-1, 1, 3) * [0.2, 0.2, 0.02 * pp[2]]
    off *= [k in flags for k in ("xh", "yh", "cc")]
    cal = disturbed(g, v, case["pert"] * (0.2 if flags else 1), pp=(pp + off).tolist())
    cols = list(range(6)) + [6 + FLAGS.index(k) for k in flags]
    start = state(cal)[[0, 1, 2, 3, 4, 5] + [{"cc": 8, "xh": 6, "yh": 7}[k] for k in flags]]
    try:
        if raw:
            check(external_calibration(cal, pts, img, cpar) is True, "external calibration failed")
        else:
            full_calibration(cal, pts, img, cpar, OrientPar(**{k + "flag": 1 for k in flags}))
    except ValueError as e:
        check(False, "full calibration (%s free) failed: %s", flags, e)

    def rest(c):
        now = state(c)[[0, 1, 2, 3, 4, 5] + [{"cc": 8, "xh": 6, "yh": 7}[k] for k in flags]]
        d = (project(c, cpar, pts) - img) * [cpar.pix_x, -cpar.pix_y]
        return np.concatenate([d.ravel(), (now - start)[6:]])

    found = (rest(cal) ** 2).sum()
    best, cur = found, cal
    for _ in range(8):
        jac = np.vstack([jacobian(cur, cpar, pts, cols), np.eye(len(cols))[6:]])
        scale = np.linalg.norm(jac, axis=0)
        step = np.linalg.lstsq(jac / scale, -rest(cur), rcond=1e-9)[0] / scale
        s = state(cur)
        pos, ang, q = s[:3] + step[:3], s[3:6] + step[3:6], s[6:9].copy()
        for k, x in zip(flags, step[6:]):
            q[{"xh": 0, "yh": 1, "cc": 2}[k]] += x
        cur = make_cal(dict(v.cal_case, pos=pos.tolist(), ang=ang.tolist(), pp=q.tolist()))
        best = min(best, (rest(cur) ** 2).sum())
    px = min(cpar.pix_x, cpar.pix_y)
    slack = 0.1 if raw else 0.02
    check(
        found <= best * (1 + slack) + n * (slack * px) ** 2,
        "%s (%s free): sum of squares %.6g mm^2 at the result, %.6g is possible",
        case["kind"],
        flags,
        found,
        best,
    )
    return ["nontrivial"] * int(best > n * (0.05 * px) ** 2) + [case["kind"]]


# ---------------------------------------------------------------- failure


def judge_fail(case):
    from openptv_python.orientation import full_calibration
    from openptv_python.parameters import OrientPar

    g, v, cpar, pts = rig(case)
    img = project(v.cal, cpar, pts)
    if case["mess"] == "random":
        img = g.uniform(0, 1024, img.shape)
    elif case["mess"] == "shuffled":
        img = img[g.permutation(len(img))]
    elif case["mess"] == "mirror":
        img = img * [-1, 1] + [1280, 0]
    cal = disturbed(g, v, case["pert"])
    before = state(cal)
    par = OrientPar(**{k + "flag": 1 for k in case["flags"]}, interfflag=int(case["glass"]))
    try:
        with np.errstate(all="ignore"):
            full_calibration(cal, pts, img, cpar, par)
    except ValueError:
        after = state(cal)
        check(
            (before == after).all(),
            "the iteration failed, but the calibration was changed by %.3g", np.abs(before - after).max(),
        )
        return ["nontrivial", case["mess"]]
    except (ZeroDivisionError, np.linalg.LinAlgError):
        return ["crash", case["mess"]]
    return ["converged", case["mess"]]


def _base(**more):
    d = dict(view=RIG, radius=st.sampled_from([6.0, 4.5, 3.0]), seed=seeds(), n=st.sampled_from([12, 20, 30, 40]), pert=st.sampled_from([1.0, 0.3, 0.6, 0.05, 0.0]))
    d.update(more)
    return st.fixed_dictionaries(d)


SUBS = [
    Sub("external", _base(use=st.sampled_from([0, 0, 8, 6])), judge_external, quick=240, thorough=6000),
    Sub(
        "full",
        _base(
            flags=st.one_of(
                st.sampled_from([[]] + [[f] for f in FLAGS]),
                st.sampled_from(range(1024)).map(lambda m: [f for i, f in enumerate(FLAGS) if m >> i & 1]),
            ),
            keep=st.sampled_from([1, 1, 0.9]),
            targets=st.booleans(),
        ),
        judge_full,
        quick=400,
        thorough=8000,
    ),
    Sub("glass", _base(water=WATER, tilt=st.sampled_from([0.0, 0.01, 0.03])), judge_glass, quick=80, thorough=1600),
    Sub(
        "used",
        _base(
            n=st.sampled_from([20, 30, 40]),
            useflag=st.sampled_from([0, 1, 2, 3]),
            drop=st.sampled_from([0.0, 0.1, 0.3]),
            noise=st.sampled_from([0.0, 0.1, 0.5, 2.0]),
        ),
        judge_used,
        quick=240,
        thorough=5000,
    ),
    Sub(
        "optimum",
        _base(
            kind=st.sampled_from(["full", "external", "full"]),
            n=st.sampled_from([12, 20, 40]),
            flags=st.lists(st.sampled_from(["cc", "xh", "yh"]), unique=True, max_size=3),
            off=st.sampled_from([1.0, 0.3, 0.0]),
            noise=st.sampled_from([0.0, 0.3, 1.0, 3.0]),
        ),
        judge_optimum,
        quick=160,
        thorough=4000,
    ),
    Sub(
        "fail",
        _base(
            flags=st.lists(st.sampled_from(FLAGS), unique=True, max_size=10),
            mess=st.sampled_from(["random", "shuffled", "mirror"]),
            glass=st.booleans(),
        ),
        judge_fail,
        quick=60,
        thorough=1200,
    ),
    Sub(
        "deviations",
        _base(
            flags=st.one_of(
                st.just([]),
                st.lists(st.sampled_from("cc xh yh p1 p2 scx she".split()), unique=True, min_size=1, max_size=2),
                st.sampled_from([[k] for k in FLAGS]),
            ),
            noise=st.sampled_from([0.3, 0.1, 1.0]),
            glass=st.sampled_from([False, False, False, True]),
            pert=st.sampled_from([0.3, 0.05]),
        ),
        judge_deviations,
        quick=120,
        thorough=3000,
    ),
    Sub("derivatives", _base(dpos=st.sampled_from([1e-2, 1e-4, 1.0]), dang=st.sampled_from([1e-3, 1e-5, 1e-2])), judge_derivatives, quick=150, thorough=4000),
]
