"""C19 - candidates of a track are exactly the nearest targets of the search volume's images."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Reject, Sub, check, close
from vp.gen import AIR, IDENT_AP, Scene, added_pars, fl, make_cpar, media, rng, scene, seeds

PROPERTY = "C19"
RULE = (
    "Generated target lists (0 to 9000, sorted by y, any mixture of matched and free ones, on a fine or a coarse grid "
    "of positions so that distances and rows repeat), search windows of any size and place, also reaching over the "
    "image border; candidate tables; search volumes and frames of particles in rigs of two to four cameras behind "
    "glass; non-trivial: more targets in the window than are returned, or at least two candidates with different "
    "numbers of cameras."
)
ASSUMPTIONS = [
    "Targets are sorted by y, as the library writes them. Which of several targets at equal distances comes first is "
    "left open, and so is a lone candidate when none is seen by two cameras.",
]
CP = {"imx": 1280, "imy": 1024, "pix": [0.012, 0.012], "num_cams": 4, "mm": AIR}


def targets(case, g):
    from openptv_python.tracking_frame_buf import Target

    n, imx, imy = case["n"], case["imx"], case["imy"]
    span = case["span"]
    cx, cy = case["cx"] * imx, case["cy"] * imy
    if span == 0:
        x, y = g.uniform(0, imx, n), g.uniform(0, imy, n)
    else:
        x, y = cx + g.uniform(-span, span, n), cy + g.uniform(-span, span, n)
        x, y = np.clip(x, 0, imx), np.clip(y, 0, imy)
    if case.get("rim"):  # in the outermost pixels
        x[::3], y[1::3] = abs(imx * (case["cx"] > 0.5) - g.uniform(0, 2, len(x[::3]))), abs(imy * (case["cy"] > 0.5) - g.uniform(0, 2, len(y[1::3])))
    if case["grid"]:
        x, y = np.round(x / case["grid"]) * case["grid"], np.round(y / case["grid"]) * case["grid"]
    y = np.sort(y)
    tnr = np.where(g.random(n) < case["free"], -1, g.permutation(n))
    return [Target(pnr=i, x=float(x[i]), y=float(y[i]), n=5, nx=2, ny=2, sumg=50, tnr=int(tnr[i])) for i in range(n)]


def window(targs, use, cx, cy, box, imx, imy):
    """Distances of the usable targets inside the window and the image, by target number."""
    dl, dr, du, dd = box
    x0, x1, y0, y1 = max(cx - dl, 0), min(cx + dr, imx), max(cy - du, 0), min(cy + dd, imy)
    out = {}
    if not (0 <= cx <= imx and 0 <= cy <= imy):
        return out
    for i, t in enumerate(targs):
        if use(t):
            if min(abs(t.x - x0), abs(t.x - x1), abs(t.y - y0), abs(t.y - y1)) < 1e-9 and x0 - 1e-9 < t.x < x1 + 1e-9 and y0 - 1e-9 < t.y < y1 + 1e-9:
                raise Reject  # on the border
            if x0 < t.x < x1 and y0 < t.y < y1:
                out[i] = math.hypot(t.x - cx, t.y - cy)
    return out


def is_nearest(got, inside, most, what):
    """got: distinct members of inside, as near as the nearest ones, in order."""
    want = sorted(inside.values())[:most]
    check(len(set(got)) == len(got) and all(i in inside for i in got), "%s: %s are not distinct targets of the window", what, got)
    have = [inside[i] for i in got]
    check(len(have) == len(want), "%s: %d found, %d in the window", what, len(have), len(inside))
    close(have, want, 1e-9, what + ": distances") if have else None


def judge_pix(case):
    from openptv_python.constants import MAX_CANDS
    from openptv_python.track import Foundpix_dtype, candsearch_in_pix, candsearch_in_pix_rest, register_closest_neighbs

    g = rng(case["seed"])
    targs = targets(case, g)
    imx, imy = case["imx"], case["imy"]
    cpar = make_cpar(dict(CP, imx=imx, imy=imy))
    cx, cy = case["cx"] * imx + 0.123 * bool(case["grid"]), case["cy"] * imy + 0.317 * bool(case["grid"])
    box = [b + 0.0501 for b in case["box"]]
    before = [t.__dict__.copy() for t in targs]
    total = len(targs)
    spare = case["spare"]
    from openptv_python.tracking_frame_buf import Target

    held = targs + [Target(x=cx, y=cy, tnr=0) for _ in range(spare)] + [Target(x=cx, y=cy) for _ in range(spare)]
    inside = window(targs, lambda t: t.tnr != -1, cx, cy, box, imx, imy)
    p = candsearch_in_pix(held, total, cx, cy, *box, cpar)
    check(len(p) == MAX_CANDS, "%d places for candidates", len(p))
    got = [int(i) for i in p if i != -1]
    check([int(i) for i in p] == got + [-1] * (MAX_CANDS - len(got)), "gaps between candidates: %s", p)
    is_nearest(got, inside, MAX_CANDS, "candidates")

    free = window(targs, lambda t: t.tnr == -1, cx, cy, box, imx, imy)
    q = [-1] * MAX_CANDS
    k = candsearch_in_pix_rest(held, total, cx, cy, *box, q, cpar)
    check(k == (1 if free else 0), "%s free candidates counted", k)
    is_nearest([int(i) for i in q if i != -1], free, 1, "free candidate")
    check(all(i == -1 for i in q[1:]), "free candidates %s", q)

    cam = case["cam"]
    reg = np.array([(-1, 0, [0] * 4)] * MAX_CANDS, dtype=Foundpix_dtype).view(np.recarray)
    register_closest_neighbs(held, total, cam, cx, cy, *box, reg, cpar)
    for i in range(MAX_CANDS):
        if i < len(got):
            check(reg[i].ftnr == targs[got[i]].tnr, "candidate %d is registered as particle %d instead of %d", i, reg[i].ftnr, targs[got[i]].tnr)
            check(reg[i].whichcam[cam] == 1, "candidate %d is not marked as seen by camera %d", i, cam)
        else:
            check(reg[i].ftnr == -1, "particle %d is registered without a candidate", reg[i].ftnr)
    check(before == [t.__dict__ for t in targs], "the search changed the targets")
    labels = []
    if len(inside) > MAX_CANDS and len(free) > 1:
        labels.append("nontrivial")
    if any(len({round(inside[i], 9) for i in inside}) < len(inside) for _ in (0,)):
        labels.append("equal distances")
    return labels


def ranking(lists):
    """Particles and their numbers of cameras."""
    freq = {}
    for li in lists:
        for f in set(li):
            if f != -1:
                freq[f] = freq.get(f, 0) + 1
    return freq


def is_ranking(rows, n_found, freq, what):
    """rows: (particle, freq); every particle of two cameras or more, the most often seen first."""
    want = {f: k for f, k in freq.items() if k > 1}
    check(len(rows) >= n_found, "%s: %d of %d candidates", what, len(rows), n_found)
    got = [(int(f), int(k)) for f, k in rows[:n_found]]
    if not want and n_found == 1:
        check(got[0][1] == 1 and freq.get(got[0][0]) == 1, "%s: %s", what, got)
        return
    check(len(got) == len(want) and dict(got) == want, "%s: %s instead of %s", what, got, want)
    ks = [k for _, k in got]
    check(ks == sorted(ks, reverse=True), "%s: not sorted by the number of cameras: %s", what, got)


def judge_sort(case):
    from openptv_python.constants import MAX_CANDS
    from openptv_python.track import Foundpix_dtype, copy_foundpix_array, reset_foundpix_array, sort, sort_candidates_by_freq

    n, g = case["cams"], rng(case["seed"])
    lists = [[int(f) for f in g.permutation(case["kinds"])[: g.integers(0, MAX_CANDS + 1)]] for _ in range(n)]
    reg = np.array([(7, 3, [1] * 4)] * (n * MAX_CANDS), dtype=Foundpix_dtype).view(np.recarray)
    reset_foundpix_array(reg, n * MAX_CANDS, n)
    check((reg.ftnr == -1).all() and (reg.freq == 0).all() and (reg.whichcam[:, :n] == 0).all(), "reset left %s", reg)
    for c, li in enumerate(lists):
        for m, f in enumerate(li):
            reg[c * MAX_CANDS + m].ftnr = f
            reg[c * MAX_CANDS + m].whichcam[c] = 1
    twin = np.array([(9, 9, [9] * 4)] * (n * MAX_CANDS), dtype=Foundpix_dtype).view(np.recarray)
    copy_foundpix_array(twin, reg, n * MAX_CANDS, n)
    check((twin.ftnr == reg.ftnr).all() and (twin.freq == reg.freq).all() and (twin.whichcam[:, :n] == reg.whichcam[:, :n]).all(), "copy differs")
    k = sort_candidates_by_freq(reg, n)
    freq = ranking(lists)
    is_ranking([(r.ftnr, r.freq) for r in reg], int(k), freq, "sorted candidates")
    for r in reg[:k]:
        check(
            [int(v) for v in r.whichcam[:n]] == [int(r.ftnr in li) for li in lists],
            "particle %d is marked as seen by %s, candidates %s", r.ftnr, r.whichcam[:n], lists,
        )
    check(all(r.ftnr == -1 and r.freq == 0 for r in reg[k:]), "leftovers after %d candidates", k)
    # sorting of decisions
    m = case["m"]
    a = [float(v) for v in np.round(g.uniform(0, 3, m + 5), 1)]
    b = [int(v) for v in g.integers(0, 99, m + 5)]
    a2, b2 = sort(m, list(a), list(b))
    check(sorted(zip(a[:m], b[:m])) == sorted(zip(a2[:m], b2[:m])), "sort changed pairs")
    check(all(a2[i] <= a2[i + 1] for i in range(m - 1)), "not sorted: %s", a2[:m])
    check(list(a2[m:]) == a[m:] and list(b2[m:]) == b[m:], "sort changed what follows the first %d", m)
    return ["nontrivial"] if len({v for v in freq.values() if v > 1}) > 1 else []


def run_of(s, box, case):
    from openptv_python.parameters import SequencePar, TrackPar, VolumePar, convert_track_par_to_tuple
    from openptv_python.tracking_run import TrackingRun

    z = s.center[2]
    tp = TrackPar(
        dvxmin=box[0], dvxmax=box[1], dvymin=box[2], dvymax=box[3], dvzmin=box[4], dvzmax=box[5],
        dacc=1.0, dangle=100.0, dsumg=0, dn=0, dnx=0, dny=0, add=1,
    )
    vp = VolumePar(x_lay=[-100.0, 100.0], z_min_lay=[z - 9] * 2, z_max_lay=[z + 9] * 2)
    sp = SequencePar(img_base_name=["c%d" % k for k in range(s.n)], first=1, last=4)
    return TrackingRun(sp, convert_track_par_to_tuple(tp), vp, s.cpar, 4, 8, "rt", "ptv", "add", s.cals, 1e-5)


def judge_volume(case):
    """Images of the search volume; candidates of a frame; free targets at a position."""
    from openptv_python.constants import COORD_UNUSED, MAX_CANDS
    from openptv_python.track import assess_new_position, point_to_pixel, searchquader, sorted_candidates_in_volume
    from openptv_python.tracking_frame_buf import Frame, Target
    from openptv_python.trafo import dist_to_flat, pixel_to_metric

    s, g = Scene(case["scene"]), rng(case["seed"])
    n = s.n
    box = case["box"]
    run = run_of(s, box, case)
    imx, imy = s.cpar.imx, s.cpar.imy
    center = s.local(np.array(case["at"]))
    for k in range(n):  # all of it in the water
        for pt in range(8):
            p = center + [box[2 * i + (pt >> i & 1)] for i in range(3)]
            if s.views[k].to_local(p)[2] > s.views[k].water_top - 2 or s.views[k].slack(p) is None:
                raise Reject
    xr, xl, yd, yu = searchquader(center, run.tpar, run.cpar, run.cal)
    boxes, cuts = [], 0
    pitch = min(s.cpar.pix_x, s.cpar.pix_y)
    for k in range(n):
        tol = 1e-6
        pix = []
        for pt in range(8):
            p = center + [box[2 * i + (pt >> i & 1)] for i in range(3)]
            pix.append(s.pixel(k, p))
            tol = max(tol, 1.3 * s.views[k].slack(p) / pitch)
        tol += 1.3 * s.views[k].slack(center) / pitch
        pix = np.array(pix)
        lo, hi = pix.min(0), pix.max(0)
        c = np.array(s.pixel(k, center))
        want = [min(max(hi[0], 0), imx) - c[0], c[0] - max(min(lo[0], imx), 0), min(max(hi[1], 0), imy) - c[1], c[1] - max(min(lo[1], imy), 0)]
        close([xr[k], xl[k], yd[k], yu[k]], want, tol, "search window of camera %d" % k)
        boxes.append((float(xl[k]), float(xr[k]), float(yu[k]), float(yd[k])))
        cuts += lo[0] < 0 or hi[0] > imx or lo[1] < 0 or hi[1] > imy
        px = point_to_pixel(center, s.cals[k], s.cpar)
        close(px, c, tol, "projection in camera %d" % k)
    # a frame: particles in and around the volume, clutter, some free targets
    ext = np.array([box[1] - box[0], box[3] - box[2], box[5] - box[4]])
    mid = np.array([box[1] + box[0], box[3] + box[2], box[5] + box[4]]) / 2
    rows = [[] for _ in range(n)]
    for i in range(case["parts"]):
        p = center + mid + g.uniform(-0.7, 0.7, 3) * ext
        for k in range(n):
            if g.random() < 0.85:
                x, y = s.image_lib(k, p)
                if 0 < x < imx and 0 < y < imy:
                    rows[k].append((float(y), float(x), i))
    proj = np.zeros((n, 2))
    for k in range(n):
        proj[k] = point_to_pixel(center, s.cals[k], s.cpar) + g.normal(size=2) * case["shift"]
        for q in range(case["clutter"]):
            x, y = proj[k] + g.uniform(-6, 6, 2)
            if 0 < x < imx and 0 < y < imy:
                rows[k].append((float(y), float(x), -1))
    f = Frame(n, 4)
    for k in range(n):
        rows[k].sort()
        f.targets[k] = [Target(pnr=j, x=x, y=y, n=5, nx=2, ny=2, sumg=50, tnr=i) for j, (y, x, i) in enumerate(rows[k])]
        f.num_targets[k] = len(rows[k])
    lists = []
    for k in range(n):
        inside = window(f.targets[k], lambda t: t.tnr != -1, proj[k][0], proj[k][1], boxes[k], imx, imy)
        order = sorted(inside, key=inside.get)
        lists.append([f.targets[k][j].tnr for j in order[:MAX_CANDS]])
    w = sorted_candidates_in_volume(center, proj, f, run)
    end = [i for i in range(len(w)) if w[i].ftnr == -1]
    check(bool(end), "the list of candidates has no end")
    freq = ranking(lists)
    is_ranking([(r.ftnr, r.freq) for r in w], end[0], freq, "candidates in the volume")
    # free targets within three pixels
    found, pos, inds = assess_new_position(center, f, run)
    n_free = 0
    for k in range(n):
        c = point_to_pixel(center, s.cals[k], s.cpar)
        free = window(f.targets[k], lambda t: t.tnr == -1, c[0], c[1], (3, 3, 3, 3), imx, imy)
        if free:
            best = min(free, key=free.get)
            n_free += 1
            check(int(inds[k][0]) == best, "camera %d: target %s taken, %d is nearest", k, inds[k][0], best)
            t = f.targets[k][best]
            close(pos[k], dist_to_flat(*pixel_to_metric(t.x, t.y, s.cpar), s.cals[k], 1e-5), 1e-9, "flat position in camera %d" % k)
        else:
            check(int(inds[k][0]) < 0 and pos[k][0] == COORD_UNUSED, "camera %d: target %s where none is free", k, inds[k][0])
    check(found == n_free, "%d cameras counted, %d have a free target", found, n_free)
    labels = ["cut"] if cuts else []
    if len({v for v in freq.values() if v > 1}) > 1 or sum(v > 1 for v in freq.values()) > 2:
        labels.append("nontrivial")
    if n_free > 1:
        labels.append("free")
    return labels


SUBS = [
    Sub(
        "window",
        st.fixed_dictionaries(
            {
                "seed": seeds(), "n": st.sampled_from([40, 200, 7, 16, 31, 33, 64, 65, 100, 500, 0, 1, 2, 3, 1000]),
                "imx": st.sampled_from([1280, 500]), "imy": st.sampled_from([1024, 700]), "span": st.sampled_from([60, 20, 0, 200, 5]),
                "grid": st.sampled_from([0, 0, 1, 8]), "free": st.sampled_from([0.3, 0.7, 0.0, 1.0]),
                "cx": st.one_of(fl(0, 1), fl(-0.1, 1.1)), "cy": st.one_of(fl(0, 1), fl(-0.1, 1.1)),
                "box": st.one_of(
                    st.lists(fl(5, 60), min_size=4, max_size=4), st.lists(fl(0, 3), min_size=4, max_size=4), st.lists(fl(0, 700), min_size=4, max_size=4)
                ),
                "cam": st.integers(0, 3), "spare": st.sampled_from([0, 5]),
            }
        ),
        judge_pix,
        2500,
    ),
    Sub(
        "rim",
        st.fixed_dictionaries(
            {
                "seed": seeds(), "n": st.sampled_from([20, 9, 60, 200]), "imx": st.sampled_from([1280, 500]), "imy": st.sampled_from([1024, 700]),
                "span": st.sampled_from([20, 5]), "grid": st.just(0), "free": st.sampled_from([0.3, 0.7]), "rim": st.just(True),
                "cx": st.sampled_from([0.0, 1.0, 0.999, 0.001]), "cy": st.sampled_from([0.0, 1.0, 0.999, 0.001]),
                "box": st.lists(fl(0.5, 30), min_size=4, max_size=4), "cam": st.integers(0, 3), "spare": st.just(0),
            }
        ),
        judge_pix,
        300,
    ),
    Sub(
        "many",
        st.fixed_dictionaries(
            {
                "seed": seeds(), "n": st.sampled_from([9000, 5000, 8190, 4097]), "imx": st.just(1280), "imy": st.just(1024), "span": st.just(0),
                "grid": st.sampled_from([0, 1]), "free": st.just(0.3), "cx": fl(0, 1), "cy": fl(0, 1), "box": st.lists(fl(2, 40), min_size=4, max_size=4),
                "cam": st.integers(0, 3), "spare": st.just(0),
            }
        ),
        judge_pix,
        100,
    ),
    Sub(
        "strip",  # wide and low windows: every target in them is among the first ones below their upper border
        st.fixed_dictionaries(
            {
                "seed": seeds(), "n": st.sampled_from([300, 600, 1000, 2000, 4097, 9000]), "imx": st.just(1280), "imy": st.just(1024), "span": st.just(0),
                "grid": st.sampled_from([0, 1]), "free": st.sampled_from([0.3, 0.8, 1.0]), "cx": fl(0, 1), "cy": fl(0, 1),
                "box": st.tuples(fl(100, 700), fl(100, 700), fl(0.2, 4), fl(0.2, 4)).map(list), "cam": st.integers(0, 3), "spare": st.just(0),
            }
        ),
        judge_pix,
        300,
    ),
    Sub(
        "sort",
        st.fixed_dictionaries({"seed": seeds(), "cams": st.sampled_from([4, 3, 2]), "kinds": st.sampled_from([6, 4, 9, 14]), "m": st.sampled_from([5, 1, 2, 30])}),
        judge_sort,
        600,
    ),
    Sub(
        "volume",
        st.fixed_dictionaries(
            {
                "scene": scene(2, 4, mm=st.one_of(st.just(AIR), media(1, 10.0)), aps=st.one_of(st.just(IDENT_AP), added_pars(0.5))),
                "seed": seeds(),
                "at": st.one_of(st.tuples(fl(-5, 5), fl(-5, 5), fl(-4, 4)), st.tuples(fl(-30, 30), fl(-30, 30), fl(-4, 4))).map(list),
                "box": st.tuples(fl(-4, -0.2), fl(0.2, 4), fl(-4, -0.2), fl(0.2, 4), fl(-3, -0.2), fl(0.2, 3)).map(list),
                "parts": st.sampled_from([5, 10, 2, 20]), "clutter": st.sampled_from([3, 0, 8]), "shift": st.sampled_from([0, 0, 1.5]),
            }
        ),
        judge_volume,
        700,
    ),
]
