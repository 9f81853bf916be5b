"""C30 - from images to tracks: rendered particles come out as their own trajectories."""
import itertools
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import flow
from vp.core import Reject, Sub, check, close
from vp.gen import AIR, IDENT_AP, Scene, added_pars, fl, media, rng, scene, seeds

PROPERTY = "C30"
RULE = (
    "Generated rigs of two to four cameras with small images, up to eight particles moving smoothly for three to six "
    "frames, each seen by at least two cameras, drawn as bright blobs of random size, height and sub-pixel place on a "
    "noisy ground; particles whose images touch or lie in the epipolar band of another are left out first (reference "
    "model). The library recognises, sorts, matches, locates, writes, and tracks; non-trivial: at least two particles."
)
ASSUMPTIONS = [
    "Separation is decided by the check's own refraction model; the centre of a blob is known to 0.2 pixel.",
    "Search limits reach to both sides of zero and are wide; particles stay further apart than the search reaches.",
]

PX = 0.2  # what the recognition may be off by, in pixels


def courses(case, s, g):
    """Local positions [track][frame], cameras that see it, pixel positions {(t, k, i)}; only tracks that are separated."""
    T, n, eps = case["T"], s.n, case["eps"]
    half = 10.0
    z = s.center[2]
    size = min(min(v.cam_local[2] / v.cc * p * m for p, m in ((s.cpar.pix_x, s.cpar.imx), (s.cpar.pix_y, s.cpar.imy))) for v in s.views)
    box = min(0.3 * size, 25.0) * np.array([1.0, 1.0, 0.0]) + np.array([0.0, 0.0, 5.0])
    from openptv_python.trafo import dist_to_flat, pixel_to_metric

    pos, see, px, fx = [], [], {}, {}
    t = np.arange(T) - (T - 1) / 2

    def segment(k, q, j):
        r = s.views[k].trace(*q)
        out, slack = [], 0.0
        for zz in (z - half, z + half):
            e = r[0] + (zz - r[0][2]) / r[1][2] * r[1]
            if s.views[j].to_local(e)[2] > s.views[j].water_top - 0.5:
                return None
            sl = s.views[j].slack(e)
            if sl is None:
                return None
            out.append(np.array(s.views[j].image(e)))
            slack = max(slack, sl)
        return out[0], out[1], slack

    lines = {}
    for _ in range(case["tries"]):
        i = len(pos)
        x = g.uniform(-1, 1, 3) * box + t[:, None] * g.uniform(-1, 1, 3) * 0.6 * case["speed"] + 0.5 * (t**2)[:, None] * g.uniform(-1, 1, 3) * 0.03
        if any(np.linalg.norm(x[:, None] - y[None], axis=2).min() < 5.0 for y in pos):
            continue
        ks = sorted(int(k) for k in g.permutation(n)[: g.integers(2, n + 1)]) if case["miss"] else list(range(n))
        new, newf, newl = {}, {}, {}
        ok = True
        for f in range(T):
            p = s.local(x[f])
            if abs(p[2] - z) > half - 1 or s.views[0].to_local(p)[2] > s.views[0].water_top - 2:
                ok = False
                break
            for k in ks:
                q = s.pixel(k, p)
                if not (9 < q[0] < s.cpar.imx - 9 and 9 < q[1] < s.cpar.imy - 9):
                    ok = False
                    break
                if any(np.hypot(q[0] - o[0], q[1] - o[1]) < 14 for (f1, k1, _), o in px.items() if (f1, k1) == (f, k)):
                    ok = False
                    break
                new[f, k, i] = q
                newf[f, k, i] = np.array(dist_to_flat(*pixel_to_metric(*q, s.cpar), s.cals[k], 1e-6))
            if not ok:
                break
        if not ok:
            continue
        for f, k, j in itertools.product(range(T), range(n), range(n)):
            if k < j and (f, k, i) in newf:
                e = segment(k, newf[f, k, i], j)
                if e is None:
                    ok = False
                    break
                newl[f, k, j, i] = e
        if not ok:
            continue

        def inside(e, q, wide, more):
            a, b, sl = e
            u = (b - a) / np.linalg.norm(b - a)
            w = q - a
            off, along = abs(w[0] * u[1] - w[1] * u[0]), w @ u
            return off < wide * eps + more * sl and -5 * eps < along < np.linalg.norm(b - a) + 5 * eps

        both = {**fx, **newf}
        for (f, k, j, m), e in {**lines, **newl}.items():
            for i1 in range(i + 1):
                if (f, j, i1) not in both or (m != i and i1 != i):
                    continue
                if m == i1:
                    ok = ok and inside(e, both[f, j, i1], 0.6, -1)
                else:
                    ok = ok and not inside(e, both[f, j, i1], 1.5, 1)
        if not ok:
            continue
        pos.append(x)
        see.append(ks)
        px.update(new)
        fx.update(newf)
        lines.update(newl)
        if len(pos) == case["npts"]:
            break
    return pos, see, px, fx


def render(case, s, g, spots):
    h, w = s.cpar.imy, s.cpar.imx
    yy, xx = np.mgrid[:h, :w] + 0.5
    img = g.integers(0, case["ground"] + 1, (h, w)).astype(float)
    for (x, y), (amp, sig) in spots:
        img += amp * np.exp(-((xx - x) ** 2 + (yy - y) ** 2) / (2 * sig * sig))
    return np.clip(np.floor(img), 0, 255).astype(np.uint8)


def judge(case):
    from openptv_python import correspondences as corr_module
    from openptv_python.calibration import Calibration
    from openptv_python.correspondences import py_correspondences
    from openptv_python.image_processing import copy_images
    from openptv_python.multimed import init_mmlut
    from openptv_python.orientation import point_positions
    from openptv_python.parameters import TargetPar, VolumePar
    from openptv_python.segmentation import target_recognition
    from openptv_python.tracking_frame_buf import Frame, Pathinfo, get_by_pnrs, match_coords, sort_target_y

    if hasattr(corr_module, "MAX_TARGETS"):
        corr_module.MAX_TARGETS = 64
    s, g = Scene(case["scene"]), rng(case["seed"])
    if s.views[0].water_top - s.center_local[2] < 14:
        raise Reject
    T, first, n = case["T"], case["first"], s.n
    pos, see, px, fx = courses(case, s, g)
    if not pos:
        return ["empty"]
    looks = [(g.uniform(110, 250), g.uniform(0.9, 1.3)) for _ in pos]
    d = tempfile.mkdtemp(dir=".")
    z = float(s.center[2])
    vp = VolumePar(x_lay=[-100.0, 100.0], z_min_lay=[z - 10] * 2, z_max_lay=[z + 10] * 2, cn=0.2, cnx=0.2, cny=0.2, csumg=0.2, eps0=case["eps"], corrmin=0.0)
    tp = TargetPar(gvthresh=[case["thr"]] * 4, discont=300, nnmin=3, nnmax=200, nxmin=1, nxmax=30, nymin=1, nymax=30, sumg_min=10, cr_sz=1)
    if case["files"]:
        for k, c in enumerate(s.cals):
            c.write(os.path.join(d, "c%d.ori" % k), os.path.join(d, "c%d.addpar" % k))
        from pathlib import Path

        s.cals = [Calibration.from_file(Path(d, "c%d.ori" % k), Path(d, "c%d.addpar" % k)) for k in range(n)]
    if case["lut"]:
        wide = VolumePar(x_lay=[-100.0, 100.0], z_min_lay=[z - 12] * 2, z_max_lay=[z + 12] * 2)
        s.cals = [init_mmlut(wide, s.cpar, c) for c in s.cals]

    made = []
    for t in range(T):
        targs, whose = [], []
        for k in range(n):
            here = [i for i in range(len(pos)) if k in see[i]]
            img = render(case, s, g, [(px[t, k, i], looks[i]) for i in here])
            keep = img.copy()
            found = sort_target_y(target_recognition(copy_images(img), tp, k, s.cpar))
            check((img == keep).all(), "the image was changed")
            check(len(found) == len(here), "frame %d camera %d: %d targets of %d particles", t, k, len(found), len(here))
            own = []
            for q, f in enumerate(found):
                f.pnr = q
                dist = [np.hypot(f.x - px[t, k, i][0], f.y - px[t, k, i][1]) for i in here]
                check(min(dist) < PX, "frame %d camera %d: target at (%s, %s), %s pixels from a particle", t, k, f.x, f.y, min(dist))
                own.append(here[int(np.argmin(dist))])
            check(len(set(own)) == len(own), "frame %d camera %d: a particle twice", t, k)
            targs.append(found)
            whose.append(own)
        flat = [match_coords(f, s.cpar, c, 1e-6) for f, c in zip(targs, s.cals)]
        spots, ids, total = py_correspondences(targs, flat, s.cals, vp, s.cpar)
        ids = np.concatenate(ids, axis=1)
        check(ids.shape[1] == total == len(pos), "frame %d: %d cliques (%d announced) of %d particles", t, ids.shape[1], total, len(pos))
        sel = np.array([get_by_pnrs(f, i) for f, i in zip(flat, ids)]).transpose(1, 0, 2)
        xyz, _ = point_positions(np.where(ids.T[:, :, None] < 0, -1e10, sel), s.cpar.mm, s.cals, vp)
        order = []
        for q in range(total):
            who = {whose[k][ids[k, q]] for k in range(n) if ids[k, q] >= 0}
            check(len(who) == 1, "frame %d: a clique of the particles %s", t, who)
            i = who.pop()
            check([k for k in range(n) if ids[k, q] >= 0] == see[i], "frame %d: particle %d matched in %s, seen in %s", t, i, ids[:, q], see[i])
            order.append(i)
        check(len(set(order)) == total, "frame %d: a particle is matched twice", t)
        fr = Frame(n, max(4, total, max(len(f) for f in targs)))
        for q in range(total):
            fr.path_info[q] = Pathinfo(x=xyz[q].copy())
            fr.correspond[q].nr = q + 1
            fr.correspond[q].p = [*ids[:, q], -1, -1, -1][:4]
        fr.num_parts = total
        for k in range(n):
            fr.targets[k], fr.num_targets[k] = targs[k], len(targs[k])
        check(fr.write(*(os.path.join(d, w) for w in ("rt_is", "ptv_is", "added")), flow.bases(d, s), first + t), "frame %d was not written", t)
        made.append(order)

    reach = 1.2 * case["speed"] + 0.5
    r = flow.run(d, s, first, first + T - 1, [-reach, reach] * 3, reach, 201.0, 0)
    flow.forward(r)
    out = [flow.read(d, s, first + t) for t in range(T)]
    pitch = max(s.cpar.pix_x, s.cpar.pix_y)
    for t in range(T):
        check(len(out[t]["pos"]) == len(pos), "frame %d holds %d particles of %d", t, len(out[t]["pos"]), len(pos))
        for q, i in enumerate(made[t]):
            base = max(
                np.linalg.norm(np.cross(s.views[a].trace(*fx[t, a, i])[1], s.views[b].trace(*fx[t, b, i])[1]))
                for a, b in itertools.combinations(see[i], 2)
            )
            scale = max(np.linalg.norm(v.pos - s.local(pos[i][t])) / v.cc for v in s.views)
            tol = (PX * pitch + 5e-4) * scale / base * 2 + 2e-3
            close(out[t]["pos"][q], s.local(pos[i][t]), tol, "frame %d: particle %d" % (t, i))
            for k in range(n):
                j = out[t]["corr"][q][k]
                check((j >= 0) == (k in see[i]), "frame %d: particle %d: target %d in camera %d", t, i, j, k)
                if j >= 0:
                    row = out[t]["targs"][k][j]
                    check(row[0] == j and row[7] == q, "frame %d camera %d: row of particle %d: %s", t, k, q, row)
                    check(np.hypot(row[1] - px[t, k, i][0], row[2] - px[t, k, i][1]) < PX, "frame %d camera %d: target of particle %d at %s", t, k, i, row[1:3])
            prev, nxt = out[t]["links"][q]
            check(prev == (made[t - 1].index(i) if t else -1), "frame %d: particle %d comes from %d", t, i, prev)
            check(nxt == (made[t + 1].index(i) if t + 1 < T else -2), "frame %d: particle %d goes to %d", t, i, nxt)
            close(out[t]["lpos"][q], out[t]["pos"][q], 1e-9, "position in ptv_is")
    check(r.npart == len(pos) * (T - 1) and r.nlinks == len(pos) * (T - 1), "%d particles and %d links counted", r.npart, r.nlinks)
    return ["cams%d" % n, "particles%d" % len(pos)] + (["nontrivial"] if len(pos) > 1 else [])


def judge_calibrate(case):
    """Images of a calibration target orient the cameras, which then measure other points."""
    from openptv_python.orientation import full_calibration, match_detection_to_ref, point_positions
    from openptv_python.parameters import OrientPar, TargetPar, VolumePar
    from openptv_python.segmentation import target_recognition
    from openptv_python.tracking_frame_buf import sort_target_y
    from openptv_python.trafo import dist_to_flat, pixel_to_metric
    from vp.gen import make_cal

    s, g = Scene(case["scene"]), rng(case["seed"])
    if s.views[0].water_top - s.center_local[2] < 14:
        raise Reject
    tp = TargetPar(gvthresh=[case["thr"]] * 4, discont=300, nnmin=3, nnmax=200, nxmin=1, nxmax=30, nymin=1, nymax=30, sumg_min=10, cr_sz=1)
    size = min(min(v.cam_local[2] / v.cc * p * m for p, m in ((s.cpar.pix_x, s.cpar.imx), (s.cpar.pix_y, s.cpar.imy))) for v in s.views)
    w = 0.33 * size
    grid = [np.array([x * w, y * w, z]) for x in (-1, -0.5, 0, 0.5, 1) for y in (-1, -0.4, 0.4, 1) for z in (-case["steps"], case["steps"])]
    found, off = [], 0.0
    ref, spots = [], [[] for _ in range(s.n)]
    for i in g.permutation(len(grid)):
        p = s.local(grid[i] + g.uniform(-0.3, 0.3, 3))
        q = [s.pixel(k, p) for k in range(s.n)]
        if all(9 < x < s.cpar.imx - 9 and 9 < y < s.cpar.imy - 9 for x, y in q) and all(np.hypot(x - a, y - b) > 15 for k, (x, y) in enumerate(q) for a, b in spots[k]):
            ref.append(p)
            for k in range(s.n):
                spots[k].append(q[k])
    if len(ref) < 12:
        return ["few"]
    ref = np.array(ref)
    cals = []
    for k, v in enumerate(s.views):
        img = render(case, s, g, [(q, (g.uniform(110, 250), g.uniform(0.9, 1.3))) for q in spots[k]])
        targs = sort_target_y(target_recognition(img, tp, k, s.cpar))
        check(len(targs) == len(ref), "camera %d: %d targets of %d dots", k, len(targs), len(ref))
        for q, f in enumerate(targs):
            f.pnr = q
        dist = np.linalg.norm(v.pos - s.center)
        da, dp, f = g.uniform(-1, 1, 3), g.uniform(-1, 1, 3), 0.004
        while True:  # a start that is off by some pixels
            cal = make_cal(dict(v.cal_case, pos=(v.pos + f * dist * dp).tolist(), ang=(np.array(v.ang) + f * da).tolist()))
            far = max(np.hypot(a - x, b - y) for p, (x, y) in zip(ref, spots[k]) for a, b in [pixel(cal, s, p)])
            if far < 6:
                break
            f *= 0.7
        off = max(off, far)
        sort = match_detection_to_ref(cal, ref, targs, s.cpar, 7)
        for i, (x, y) in enumerate(spots[k]):
            check(np.hypot(sort[i].x - x, sort[i].y - y) < PX and sort[i].pnr == i, "camera %d: dot %d at (%s, %s) got the target %s", k, i, x, y, sort[i])
        res, used, err = full_calibration(cal, ref, sort, s.cpar, OrientPar())
        check(list(used) == list(range(len(ref))), "camera %d: points %s of %d used", k, list(used), len(ref))
        check(np.abs(res).max() < PX * max(s.cpar.pix_x, s.cpar.pix_y), "camera %d: residual of %s mm", k, np.abs(res).max())
        cals.append(cal)

    # what the cameras measure inside the space the target filled
    world = [s.local(g.uniform(-0.8, 0.8, 3) * [w, w, case["steps"]]) for _ in range(5)]
    world = [p for p in world if all(0 < x < s.cpar.imx and 0 < y < s.cpar.imy for x, y in (s.pixel(k, p) for k in range(s.n)))]
    flat = np.array([[dist_to_flat(*pixel_to_metric(*s.pixel(k, p), s.cpar), cals[k], 1e-6) for k in range(s.n)] for p in world])
    if len(world):
        xyz, rcm = point_positions(flat, s.cpar.mm, cals, VolumePar())
        pitch = max(s.cpar.pix_x, s.cpar.pix_y)
        for i, p in enumerate(world):
            base = max(
                np.linalg.norm(np.cross(s.views[a].trace(*flat[i, a])[1], s.views[b].trace(*flat[i, b])[1]))
                for a, b in itertools.combinations(range(s.n), 2)
            )
            scale = max(np.linalg.norm(v.pos - p) / v.cc for v in s.views)
            tol = (PX * pitch + 5e-4) * scale / base * 2
            close(xyz[i], p, tol, "point measured with the calibrated cameras")
            check(rcm[i] < tol, "rays that miss each other by %s", rcm[i])
    return ["nontrivial"] if off > 1 else ["near"]


def pixel(cal, s, p):
    from openptv_python.imgcoord import img_coord
    from openptv_python.trafo import metric_to_pixel

    return metric_to_pixel(*img_coord(p, cal, s.cpar.mm), s.cpar)


case_st = st.fixed_dictionaries(
    {
        "scene": scene(
            2, 4, mm=st.one_of(st.just(AIR), st.just({"n1": 1.0, "n2": [1.46], "d": [6.0], "n3": 1.33}), media(1, 10.0)),
            aps=st.one_of(st.just(IDENT_AP), added_pars(0.5)), h=(200, 450),
            sensor=st.fixed_dictionaries({"imx": st.integers(180, 260), "imy": st.integers(170, 240), "pix": st.tuples(fl(0.045, 0.055), fl(0.045, 0.055)).map(list)}),
        ),
        "seed": seeds(),
        "T": st.sampled_from([4, 3, 5, 6]),
        "first": st.sampled_from([1, 10001, 99]),
        "npts": st.sampled_from([4, 6, 2, 8, 1]),
        "tries": st.just(60),
        "speed": st.sampled_from([1.0, 0.5, 2.0, 0.0]),
        "miss": st.booleans(),
        "eps": st.sampled_from([0.04, 0.06]),
        "thr": st.sampled_from([12, 25]),
        "ground": st.sampled_from([0, 5, 9]),
        "files": st.booleans(),
        "lut": st.booleans(),
    }
)
calibrate_st = st.fixed_dictionaries(
    {
        "scene": scene(
            2, 4, mm=st.one_of(st.just(AIR), st.just({"n1": 1.0, "n2": [1.46], "d": [6.0], "n3": 1.33}), media(1, 10.0)),
            aps=st.one_of(st.just(IDENT_AP), added_pars(0.5)), h=(200, 450),
            sensor=st.fixed_dictionaries({"imx": st.integers(180, 260), "imy": st.integers(170, 240), "pix": st.tuples(fl(0.045, 0.055), fl(0.045, 0.055)).map(list)}),
        ),
        "seed": seeds(),
        "steps": st.sampled_from([8.0, 5.0]),
        "thr": st.sampled_from([12, 25]),
        "ground": st.sampled_from([0, 5, 9]),
    }
)
SUBS = [Sub("chain", case_st, judge, 120), Sub("calibrate", calibrate_st, judge_calibrate, 80)]
