"""C11 - separated points are all matched, in every camera that sees them, and located."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check, close
from vp.gen import AIR, Scene, fl, media, rng, scene, seeds

PROPERTY = "C11"
RULE = (
    "Generated rigs of two to four cameras behind glass, up to 14 points in the volume, each seen by a random subset "
    "of at least two cameras, plus clutter; targets that fall into the epipolar band of a point they do not belong to "
    "(computed with the reference model, band widened by 50%) are removed first; non-trivial: at least two points "
    "and all of them are expected as cliques."
)
ASSUMPTIONS = [
    "Separation is decided by the check's own refraction model; the search band is wider than the curvature of the "
    "epipolar lines plus the stopping rule of the projection.",
    "Positions are compared within the error the pixel noise and the projection's stopping rule can cause.",
]


def judge(case):
    from openptv_python import correspondences as corr_module
    from openptv_python.correspondences import py_correspondences
    from openptv_python.orientation import point_positions
    from openptv_python.parameters import VolumePar
    from openptv_python.tracking_frame_buf import Target, match_coords
    from openptv_python.trafo import dist_to_flat, pixel_to_metric

    if hasattr(corr_module, "MAX_TARGETS"):
        corr_module.MAX_TARGETS = 64
    s = Scene(case["scene"], all_cam=0)
    g = rng(case["seed"])
    n, half = s.n, 10.0
    pts = [s.local(g.uniform(-6, 6, 3)) for _ in range(case["npts"])]
    z = s.center[2]
    vp = VolumePar(
        x_lay=[-100.0, 100.0], z_min_lay=[z - half] * 2, z_max_lay=[z + half] * 2,
        cn=0.3, cnx=0.3, cny=0.3, csumg=0.2, eps0=case["eps"], corrmin=case["corrmin"],
    )
    # who sees what; image points (pixels), flat image points as the library will see them
    see, px, fx = {}, {}, {}
    for i, p in enumerate(pts):
        if case["all_seen"]:
            ks = list(range(n))
        else:
            ks = sorted(g.permutation(n)[: g.integers(2, n + 1)])
        for k in ks:
            x, y = s.pixel(k, p)
            x, y = x + g.normal() * case["noise"], y + g.normal() * case["noise"]
            if not (3 < x < s.cpar.imx - 3 and 3 < y < s.cpar.imy - 3):
                return ["outside"]
            px[k, i] = (x, y)
        see[i] = ks
    for c in range(case["clutter"]):
        k = int(g.integers(0, n))
        i = case["npts"] + c
        px[k, i] = (g.uniform(5, s.cpar.imx - 5), g.uniform(5, s.cpar.imy - 5))
        see[i] = [k]
    for (k, i), q in px.items():
        fx[k, i] = dist_to_flat(*pixel_to_metric(*q, s.cpar), s.cals[k], 1e-5)

    def line(k, i, j):
        """Reference epipolar segment in camera j of the image of i in camera k."""
        r = s.views[k].trace(*fx[k, i])
        out, t = [], 0.0
        for zz in (z - half, z + half):
            q = r[0] + (zz - r[0][2]) / r[1][2] * r[1]
            if s.views[j].to_local(q)[2] > s.views[j].water_top - 0.5:
                return None
            sl = s.views[j].slack(q)
            if sl is None:
                return None
            out.append(np.array(s.views[j].image(q)))
            t = max(t, sl)
        return out[0], out[1], t

    # a target is in the way when it lies in the band of another point's line
    bad = set()
    for k, j in itertools.combinations(range(n), 2):
        for (k1, i) in fx:
            if k1 != k:
                continue
            e = line(k, i, j)
            if e is None:
                return ["steep"]
            a, b, t = e
            u = (b - a) / np.linalg.norm(b - a)
            for (j1, m) in fx:
                if j1 != j:
                    continue
                w = np.array(fx[j, m]) - a
                d = abs(w[0] * u[1] - w[1] * u[0])
                if m == i:
                    if d > 0.8 * case["eps"] - t:
                        return ["curved"]
                elif d < 1.5 * case["eps"] + t and -5 * case["eps"] < w @ u < np.linalg.norm(b - a) + 5 * case["eps"]:
                    bad.update([m if m >= case["npts"] else max(m, i)])
    # a clutter target is alone, points keep their order: the later one of two goes
    for i in bad:
        for k in see.pop(i, []):
            px.pop((k, i))
    live = [i for i in see if i < case["npts"]]

    targs, own = [], []
    for k in range(n):
        here = [i for i in see if (k, i) in px]
        here = [here[q] for q in g.permutation(len(here))]
        if case["ysort"]:
            here.sort(key=lambda i: px[k, i][1])
        targs.append([Target(pnr=q, x=px[k, i][0], y=px[k, i][1], n=12, nx=4, ny=3, sumg=int(150 + i)) for q, i in enumerate(here)])
        own.append(here)
    flat = [match_coords(t, s.cpar, c, 1e-5) for t, c in zip(targs, s.cals)]
    pos, ids, total = py_correspondences(targs, flat, s.cals, vp, s.cpar)

    found = {}
    for c, p in zip(ids, pos):
        for q in range(c.shape[1]):
            members = [own[k][c[k, q]] if c[k, q] >= 0 else None for k in range(n)]
            named = {m for m in members if m is not None}
            check(len(named) == 1, "a clique joins the images of different points: %s", members)
            i = named.pop()
            check(i in live and i not in found, "clique of %s", i)
            found[i] = [k for k in range(n) if members[k] is not None]
            check(found[i] == list(see[i]), "point %d is seen by cameras %s, matched in %s", i, list(see[i]), found[i])
            for k in range(n):
                if k in see[i]:
                    check(tuple(p[k, q]) == px[k, i], "image point of %d in camera %d", i, k)
                    t = targs[k][c[k, q]]
                    check(t.tnr == list(found).index(i), "target of point %d has tnr %d", i, t.tnr)
    for i in live:
        check(i in found, "point %d, seen by cameras %s, was not matched", i, list(see[i]))
    check(total == len(live), "%d cliques for %d points", total, len(live))
    if not live:
        return []

    # located
    sel = np.full((len(live), n, 2), -1e10)
    for q, i in enumerate(live):
        for k in see[i]:
            sel[q, k] = fx[k, i]
    xyz, rcm = point_positions(sel, s.cpar.mm, s.cals, vp)
    pitch = max(s.cpar.pix_x, s.cpar.pix_y)
    for q, i in enumerate(live):
        base = min(
            np.linalg.norm(np.cross(s.views[a].trace(*fx[a, i])[1], s.views[b].trace(*fx[b, i])[1]))
            for a, b in itertools.combinations(see[i], 2)
        )
        scale = max(np.linalg.norm(v.pos - pts[i]) / v.cc for v in s.views)
        tol = (case["noise"] * pitch * 6 + 2e-4) * scale / base * 2
        close(xyz[q], pts[i], tol, "position of point %d" % i)
    labels = ["cams%d" % n] + ["seen%d" % len(see[i]) for i in live]
    if len(live) > 1:
        labels.append("nontrivial")
    return labels


case_st = st.fixed_dictionaries(
    {
        "scene": scene(2, 4, mm=st.one_of(st.just(AIR), st.just({"n1": 1.0, "n2": [1.46], "d": [6.0], "n3": 1.33}), media(1, 10.0))),
        "seed": seeds(),
        "npts": st.sampled_from([4, 6, 8, 2, 14, 10, 1]),
        "all_seen": st.booleans(),
        "noise": st.sampled_from([0.0, 0.0, 0.02]),
        "clutter": st.sampled_from([0, 0, 3, 8]),
        "eps": st.sampled_from([0.01, 0.006, 0.02]),
        "corrmin": st.sampled_from([0.0, 33.0]),
        "ysort": st.booleans(),
    }
)

SUBS = [Sub("recover", case_st, judge, 800)]
