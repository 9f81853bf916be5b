"""C24 - the observed volume covers what the cameras see, and a tracking run starts from what its files say."""
import math
import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check, close
from vp.gen import IDENT_AP, Scene, fl, rng, scene, seeds

PROPERTY = "C24"
RULE = (
    "Generated rigs of one to four cameras behind glass and starting bounds of any size, depth ranges in the water, sloping or "
    "not; generated tracking, sequence, volume and control files; non-trivial: the cameras extend the bounds in at "
    "least one direction (volume), or every parameter differs from its default (files)."
)
ASSUMPTIONS = [
    "The principal point is at the sensor centre (the code shifts by it before correcting distortion, other parts after).",
    "The iterative distortion correction is accurate to a small part of the sensor; corners are compared within what that "
    "moves them.",
]


def corners(s, k):
    """Flat image coordinates of the four corners of the sensor: the check's own inverse of the distortion."""
    cp = s.cpar
    cal = s.views[k].cal_case
    k1, k2, k3, p1, p2, scx, she = cal["ap"]
    out = []
    for sx in (-1, 1):
        for sy in (-1, 1):
            xd, yd = sx * cp.imx * cp.pix_x / 2, sy * cp.imy * cp.pix_y / 2
            from openptv_python.trafo import dist_to_flat

            out.append(dist_to_flat(xd, yd, s.cals[k], 1e-8))
    return out


def judge_volume(case):
    from openptv_python.multimed import volumedimension
    from openptv_python.parameters import SequencePar, TrackPar, VolumePar, convert_track_par_to_tuple
    from openptv_python.tracking_run import TrackingRun

    sc = dict(case["scene"])
    sc["cams"] = [dict(c, pp=[0.0, 0.0, c["pp"][2]]) for c in sc["cams"]]
    s = Scene(sc)
    top = s.v0.water_top - 1
    z = [s.center[2] + d for d in case["dz"]]
    zmin, zmax = [min(z[0], z[1]), min(z[2], z[3])], [max(z[0], z[1]), max(z[2], z[3])]
    lo, hi = min(zmin), max(zmax)
    xs, ys = [case["x"][0], case["x"][1]], [case["y"][0], case["y"][1]]
    want_x, want_y = list(xs), list(ys)
    grown = False
    reach = []
    for k in range(s.n):
        for x, y in corners(s, k):
            r = s.views[k].trace(x, y)
            if r is None:
                return ["steep"]
            p, a = r
            for zz in (lo, hi):
                q = p + (zz - p[2]) / a[2] * a
                if s.views[k].to_local(q)[2] > s.v0.water_top:
                    return ["above water"]
                reach.append(q)
                if not (want_x[0] <= q[0] <= want_x[1] and want_y[0] <= q[1] <= want_y[1]):
                    grown = True
                want_x = [min(want_x[0], q[0]), max(want_x[1], q[0])]
                want_y = [min(want_y[0], q[1]), max(want_y[1], q[1])]
    # the stopping rule of the distortion correction, as far as it moves the corners
    tol = 1e-4 * max(np.linalg.norm(q - v.pos) for q in reach for v in s.views) if case["distorted"] else 1e-6
    vp = VolumePar(x_lay=list(xs), z_min_lay=list(zmin), z_max_lay=list(zmax), cn=0.3, cnx=0.3, cny=0.3, csumg=0.2, eps0=0.1, corrmin=20)
    got = volumedimension(xs[1], xs[0], ys[1], ys[0], zmax[1], zmin[0], vp, s.cpar, s.cals)
    want = [want_x[1], want_x[0], want_y[1], want_y[0], hi, lo]
    for g_, w, n in zip(got, want, "xmax xmin ymax ymin zmax zmin".split()):
        close(g_, w, tol, n)
    # whatever order the cameras come in
    perm = list(rng(case["seed"]).permutation(s.n))
    got2 = volumedimension(xs[1], xs[0], ys[1], ys[0], zmax[1], zmin[0], vp, s.cpar, [s.cals[i] for i in perm])
    close(got2, got, 1e-12, "volume with the cameras in another order")
    # a volume that covers what is seen is not extended again
    got3 = volumedimension(*got, vp, s.cpar, s.cals)
    close(got3, got, 0, "volume extended a second time")

    d = case["dv"]
    tp = TrackPar(
        dvxmin=-d[0], dvxmax=d[1], dvymin=-d[2], dvymax=d[3], dvzmin=-d[4], dvzmax=d[5], dangle=100.0, dacc=1.0, add=0,
        dsumg=0, dn=0, dnx=0, dny=0,
    )
    seq = SequencePar(["cam%d." % (k + 1) for k in range(s.n)], 10, 20)
    t = TrackingRun(
        seq, convert_track_par_to_tuple(tp), vp, s.cpar, 4, 100, "rt_is", "ptv_is", "added", s.cals, 1e-4
    )
    close(t.lmax, math.sqrt((d[0] + d[1]) ** 2 + (d[2] + d[3]) ** 2 + (d[4] + d[5]) ** 2), 1e-9 * (1 + t.lmax), "lmax")
    check(t.npart == 0 and t.nlinks == 0, "counts start at %d, %d", t.npart, t.nlinks)
    rx = [min(want_x[0], xs[0]), max(want_x[1], xs[1])]
    close([t.vpar.x_lay[0], t.vpar.x_lay[1]], rx, tol, "x range of the run")
    ry = [min([0.0] + [q[1] for q in reach]), max([0.0] + [q[1] for q in reach])]
    close([t.ymin, t.ymax], ry, tol, "y range of the run")
    close([t.vpar.z_min_lay[0], t.vpar.z_max_lay[1]], [lo, hi], 0, "z range of the run")
    check(len(t.fb.buf) == 4 and t.fb.num_cams == s.n, "buffer of %d frames, %d cameras", len(t.fb.buf), t.fb.num_cams)
    return ["nontrivial"] if grown else ["inside"]


def judge_files(case):
    from openptv_python.tracking_run import tr_new

    s = Scene(case["scene"])
    d = tempfile.mkdtemp(dir=".")
    c, n = case, s.n
    m = case["scene"]["mm"]

    def put(name, rows):
        path = Path(d) / name
        with open(path, "w") as f:
            f.write("\n".join(str(r) for r in rows) + "\n")
        return path

    ptv = [n]
    for k in range(n):
        ptv += ["img/cam%d.%d" % (k + 1, c["first"]), "cal/cam%d.tif" % (k + 1)]
    ptv += [1, 0, 1, s.cpar.imx, s.cpar.imy, repr(s.cpar.pix_x), repr(s.cpar.pix_y), 0]
    ptv += [repr(m["n1"]), repr(m["n2"][0]), repr(m["n3"]), repr(m["d"][0])]
    f_ptv = put("ptv.par", ptv)
    names = ["img/c%d_" % (k + 1) for k in range(n)]
    f_seq = put("sequence.par", names + [c["first"], c["first"] + c["len"]])
    t = c["track"]
    f_track = put("track.par", ["%.6f" % x for x in t[:8]] + [c["add"]])
    z = s.center[2]
    vol = ["%.6f" % x for x in (-200, z - 10, z + 10, 200, z - 11, z + 12, 0.4, 0.3, 0.2, 0.02, 33, 0.2)]
    f_vol = put("criteria.par", vol)
    run = tr_new(f_seq, f_track, f_vol, f_ptv, c["buf"], c["max"], d + "/rt", d + "/ptv", d + "/add", s.cals, c["tol"])
    names_t = "dvxmin dvxmax dvymin dvymax dvzmin dvzmax dangle dacc".split()
    for k, v in zip(names_t, t):
        close(getattr(run.tpar, k), float("%.6f" % v), 0, k)
    check(run.tpar.add == c["add"], "add: %r", run.tpar.add)
    check((run.seq_par.first, run.seq_par.last) == (c["first"], c["first"] + c["len"]), "sequence %r", run.seq_par)
    check(list(run.seq_par.img_base_name) == names, "names of the sequence: %r", run.seq_par.img_base_name)
    check(run.cpar.num_cams == n and run.cpar.imx == s.cpar.imx and run.cpar.imy == s.cpar.imy, "control parameters: %r", run.cpar)
    close([run.cpar.mm.n1, run.cpar.mm.n2[0], run.cpar.mm.d[0], run.cpar.mm.n3], [m["n1"], m["n2"][0], m["d"][0], m["n3"]], 0, "media")
    close([run.vpar.cn, run.vpar.cnx, run.vpar.cny, run.vpar.csumg], [0.2, 0.4, 0.3, 0.02], 0, "criteria cn cnx cny csumg")
    close([run.vpar.corrmin, run.vpar.eps0], [33, 0.2], 0, "criteria corrmin eps0")
    close(run.lmax, math.sqrt(sum((float("%.6f" % t[2 * i]) - float("%.6f" % t[2 * i + 1])) ** 2 for i in range(3))), 1e-9, "lmax")
    check(run.flatten_tol == c["tol"], "tolerance %r", run.flatten_tol)
    check(len(run.fb.buf) == c["buf"] and run.fb.num_cams == n, "buffer %d frames %d cameras", len(run.fb.buf), run.fb.num_cams)
    check(run.cal is s.cals or list(run.cal) == list(s.cals), "other calibrations")
    return ["nontrivial"]


SC = scene(1, 4, aps=st.just(IDENT_AP))
SCD = scene(1, 4)

SUBS = [
    Sub(
        "volume",
        st.booleans().flatmap(
            lambda dist: st.fixed_dictionaries(
                dict(
                    scene=SCD if dist else SC, distorted=st.just(dist), seed=seeds(),
                    dz=st.one_of(
                        st.tuples(fl(-20, 0), fl(0, 20)).map(lambda t: [t[0], t[1], t[0], t[1]]),
                        st.lists(fl(-20, 20), min_size=4, max_size=4),
                    ),
                    x=st.tuples(fl(-200, 0), fl(0, 200)).map(list),
                    y=st.tuples(fl(-200, 0), fl(0, 200)).map(list),
                    dv=st.lists(fl(0, 30), min_size=6, max_size=6),
                )
            )
        ),
        judge_volume,
        quick=1500,
        thorough=40000,
    ),
    Sub(
        "files",
        st.fixed_dictionaries(
            dict(
                scene=scene(1, 4, aps=st.just(IDENT_AP)), first=st.integers(1, 20000), len=st.integers(0, 500),
                track=st.tuples(*[fl(-50, 0), fl(0, 50)] * 3, fl(0, 200), fl(0, 10)).map(list), add=st.integers(0, 1),
                buf=st.integers(1, 6), max=st.sampled_from([10, 1000]), tol=fl(1e-6, 1e-2),
            )
        ),
        judge_files,
        quick=300,
        thorough=6000,
    ),
]
