"""Sequences of frames for tracking: written, tracked, and read back with the check's own code."""
import os

import numpy as np


def frame(s, g, points, miss=0.0, free=(), clutter=0, order=True):
    """Targets and particles of one frame.

    ``points``: global positions of the particles; ``free``: positions whose images are
    there without a particle; ``miss``: how often a camera does not see a particle (at
    least two always do).  Returns a dict and, for every point, its particle number (None
    when fewer than two cameras have it on their sensors).
    """
    imx, imy = s.cpar.imx, s.cpar.imy
    perm = g.permutation(len(points)) if order else np.arange(len(points))
    rows = [[] for _ in range(s.n)]
    pos, number = [], [None] * len(points)
    for i in perm:
        p = points[i]
        seen = {}
        for k in range(s.n):
            x, y = s.image_lib(k, p)
            if 1 < x < imx - 1 and 1 < y < imy - 1:
                seen[k] = (float(x), float(y))
        keep = [k for k in seen if g.random() >= miss]
        if len(keep) < 2:
            keep = list(seen)[: max(2, len(keep))]
        if len(seen) < 2:
            continue
        number[i] = len(pos)
        for k in keep:
            rows[k].append((seen[k][1], seen[k][0], len(pos)))
        pos.append([round(float(v), 3) for v in p])
    for p in free:
        for k in range(s.n):
            x, y = s.image_lib(k, p)
            if 1 < x < imx - 1 and 1 < y < imy - 1:
                rows[k].append((float(y), float(x), -1))
    for k in range(s.n):
        for _ in range(clutter):
            rows[k].append((float(g.uniform(1, imy - 1)), float(g.uniform(1, imx - 1)), -1))
    corr = [[-1] * 4 for _ in pos]
    targs = []
    for k in range(s.n):
        rows[k] = sorted((round(y, 4), round(x, 4), i) for y, x, i in rows[k])
        for j, (y, x, i) in enumerate(rows[k]):
            if i >= 0:
                corr[i][k] = j
        targs.append([[j, x, y, 12, 4, 3, 120 + j, i] for j, (y, x, i) in enumerate(rows[k])])
    return {"pos": pos, "corr": corr, "targs": targs}, number


def bases(d, s):
    return [os.path.join(d, "cam%d." % (k + 1)) + "%05d" for k in range(s.n)]


def write(d, s, num, f, links=None):
    """links: (prev, next, prio) of every particle, or None for a frame that was never tracked."""
    with open(os.path.join(d, "rt_is.%d" % num), "w") as out:
        out.write("%d\n" % len(f["pos"]))
        for i, (x, p) in enumerate(zip(f["pos"], f["corr"])):
            out.write("%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n" % tuple([i + 1] + list(x) + list(p)))
    for k, b in enumerate(bases(d, s)):
        with open(b % num + "_targets", "w") as out:
            out.write("%d\n" % len(f["targs"][k]))
            for t in f["targs"][k]:
                out.write("%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n" % tuple(t))
    if links is not None:
        for name, extra in (("ptv_is", False), ("added", True)):
            with open(os.path.join(d, name + ".%d" % num), "w") as out:
                out.write("%d\n" % len(links))
                for (a, b, c), x in zip(links, f["pos"]):
                    out.write("%4d %4d %10.3f %10.3f %10.3f" % tuple([a, b] + list(x)) + (" %d\n" % c if extra else "\n"))


def rows(path):
    with open(path) as f:
        lines = f.read().split("\n")
    n = int(lines[0])
    body = [ln.split() for ln in lines[1:] if ln.strip()]
    assert len(body) == n, "%s announces %d lines and has %d" % (os.path.basename(path), n, len(body))
    return body


def read(d, s, num):
    rt = rows(os.path.join(d, "rt_is.%d" % num))
    ptv = rows(os.path.join(d, "ptv_is.%d" % num))
    add = rows(os.path.join(d, "added.%d" % num))
    return {
        "nr": [int(r[0]) for r in rt],
        "pos": [[float(v) for v in r[1:4]] for r in rt],
        "corr": [[int(v) for v in r[4:]] for r in rt],
        "links": [(int(r[0]), int(r[1])) for r in ptv],
        "lpos": [[float(v) for v in r[2:]] for r in ptv],
        "alinks": [(int(r[0]), int(r[1])) for r in add],
        "apos": [[float(v) for v in r[2:5]] for r in add],
        "prio": [int(r[5]) for r in add],
        "targs": [[[float(v) for v in r] for r in rows(b % num + "_targets")] for b in bases(d, s)],
    }


def run(d, s, first, last, dv, dacc, dangle, add, half=20.0, room=40):
    from openptv_python.parameters import SequencePar, TrackPar, VolumePar, convert_track_par_to_tuple
    from openptv_python.tracking_run import TrackingRun

    tp = TrackPar(
        dvxmin=dv[0], dvxmax=dv[1], dvymin=dv[2], dvymax=dv[3], dvzmin=dv[4], dvzmax=dv[5], dacc=dacc, dangle=dangle, add=add,
    )
    z = float(s.center[2])
    vp = VolumePar(x_lay=[-100.0, 100.0], z_min_lay=[z - half] * 2, z_max_lay=[z + half] * 2)
    sp = SequencePar(img_base_name=bases(d, s), first=first, last=last)
    rt, ptv, added = (os.path.join(d, n) for n in ("rt_is", "ptv_is", "added"))
    return TrackingRun(sp, convert_track_par_to_tuple(tp), vp, s.cpar, 4, room, rt, ptv, added, s.cals, 1e-4)


def forward(r):
    from openptv_python.track import track_forward_start, trackcorr_c_finish, trackcorr_c_loop

    track_forward_start(r)
    for step in range(r.seq_par.first, r.seq_par.last):
        trackcorr_c_loop(r, step)
    trackcorr_c_finish(r, r.seq_par.last)


def backward(r):
    from openptv_python.track import trackback_c

    return trackback_c(r)
