"""C10 - every correspondence is consistent, used once and the best available."""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check, close
from vp.gen import AIR, Scene, fl, make_cal, make_cpar, rng, scene, seeds

PROPERTY = "C10"
RULE = (
    "Generated rigs of two to four cameras, up to 30 space points (clustered, so that epipolar bands overlap) seen by "
    "random subsets of the cameras, clutter, cameras without targets, targets of different size, bands from narrow to "
    "much too wide, every all_cam_flag; non-trivial: at least one clique was taken and at least one admissible clique "
    "was refused in favour of a better one."
)
ASSUMPTIONS = [
    "Candidate lists per pair of cameras come from the library's own epi_mm and find_candidate (decided by C09).",
    "Cliques with equal quality (relative 1e-9) may be taken in either order.",
]


def make(case, s, g):
    from openptv_python.tracking_frame_buf import Target

    pts = [s.local(g.uniform(-1, 1, 3) * case["spread"]) for _ in range(case["npts"])]
    targs = []
    for k in range(s.n):
        xy = []
        for p in pts:
            if g.random() < case["seen"]:
                x, y = s.image_lib(k, p)
                xy.append((x + g.normal() * case["noise"], y + g.normal() * case["noise"]))
        for _ in range(case["clutter"]):
            xy.append((g.uniform(0, s.cpar.imx), g.uniform(0, s.cpar.imy)))
        if k == case["blind"]:
            xy = []
        g.shuffle(xy)
        if case["ysort"]:
            xy.sort(key=lambda t: t[1])
        ts = []
        for i, (x, y) in enumerate(xy):
            q = g.integers(*case["size"], 4)
            ts.append(Target(pnr=i, x=float(x), y=float(y), n=int(q[0]), nx=int(q[1]), ny=int(q[2]), sumg=int(q[3]), tnr=-1))
        targs.append(ts)
    return targs


def volume(s, case):
    from openptv_python.parameters import VolumePar

    z = s.center[2]
    cr = case["crit"]
    return VolumePar(
        x_lay=[-100.0, 100.0],
        z_min_lay=[z - case["half"]] * 2,
        z_max_lay=[z + case["half"]] * 2,
        cn=cr, cnx=cr, cny=cr, csumg=cr,
        eps0=case["eps"],
        corrmin=case["corrmin"],
    )


def adjacency(s, targs, flat, vp):
    from openptv_python.epi import epi_mm
    from openptv_python.find_candidate import find_candidate

    adj = {}
    for i1, i2 in itertools.combinations(range(s.n), 2):
        for i in range(len(targs[i1])):
            t = targs[i1][flat[i1][i].pnr]
            e = epi_mm(flat[i1][i].x, flat[i1][i].y, s.cals[i1], s.cals[i2], s.cpar.mm, vp)
            c = find_candidate(flat[i2], targs[i2], len(targs[i2]), *e, t.n, t.nx, t.ny, t.sumg, vp, s.cpar, s.cals[i2])
            adj[i1, i2, i] = {int(q.pnr): (float(q.corr), float(q.tol)) for q in c}
    return adj


def cliques(s, targs, adj, cams):
    """All cliques over exactly these cameras: tuple of (camera, index) -> quality."""
    out = {}

    def grow(members):
        if len(members) == len(cams):
            num = den = 0.0
            for (a, i), (b, j) in itertools.combinations(members, 2):
                c, d = adj[a, b, i][j]
                num, den = num + c, den + d
            out[tuple(members)] = num / den if den > 0 else np.inf
            return
        cam = cams[len(members)]
        a, i = members[0]
        for j in adj[a, cam, i]:
            if all(j in adj[b, cam, m] for b, m in members[1:]):
                grow(members + [(cam, j)])

    for i in range(len(targs[cams[0]])):
        grow([(cams[0], i)])
    return out


def judge(case):
    from openptv_python import correspondences as corr_module
    from openptv_python.correspondences import py_correspondences
    from openptv_python.tracking_frame_buf import match_coords

    if hasattr(corr_module, "MAX_TARGETS"):
        corr_module.MAX_TARGETS = 64  # places for targets made in advance, never used: 0.3 s per call
    s = Scene(case["scene"], all_cam=case["all_cam"])
    g = rng(case["seed"])
    targs = make(case, s, g)
    vp = volume(s, case)
    flat = [match_coords(t, s.cpar, c, 1e-5) for t, c in zip(targs, s.cals)]
    adj = adjacency(s, targs, flat, vp)

    work = 0  # the library's search is exhaustive, and so is ours
    for k in range(s.n - 1):
        for i in range(len(targs[k])):
            work += np.prod([1 + len(adj[k, j, i]) for j in range(k + 1, s.n)])
    if work > 1500:
        return ["crowded"]

    keep = copy.deepcopy((targs, vp, flat))
    pos, ids, total = py_correspondences(targs, flat, s.cals, vp, s.cpar)
    check(vp == keep[1], "the volume parameters were changed")
    for a, b in zip(flat, keep[2]):
        check((a == b).all(), "the flat coordinates were changed")

    n = s.n
    check(len(pos) == n - 1 and len(ids) == n - 1, "%d classes of cliques for %d cameras", len(ids), n)
    check(total == sum(i.shape[1] for i in ids), "the total is %d, the classes hold %s", total, [i.shape for i in ids])
    where = [{int(f.pnr): i for i, f in enumerate(fl_)} for fl_ in flat]  # target number -> index in flat table
    used = [dict() for _ in range(n)]  # camera -> index -> (class size, quality)
    tnr = [dict() for _ in range(n)]
    refused = taken_any = 0
    order = 0
    for cls in range(n - 1):
        size = n - cls
        check(ids[cls].shape == (n, pos[cls].shape[1]) and pos[cls].shape == (n, ids[cls].shape[1], 2), "shapes of class %d", size)
        runs = size == n or (size == 2 and not s.cpar.all_cam_flag) or (size == 3 and not s.cpar.all_cam_flag)
        if n == 2:
            runs = not s.cpar.all_cam_flag
        if not runs:
            check(ids[cls].shape[1] == 0, "cliques of %d cameras although every camera is asked for", size)
            continue
        every = {}
        for cams in itertools.combinations(range(n), size):
            every.update(cliques(s, targs, adj, cams))
        before = [dict(u) for u in used]
        if size == 2:
            every = {m: q for m, q in every.items() if len(adj[m[0][0], m[1][0], m[0][1]]) == 1}
        if size < n:
            every = {m: q for m, q in every.items() if not any(i in before[c] for c, i in m)}
        every = {m: q for m, q in every.items() if q > vp.corrmin}
        sure = {m: q for m, q in every.items() if q > vp.corrmin * (1 + 1e-9)}
        last = np.inf
        for k in range(ids[cls].shape[1]):
            m = []
            for c in range(n):
                t = int(ids[cls][c, k])
                if t == -1:
                    check((pos[cls][c, k] == -999).all(), "a position without a target")
                    continue
                check(t in where[c], "camera %d has no target %d", c, t)
                check(tuple(pos[cls][c, k]) == (targs[c][t].x, targs[c][t].y), "position of target %d in camera %d", t, c)
                m.append((c, where[c][t]))
                check(where[c][t] not in used[c], "target %d of camera %d is used twice", t, c)
                tnr[c][t] = order
            m = tuple(m)
            check(len(m) == size, "a clique of %d cameras among those of %d", len(m), size)
            q = every.get(m)
            if q is None:
                q = every.get(m, cliques(s, targs, adj, [c for c, _ in m]).get(m))
                check(q is not None, "clique %s is not mutually consistent", m)
                check(q >= vp.corrmin * (1 - 1e-9), "clique %s has quality %r below the minimum", m, q)
                check(size > 2 or len(adj[m[0][0], m[1][0], m[0][1]]) == 1, "pair %s is not the only candidate", m)
            for c, i in m:
                used[c][i] = (size, q)
            check(q <= last * (1 + 1e-9), "quality %r after %r", q, last)
            last = q
            order += 1
            taken_any += 1
        # nothing better, or still possible, was left out
        for m, q in sure.items():
            best = max([used[c][i][1] for c, i in m if i in used[c] and i not in before[c]], default=None)
            check(best is not None, "the admissible clique %s was not taken and uses free targets only", m)
            check(best >= q * (1 - 1e-9), "clique %s of quality %r was refused for one of quality %r", m, q, best)
            refused += not all(used[c].get(i, (0, 0))[1] == q for c, i in m)
    for c in range(n):
        for t0, t in zip(keep[0][c], targs[c]):
            want = tnr[c].get(t.pnr, t0.tnr)
            check(t.tnr == want, "target %d of camera %d points to clique %d instead of %d", t.pnr, c, t.tnr, want)
            t.tnr = t0.tnr
            check(t == t0, "a target was changed")
    labels = ["cams%d" % n, "allcam%d" % case["all_cam"]]
    if taken_any and refused:
        labels.append("nontrivial")
    return labels


case_st = st.fixed_dictionaries(
    {
        "scene": scene(2, 4, mm=st.one_of(st.just(AIR), st.just({"n1": 1.0, "n2": [1.46], "d": [6.0], "n3": 1.33}))),
        "seed": seeds(),
        "npts": st.sampled_from([8, 12, 5, 16, 3, 22, 10, 14, 2, 30, 1, 0]),
        "spread": st.sampled_from([12.0, 12.0, 3.0, 0.6]),
        "seen": st.sampled_from([1.0, 1.0, 0.85, 0.6]),
        "noise": st.sampled_from([0.0, 0.2, 1.0]),
        "clutter": st.sampled_from([0, 0, 2, 6]),
        "blind": st.sampled_from([-1] * 8 + [0, 1, 2, 3]),
        "ysort": st.booleans(),
        "size": st.sampled_from([[10, 11], [8, 13], [2, 30]]),
        "crit": st.sampled_from([0.0, 0.02, 0.3, 0.6]),
        "half": st.sampled_from([13.0, 13.0, 30.0]),
        "eps": st.one_of(st.sampled_from([0.1, 0.2, 0.05, 0.01, 0.3]), fl(0.003, 0.6)),
        "corrmin": st.sampled_from([0.0, 10.0, 33.0, 2000.0, 10000.0]),
        "all_cam": st.integers(0, 1),
    }
)

def judge_single(case):
    """With one camera every target is its own correspondence, in the order of x."""
    from openptv_python.correspondences import py_correspondences
    from openptv_python.tracking_frame_buf import Target, match_coords

    g = rng(case["seed"])
    n = case["n"]
    cp = make_cpar({"num_cams": 1, "imx": 1280, "imy": 1024, "pix": [0.012, 0.011], "mm": AIR})
    cal = make_cal({"pos": [0, 0, 100], "ang": [0, 0, 0], "pp": case["pp"]})
    ts = [Target(pnr=i, x=float(x), y=float(y), n=5, nx=2, ny=3, sumg=9, tnr=-1) for i, (x, y) in enumerate(g.uniform(0, 1000, (n, 2)))]
    keep = copy.deepcopy(ts)
    flat = [match_coords(ts, cp, cal, 1e-5)]
    pos, ids, total = py_correspondences([ts], flat, [cal], None, cp)
    order = sorted(range(n), key=lambda i: ts[i].x)
    check(total == n and len(pos) == 1 and len(ids) == 1, "%d correspondences of %d targets", total, n)
    check(ids[0].shape == (1, n) and ids[0][0].tolist() == order, "order of the targets")
    for k, i in enumerate(order):
        check(tuple(pos[0][0, k]) == (keep[i].x, keep[i].y), "position %d", k)
        check(ts[i].tnr == k, "target %d points to %d", i, ts[i].tnr)
        keep[i].tnr = k
    check(ts == keep, "a target was changed")
    return ["nontrivial"] if n > 1 and order != list(range(n)) else []


single_st = st.fixed_dictionaries(
    {"seed": seeds(), "n": st.integers(0, 30), "pp": st.tuples(fl(-1, 1), fl(-1, 1), fl(40, 90)).map(list)}
)

CROWD = dict(
    npts=st.sampled_from([60, 110, 160, 240]), spread=st.sampled_from([12.0, 20.0]), noise=st.sampled_from([0.0, 0.2]), blind=st.just(-1),
    eps=st.sampled_from([0.02, 0.01]), half=st.just(13.0), corrmin=st.sampled_from([0.0, 33.0]), clutter=st.sampled_from([0, 20]),
)
crowd_st = st.tuples(case_st, st.fixed_dictionaries(CROWD)).map(lambda t: {**t[0], **t[1]})

SUBS = [Sub("cliques", case_st, judge, 2000), Sub("crowd", crowd_st, judge, 60), Sub("single", single_st, judge_single, 200)]
