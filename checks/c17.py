"""C17 - files of a frame: particles, correspondences, links."""
import copy
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp.core import Reject, Sub, check, close
from vp.gen import fl, rng, seeds

PROPERTY = "C17"
RULE = (
    "Generated frames of 0 to 25 particles with any links, priorities and correspondences, one to four cameras with 0 "
    "to 25 targets, with and without linkage and priority files, other frames beside them, files of the check's own "
    "writer; non-trivial: at least two different particles, one of them linked."
)
ASSUMPTIONS = ["Positions are kept to the three decimals (targets: four) of the format."]


@st.composite
def frames(draw):
    n = draw(st.sampled_from([3, 5, 0, 1, 2, 8, 25]))
    g = rng(draw(seeds()))
    cams = draw(st.integers(1, 4))
    span = draw(st.sampled_from([1.0, 100.0, 5000.0]))
    nt = draw(st.sampled_from([4, 0, 1, 9, 25]))
    parts = []
    for i in range(n):
        parts.append(
            {
                "x": [float(v) for v in g.uniform(-span, span, 3)],
                "prev": int(g.integers(-1, 30)),
                "next": int(g.choice([-2, g.integers(0, 30)])),
                "prio": int(g.integers(0, 5)),
                "p": [int(g.integers(-1, nt)) if k < cams and nt else -1 for k in range(4)],
            }
        )
    targs = [
        [
            {
                "pnr": i, "x": float(g.uniform(0, 2000)), "y": float(g.uniform(0, 2000)), "n": int(g.integers(1, 50)),
                "nx": int(g.integers(1, 9)), "ny": int(g.integers(1, 9)), "sumg": int(g.integers(1, 5000)), "tnr": int(g.integers(-1, 30)),
            }
            for i in range(nt)
        ]
        for _ in range(cams)
    ]
    return {"cams": cams, "parts": parts, "targs": targs}


def fill(c, spare=0):
    from openptv_python.tracking_frame_buf import Frame, Pathinfo, Target

    n, nt = len(c["parts"]), max([len(t) for t in c["targs"]])
    f = Frame(c["cams"], max(1, n, nt) + spare)
    for i, p in enumerate(c["parts"]):
        f.path_info[i] = Pathinfo(x=np.array(p["x"]), prev_frame=p["prev"], next_frame=p["next"], prio=p["prio"])
        f.correspond[i].nr = i + 1
        f.correspond[i].p = p["p"]
    f.num_parts = n
    for k, ts in enumerate(c["targs"]):
        for i, t in enumerate(ts):
            f.targets[k][i] = Target(**t)
        f.num_targets[k] = len(ts)
    return f


def snapshot(f):
    return copy.deepcopy((f.path_info, f.correspond, f.targets, f.num_targets, f.num_parts))


def same_snapshot(a, b):
    return a[0] == b[0] and (a[1] == b[1]).all() and a[2:] == b[2:]


def compare(cor, path, parts, links, prio):
    check(len(cor) == len(parts) and len(path) == len(parts), "%d particles came back of %d", len(path), len(parts))
    for i, p in enumerate(parts):
        q = path[i]
        close(q.x, p["x"], 0.51e-3, "position of particle %d" % i)
        check(cor[i].nr == i + 1, "particle %d has number %d", i, cor[i].nr)
        check(cor[i].p.tolist() == p["p"], "particle %d has targets %s instead of %s", i, cor[i].p.tolist(), p["p"])
        want = (p["prev"], p["next"]) if links else (-1, -2)
        check((q.prev_frame, q.next_frame) == want, "particle %d is linked to %s instead of %s", i, (q.prev_frame, q.next_frame), want)
        want = p["prio"] if prio else 4
        check(prio is None or q.prio == want, "particle %d has priority %d instead of %d", i, q.prio, want)
        check(q.finaldecis == 1000000.0, "particle %d is decided at %s", i, q.finaldecis)
        check(q.inlist == 0, "particle %d has %d candidates", i, q.inlist)
        check(len(q.decis) == len(q.linkdecis) and (i == 0 or q.decis is not path[i - 1].decis), "candidate lists of particle %d", i)


def linked(parts):
    return len(parts) > 1 and parts[0] != parts[1] and any(p["next"] >= 0 or p["prev"] >= 0 for p in parts)


def parse(path):
    lines = open(path).read().splitlines()
    n = int(lines[0])
    return n, [[float(v) for v in ln.split()] for ln in lines[1:]]


def enlarge(f):
    """Frames of tens of thousands of particles and targets."""
    big = lambda v: v * 2473 if v > 0 else v  # noqa: E731
    return dict(f, parts=[dict(p, prev=big(p["prev"]), next=big(p["next"]), p=[big(v) for v in p["p"]]) for p in f["parts"]])


def judge_path(case):
    from openptv_python.tracking_frame_buf import read_path_frame, write_path_frame

    d = tempfile.mkdtemp(dir=".")
    rt, ptv, add = (os.path.join(d, n) for n in ("rt_is", "ptv_is", "added"))
    c, o, fr = case["frame"], case["other"], case["num"]
    if case["large"]:
        c = enlarge(c)
    f, fo = fill(c, case["spare"]), fill(o)
    snap = snapshot(f)
    prio = add if case["prio"] else ""
    check(write_path_frame(fo.correspond, fo.path_info, fo.num_parts, rt, ptv, add, fr + 1), "writing failed")
    check(write_path_frame(f.correspond, f.path_info, f.num_parts, rt, ptv, prio, fr), "writing failed")
    check(same_snapshot(snap, snapshot(f)), "writing changed the frame")
    want = {"%s.%d" % (n, k) for n in ("rt_is", "ptv_is", "added") for k in (fr, fr + 1)}
    if not case["prio"]:
        want.remove("added.%d" % fr)
    check(set(os.listdir(d)) == want, "files %s", sorted(os.listdir(d)))
    parts = c["parts"]
    # what is in the files
    n, rows = parse(rt + ".%d" % fr)
    check(n == len(parts) == len(rows), "%d announced, %d lines, %d particles", n, len(rows), len(parts))
    for i, (r, p) in enumerate(zip(rows, parts)):
        check(r[0] == i + 1 and r[4:] == p["p"], "rt_is line %d: %s", i, r)
        close(r[1:4], p["x"], 0.51e-3, "rt_is position")
    for base, extra in ((ptv, 0), (add, 1)):
        if base == add and not case["prio"]:
            continue
        n, rows = parse(base + ".%d" % fr)
        check(n == len(parts) == len(rows), "%s: %d announced, %d lines, %d particles", base, n, len(rows), len(parts))
        for i, (r, p) in enumerate(zip(rows, parts)):
            check(r[:2] == [p["prev"], p["next"]] and r[5:] == [p["prio"]] * extra, "link line %d: %s", i, r)
            close(r[2:5], p["x"], 0.51e-3, "link file position")
    compare(*read_path_frame(rt, "", "", fr), parts, False, False)
    compare(*read_path_frame(rt, ptv, "", fr), parts, True, False)
    if case["prio"]:
        compare(*read_path_frame(rt, ptv, add, fr), parts, True, True)
    cor, path = read_path_frame(rt, ptv, add, fr + 1)
    compare(cor, path, o["parts"], True, True)
    # a second round changes nothing
    write_path_frame(cor, path, len(path), rt, ptv, add, fr + 2)
    for n in ("rt_is", "ptv_is", "added"):
        a, b = (open(os.path.join(d, "%s.%d" % (n, k))).read() for k in (fr + 1, fr + 2))
        check(a == b, "%s changes in a second round", n)
    return ["nontrivial"] if linked(parts) else []


def judge_frame(case):
    from openptv_python.tracking_frame_buf import Frame

    d = tempfile.mkdtemp(dir=".")
    rt, ptv, add = (os.path.join(d, n) for n in ("rt_is", "ptv_is", "added"))
    c, o, fr = case["frame"], case["other"], case["num"]
    bases = [os.path.join(d, "cam%d.%%04d" % k) for k in range(c["cams"])]
    f = fill(c, case["spare"])
    snap = snapshot(f)
    prio = add if case["prio"] else ""
    check(f.write(rt, ptv, prio, bases, fr), "writing failed")
    check(same_snapshot(snap, snapshot(f)), "writing changed the frame")
    for k, b in enumerate(bases):
        n, rows = parse(b % fr + "_targets")
        check(n == len(rows) == len(c["targs"][k]), "targets of camera %d: %d announced, %d lines, %d targets", k, n, len(rows), len(c["targs"][k]))
    # into a frame that held another one
    o = dict(o, cams=c["cams"], targs=(o["targs"] * 4)[: c["cams"]])
    h = fill(o) if case["used"] else Frame(c["cams"], 4)
    check(h.read(rt, ptv if case["links"] else "", prio if case["links"] else "", bases, fr), "reading failed")
    check(h.num_parts == len(c["parts"]), "%d particles of %d", h.num_parts, len(c["parts"]))
    compare(h.correspond, h.path_info, c["parts"], case["links"], case["links"] and case["prio"])
    check(list(h.num_targets) == [len(t) for t in c["targs"]], "numbers of targets %s", list(h.num_targets))
    for k, ts in enumerate(c["targs"]):
        for a, b in zip(h.targets[k], f.targets[k][: len(ts)]):
            close((a.x, a.y), (b.x, b.y), 0.51e-4, "target position")
            check((a.pnr, a.n, a.nx, a.ny, a.sumg, a.tnr) == (b.pnr, b.n, b.nx, b.ny, b.sumg, b.tnr), "target %s instead of %s", a, b)
    for q, tol in ((f, 0.0), (h, 0.51e-3)):
        pos = q.positions()
        check(pos.shape == (len(c["parts"]), 3), "positions have shape %s", pos.shape)
        for i, p in enumerate(c["parts"]):
            close(pos[i], p["x"], tol, "positions()")
        for k in range(c["cams"]):
            xy = q.target_positions_for_camera(k)
            check(xy.shape == (len(c["parts"]), 2), "target positions have shape %s", xy.shape)
            for i, p in enumerate(c["parts"]):
                if p["p"][k] < 0:
                    check(np.isnan(xy[i]).all(), "particle %d has no target in camera %d, but %s", i, k, xy[i])
                else:
                    t = c["targs"][k][p["p"][k]]
                    close(xy[i], (t["x"], t["y"]), 0.51e-4, "target of particle %d in camera %d" % (i, k))
    # missing files are not empty frames
    gone = [p for p in [rt, ptv, add if case["prio"] else None] if p]
    victim = gone[case["num"] % len(gone)]
    os.remove(victim + ".%d" % fr)
    h = Frame(c["cams"], 4)
    try:
        ok = h.read(rt, ptv, prio, bases, fr)
    except OSError:
        ok = False
    check(not ok, "a frame without %s was read", os.path.basename(victim))
    check(not f.write(os.path.join(d, "no", "rt_is"), ptv, prio, bases, fr), "writing into a missing folder succeeded")
    check(not f.write(rt, ptv, prio, [os.path.join(d, "no", "cam.%04d")] * c["cams"], fr), "writing targets into a missing folder succeeded")
    check(f.write(rt, ptv, prio, bases, fr), "writing failed")
    os.remove(bases[-1] % fr + "_targets")
    try:
        ok = h.read(rt, ptv, prio, bases, fr)
    except OSError:
        ok = False
    check(not ok, "a frame without targets of the last camera was read")
    return ["nontrivial"] if linked(c["parts"]) else []


def judge_read(case):
    """Files of other writers."""
    from openptv_python.tracking_frame_buf import read_path_frame

    d = tempfile.mkdtemp(dir=".")
    rt, ptv, add = (os.path.join(d, n) for n in ("rt_is", "ptv_is", "added"))
    c, fr, sep, pad = case["frame"], case["num"], case["sep"], case["pad"]
    if case["large"]:
        c = enlarge(c)
    fmt = "%." + str(case["digits"]) + "f"
    parts = c["parts"]

    def put(base, rows):
        with open(base + ".%d" % fr, "w", newline="") as f:
            f.write("%s%d%s" % (pad, len(parts), case["end"]))
            for r in rows:
                f.write(pad + sep.join(r) + case["end"])

    pos = [[fmt % v for v in p["x"]] for p in parts]
    put(rt, [[str(i + case["first"])] + x + [str(v) for v in p["p"]] for i, (p, x) in enumerate(zip(parts, pos))])
    put(ptv, [[str(p["prev"]), str(p["next"])] + x for p, x in zip(parts, pos)])
    put(add, [[str(p["prev"]), str(p["next"])] + x + [str(p["prio"])] for p, x in zip(parts, pos)])
    compare(*read_path_frame(rt, ptv, add, fr), parts, True, True)
    compare(*read_path_frame(rt, "", "", fr), parts, False, False)
    for bases in ((rt + "x", ptv, add), (rt, ptv + "x", add), (rt, ptv, add + "x")):
        cor, path = read_path_frame(*bases, fr)
        check(len(cor) == 0 and len(path) == 0, "particles from missing files")
    return ["nontrivial"] if linked(parts) else []


def judge_info(case):
    """Path records: candidates are appended in order, resetting clears the links only, equality is by value."""
    from openptv_python.tracking_frame_buf import Pathinfo, compare_path_info

    g = rng(case["seed"])
    a, b, fresh = Pathinfo(), Pathinfo(), Pathinfo()
    k = case["k"]
    vals = [(float(v), int(i)) for v, i in zip(g.uniform(0, 9, k), g.integers(0, 99, k))]
    for i, (v, c) in enumerate(vals):
        a.register_link_candidate(v, c)
        check(a.inlist == i + 1, "%d candidates after %d were registered", a.inlist, i + 1)
    check(list(a.decis[:k]) == [v for v, _ in vals] and list(a.linkdecis[:k]) == [c for _, c in vals], "registered candidates")
    check(b == fresh and b.inlist == 0, "another record changed")
    a.x = np.array([1.0, 2.0, 3.0])
    a.prev_frame, a.next_frame, a.prio = 5, 6, 1
    twin = copy.deepcopy(a)
    check(a == twin and compare_path_info(a, twin), "equal records compare unequal")
    f = case["field"]
    setattr(twin, f, {"x": np.array([1.0, 2.0, 3.5]), "decis": [9.5] * len(a.decis), "linkdecis": [77] * len(a.decis)}.get(f, 333))
    check(a != twin and not compare_path_info(a, twin), "records with different %s compare equal", f)
    from openptv_python.tracking_frame_buf import Corres_dtype, compare_corres

    c1 = np.recarray((1,), dtype=Corres_dtype)
    c1.nr, c1.p = k, [[3, -1, 7, k]]
    c2 = c1.copy()
    check(compare_corres(c1, c2), "equal correspondences compare unequal")
    if case["seed"] % 5 == 4:
        c2.nr += 1
    else:
        c2.p[0][case["seed"] % 5] += 1
    check(not compare_corres(c1, c2), "different correspondences compare equal")
    a.reset_links()
    check((a.prev_frame, a.next_frame, a.prio) == (-1, -2, 2), "reset_links left %s", (a.prev_frame, a.next_frame, a.prio))
    check(a.inlist == k and list(a.x) == [1, 2, 3], "reset_links changed more than the links")
    return ["nontrivial"] if k else []


common = {
    "frame": frames(),
    "other": frames(),
    "num": st.one_of(st.integers(1, 300), st.integers(10000, 99990)),
    "large": st.booleans(),
    "prio": st.booleans(),
    "links": st.booleans(),
    "used": st.booleans(),
    "spare": st.sampled_from([0, 0, 3]),
}
SUBS = [
    Sub("path", st.fixed_dictionaries(common), judge_path, 500),
    Sub("frame", st.fixed_dictionaries(common), judge_frame, 400),
    Sub(
        "read",
        st.fixed_dictionaries(
            dict(
                common, sep=st.sampled_from([" ", "\t", "    "]), pad=st.sampled_from(["", " ", "\t"]),
                end=st.sampled_from(["\n", "\r\n", " \n"]), digits=st.integers(3, 12), first=st.sampled_from([1, 0]),
            )
        ),
        judge_read,
        300,
    ),
    Sub(
        "info",
        st.fixed_dictionaries(
            {"seed": seeds(), "k": st.integers(0, 80), "field": st.sampled_from(["x", "prev_frame", "next_frame", "prio", "decis", "finaldecis", "linkdecis", "inlist"])}
        ),
        judge_info,
        100,
    ),
]
