"""C18 - the frame buffer is a ring over the files of a sequence."""
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.c17 import compare, frames
from vp.core import Sub, check, close
from vp.gen import seeds

PROPERTY = "C18"
RULE = (
    "Histories of up to 40 operations (advance, go back, read with and without links by either entry point, write, "
    "change the links of a particle in memory) on a buffer of 1 to 5 frames over sequences of 2 to 7 frames of one to "
    "four cameras, some with missing files; non-trivial: a frame was read, changed in memory, moved, and written or "
    "overwritten."
)
ASSUMPTIONS = ["A read that fails leaves the contents of the last frame open, not those of the others."]



def clone(v):
    return json.loads(json.dumps(v))  # nothing shared inside


@st.composite
def cases(draw):
    cams = draw(st.integers(1, 4))
    n = draw(st.sampled_from([3, 5, 2, 7]))
    fr = []
    for _ in range(n):
        f = draw(frames())
        fr.append(dict(f, cams=cams, targs=(f["targs"] * 4)[:cams], parts=[dict(p, p=[-1] * 4) for p in f["parts"][:8]]))
    for f in fr:
        f["targs"] = [t[:5] for t in f["targs"]]
    op = st.one_of(
        st.just(["next"]), st.just(["next"]), st.just(["prev"]),
        st.tuples(st.sampled_from(["read", "read", "disk"]), st.integers(0, n), st.booleans()).map(list),
        st.tuples(st.just("write"), st.integers(0, n - 1)).map(list),
        st.tuples(st.just("edit"), st.integers(0, 4), st.integers(0, 7), st.integers(0, 30), st.integers(-1, 30)).map(list),
        st.tuples(st.just("target"), st.integers(0, 4), st.integers(0, 7), st.integers(0, 4), st.integers(-1, 30)).map(list),
    )
    step = st.tuples(st.just("step"), st.integers(0, n - 1), st.integers(0, 7), st.booleans()).map(list)
    op = st.one_of(op, op, op, step)
    return {
        "prime": draw(st.booleans()), "cams": cams, "frames": fr, "len": draw(st.sampled_from([4, 4, 3, 5, 2, 1])), "first": draw(st.sampled_from([1, 10001, 497])),
        "lost": draw(st.one_of(st.just(-1), st.integers(0, n - 1))), "what": draw(st.sampled_from(["rt", "ptv", "add", "targ"])),
        "ops": draw(st.lists(op, min_size=12, max_size=40)),
    }


def put(d, c, k):
    f, num = c["frames"][k], c["first"] + k

    def rows(base, rr):
        with open(os.path.join(d, base + ".%d" % num), "w") as out:
            out.write("%d\n" % len(f["parts"]))
            for r in rr:
                out.write(" ".join(str(v) for v in r) + "\n")

    pos = [["%.3f" % v for v in p["x"]] for p in f["parts"]]
    rows("rt", [[i + 1] + x + p["p"] for i, (p, x) in enumerate(zip(f["parts"], pos))])
    rows("ptv", [[p["prev"], p["next"]] + x for p, x in zip(f["parts"], pos)])
    rows("add", [[p["prev"], p["next"]] + x + [p["prio"]] for p, x in zip(f["parts"], pos)])
    for cam, ts in enumerate(f["targs"]):
        with open(os.path.join(d, "cam%d.%05d_targets" % (cam, num)), "w") as out:
            out.write("%d\n" % len(ts))
            for t in ts:
                out.write("%d %.4f %.4f %d %d %d %d %d\n" % tuple(t[k] for k in ("pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr")))


def judge(case):
    from openptv_python.tracking_frame_buf import FrameBuf

    c = case
    d = tempfile.mkdtemp(dir=".")
    n, length = len(c["frames"]), c["len"]
    for k in range(n):
        put(d, c, k)
    # what the files hold: per frame the particles (as last written) or None when a part is missing
    disk = [{"parts": f["parts"], "targs": f["targs"], "rt": True, "ptv": True, "add": True, "targ": True} for f in clone(c["frames"])]
    disk.append(None)
    if c["lost"] >= 0:
        num = c["first"] + c["lost"]
        disk[c["lost"]][c["what"]] = False
        name = "cam%d.%05d_targets" % (num % c["cams"], num) if c["what"] == "targ" else c["what"] + ".%d" % num
        os.remove(os.path.join(d, name))
    fb = FrameBuf(
        length, c["cams"], 4, os.path.join(d, "rt"), os.path.join(d, "ptv"), os.path.join(d, "add"),
        [os.path.join(d, "cam%d.%%05d" % k) for k in range(c["cams"])],
    )
    ring = [None] * length  # what each place holds; None: unknown
    check(len(fb.buf) == length == fb.buf_len and len({id(f) for f in fb.buf}) == length, "%d frames for a buffer of %d", len(fb.buf), length)
    read = edited = moved = written = False
    ops = [o for k in range(min(n, length)) for o in (["read", k, True], ["next"])] if c["prime"] else []
    for op in c["ops"]:
        if op[0] == "step":  # one step of tracking
            _, k, p, links = op
            ops += [["edit", 1, p, k, p], ["next"], ["write", k], ["read", (k + 3) % n, links]]
        else:
            ops.append(op)
    for op in ops:
        if op[0] == "next":
            fb.fb_next()
            ring = ring[1:] + ring[:1]
            moved = moved or edited
        elif op[0] == "prev":
            fb.fb_prev()
            ring = ring[-1:] + ring[:-1]
            moved = moved or edited
        elif op[0] in ("read", "disk"):
            _, k, links = op
            src = disk[k]
            want = src is not None and src["rt"] and src["targ"] and (not links or src["ptv"] and src["add"])
            try:
                ok = fb.read_frame_at_end(c["first"] + k, links) is None if op[0] == "read" else fb.disk_read_frame_at_end(c["first"] + k, links)
            except OSError:
                ok = False
            check(bool(ok) == want, "reading frame %d %s", k, "failed" if want else "succeeded although a file is missing")
            ring[-1] = None
            if want:
                parts = clone(src["parts"])
                if not links:
                    for p in parts:
                        p["prev"], p["next"], p["prio"] = -1, -2, None
                ring[-1] = {"parts": parts, "targs": clone(src["targs"])}
                read = True
        elif op[0] == "write":
            k = op[1]
            m = ring[0]
            if m is None:
                continue
            for p, q in zip(m["parts"], fb.buf[0].path_info):
                if p["prio"] is None:
                    p["prio"] = q.prio  # not prescribed; what is in memory is what gets written
            check(fb.write_frame_from_start(c["first"] + k), "writing failed")
            disk[k] = {"parts": clone(m["parts"]), "targs": clone(m["targs"]), "rt": True, "ptv": True, "add": True, "targ": True}
            written = written or moved
        elif op[0] == "edit":
            _, i, p, nxt, prv = op
            i %= length
            if ring[i] and ring[i]["parts"]:
                p %= len(ring[i]["parts"])
                fb.buf[i].path_info[p].next_frame, fb.buf[i].path_info[p].prev_frame = nxt, prv
                ring[i]["parts"][p]["next"], ring[i]["parts"][p]["prev"] = nxt, prv
                edited = edited or read
        elif op[0] == "target":
            _, i, cam, t, tnr = op
            i, cam = i % length, cam % c["cams"]
            if ring[i] and t < len(ring[i]["targs"][cam]):
                fb.buf[i].targets[cam][t].tnr = tnr
                ring[i]["targs"][cam][t]["tnr"] = tnr
        check(len(fb.buf) == length, "the buffer holds %d frames instead of %d", len(fb.buf), length)
        for i, m in enumerate(ring):
            if m is None:
                continue
            f = fb.buf[i]
            check(f.num_parts == len(m["parts"]), "place %d after %s: %d particles instead of %d", i, op[0], f.num_parts, len(m["parts"]))
            compare(f.correspond[: f.num_parts], f.path_info[: f.num_parts], m["parts"], True, None)
            for p, q in zip(m["parts"], f.path_info):
                check(p["prio"] is None or q.prio == p["prio"], "place %d after %s: priority %s", i, op[0], q.prio)
            for cam, ts in enumerate(m["targs"]):
                check(f.num_targets[cam] == len(ts), "place %d camera %d: %d targets instead of %d", i, cam, f.num_targets[cam], len(ts))
                for t, q in zip(ts, f.targets[cam]):
                    close((q.x, q.y), (t["x"], t["y"]), 1e-4, "target position")
                    check((q.pnr, q.n, q.nx, q.ny, q.sumg, q.tnr) == tuple(t[k] for k in ("pnr", "n", "nx", "ny", "sumg", "tnr")), "target %s instead of %s", q, t)
    return ["nontrivial"] if written else (["read"] if read else [])


SUBS = [Sub("history", cases(), judge, 500)]
