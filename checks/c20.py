"""C20 - tracking leaves consistent paths and touches nothing else, whatever the data."""
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import flow
from vp.core import Reject, Sub, check, close
from vp.gen import AIR, IDENT_AP, Scene, added_pars, fl, media, rng, scene, seeds

PROPERTY = "C20"
RULE = (
    "Generated sequences of 3 to 6 frames of up to 12 particles each in rigs of two to four cameras - wandering close "
    "to each other, appearing, disappearing, half seen, with free targets and clutter - tracked with any search volume "
    "and limits, with and without adding particles, forward only or also backwards; non-trivial: at least three links, "
    "and a particle that is not linked or was added."
)
ASSUMPTIONS = ["Files are compared at their printed precision. Priorities are left open."]


def sequence(case, s, g):
    """Particles of every frame: tracks with random steps, some of them absent or with free targets only."""
    T, m = case["T"], case["tracks"]
    x = g.uniform(-1, 1, (m, 3)) * case["spread"]
    v = g.uniform(-1, 1, (m, 3)) * case["step"]
    frames = []
    for t in range(T):
        state = g.random(m)
        if case.get("fade") and not (2 <= t < 2 + case["fade"]):
            state[:] = 1  # only in some frames are there targets without particles
        here = [s.local(p) for p, q in zip(x, state) if q > case["lost"]]
        free = [s.local(p) for p, q in zip(x, state) if case["lost"] * 0.3 < q <= case["lost"]]
        f, _ = flow.frame(s, g, here, case["miss"], free, case["clutter"])
        frames.append(f)
        x = x + v
        v = v + g.normal(size=(m, 3)) * case["turn"] * case["step"]
    return frames


def consistent(out, first, what):
    """Links lead to particles that know of them; returns the number of links."""
    n = 0
    T = len(out)
    for t, f in enumerate(out):
        m = len(f["pos"])
        check(f["nr"] == list(range(1, m + 1)), "%s: frame %d numbers its particles %s", what, t, f["nr"])
        check(f["links"] == f["alinks"], "%s: frame %d: the two link files differ", what, t)
        check(len(f["links"]) == m, "%s: frame %d has %d particles and %d links", what, t, m, len(f["links"]))
        close(f["lpos"], f["pos"], 1e-9, what + ": positions in the link file") if m else None
        close(f["apos"], f["pos"], 1e-9, what + ": positions in the priority file") if m else None
        for i, (prev, nxt) in enumerate(f["links"]):
            if prev >= 0:
                check(t > 0 and prev < len(out[t - 1]["pos"]), "%s: frame %d particle %d comes from particle %d, which does not exist", what, t, i, prev)
                check(out[t - 1]["links"][prev][1] == i, "%s: frame %d particle %d comes from %d, which goes to %d", what, t, i, prev, out[t - 1]["links"][prev][1])
            else:
                check(prev == -1, "%s: frame %d particle %d comes from %d", what, t, i, prev)
            if nxt >= 0:
                n += 1
                check(t + 1 < T and nxt < len(out[t + 1]["pos"]), "%s: frame %d particle %d goes to particle %d, which does not exist", what, t, i, nxt)
                check(out[t + 1]["links"][nxt][0] == i, "%s: frame %d particle %d goes to %d, which comes from %d", what, t, i, nxt, out[t + 1]["links"][nxt][0])
            else:
                check(nxt == -2, "%s: frame %d particle %d goes to %d", what, t, i, nxt)
    return n


def limit(r, s, case):
    """Draws the volume in tighter; returns its limits."""
    if case["box"]:
        (x0, x1, y0, y1, z0, z1), c = case["box"], s.center
        r.vpar.x_lay[0], r.vpar.x_lay[1] = float(c[0] + x0), float(c[0] + x1)
        r.ymin, r.ymax = float(c[1] + y0), float(c[1] + y1)
        # the outer ends are the ones that count: z_min_lay[0] and z_max_lay[1]
        r.vpar.z_min_lay[0], r.vpar.z_max_lay[1] = float(c[2] + z0), float(c[2] + z1)
    return (r.vpar.x_lay[0], r.ymin, r.vpar.z_min_lay[0]), (r.vpar.x_lay[1], r.ymax, r.vpar.z_max_lay[1])


def triangulated(s, targs, corr):
    from openptv_python.constants import COORD_UNUSED
    from openptv_python.orientation import point_position
    from openptv_python.trafo import dist_to_flat, pixel_to_metric

    flat = np.full((s.n, 2), COORD_UNUSED)
    for k, j in enumerate(corr[: s.n]):
        if j >= 0:
            x, y = pixel_to_metric(targs[k][j][1], targs[k][j][2], s.cpar)
            flat[k] = dist_to_flat(x, y, s.cals[k], 1e-9)
    return point_position(flat, s.n, s.cpar.mm, s.cals)[1]


def untouched(before, after, t, s, add, what, limits):
    """The particles of before are in after as they were; added ones took free targets, and lie where those say."""
    m = len(before["pos"])
    for i in range(m, len(after["pos"])):
        p = after["pos"][i]
        close(p, triangulated(s, after["targs"], after["corr"][i]), 0.003, "%s: frame %d: position of the added particle %d" % (what, t, i))
        for c, lo, hi, v in zip("xyz", *limits, p):
            check(lo - 6e-4 < v < hi + 6e-4, "%s: frame %d: particle %d was added at %s=%s, limits %s to %s", what, t, i, c, v, lo, hi)
    check(len(after["pos"]) == m if not add else len(after["pos"]) >= m, "%s: frame %d has %d particles, had %d", what, t, len(after["pos"]), m)
    close(after["pos"][:m], before["pos"], 1e-9, what + ": positions") if m else None
    check([c[: s.n] for c in after["corr"][:m]] == [c[: s.n] for c in before["corr"]], "%s: frame %d: correspondences changed", what, t)
    owner = {}
    for i in range(m, len(after["pos"])):
        seen = [(k, j) for k, j in enumerate(after["corr"][i][: s.n]) if j >= 0]
        check(len(seen) >= 2, "%s: frame %d: particle %d was added from %d targets", what, t, i, len(seen))
        for k, j in seen:
            check(before["targs"][k][j][7] == -1, "%s: frame %d: particle %d took target %d of camera %d, which was not free", what, t, i, j, k)
            check((k, j) not in owner, "%s: frame %d: particles %s and %d share target %d of camera %d", what, t, owner.get((k, j)), i, j, k)
            owner[k, j] = i
    for k in range(s.n):
        a, b = before["targs"][k], after["targs"][k]
        check(len(a) == len(b), "%s: frame %d camera %d: %d targets, were %d", what, t, k, len(b), len(a))
        for j, (p, q) in enumerate(zip(a, b)):
            check([float(v) for v in p[:7]] == q[:7], "%s: frame %d camera %d: target %s became %s", what, t, k, p, q)
            check(q[7] == owner.get((k, j), p[7]), "%s: frame %d camera %d: target %d belongs to %d, was %d", what, t, k, j, q[7], p[7])


def cut(out, how_often, g):
    """Some links get lost, at both ends."""
    n = 0
    for t in range(len(out) - 1):
        for i, (prev, nxt) in enumerate(out[t]["links"]):
            if nxt >= 0 and g.random() < how_often:
                out[t]["links"][i] = (prev, -2)
                out[t + 1]["links"][nxt] = (-1, out[t + 1]["links"][nxt][1])
                n += 1
    return n


def judge_back(case, s, d, out, n):
    """Tracks frames with n links backwards; returns how many links and particles are new."""
    T, first = len(out), case["first"]
    for t, f in enumerate(out):
        f["targs"] = [[[int(v) if j not in (1, 2) else v for j, v in enumerate(r)] for r in k] for k in f["targs"]]
        flow.write(d, s, first + t, f, [(a, b, 2) for a, b in f["links"]])
    r = flow.run(d, s, first, first + T - 1, case["dv"], case["dacc"], case["dangle"], case["add2"])
    limits = limit(r, s, case)
    mean = flow.backward(r)
    back = [flow.read(d, s, first + t) for t in range(T)]
    m = consistent(back, first, "backwards")
    for t in range(T):
        untouched(out[t], back[t], t, s, case["add2"], "backwards", limits)
        for i, (a, b) in enumerate(zip(out[t]["links"], back[t]["links"])):
            check((a[0] < 0 or a[0] == b[0]) and (a[1] < 0 or a[1] == b[1]), "backwards: frame %d particle %d: links %s became %s", t, i, a, b)
    check(m >= n, "links were lost")
    have = sum(prev >= 0 for f in back[1:-1] for prev, _ in f["links"]) / (T - 2)
    check(abs(mean - have) < 1e-9, "backwards: %s links per frame reported, %s in the files", mean, have)
    return m - n, sum(len(f["pos"]) for f in back) - sum(len(f["pos"]) for f in out)


def judge(case):
    s, g = Scene(case["scene"]), rng(case["seed"])
    if s.views[0].water_top - s.center_local[2] < 12:
        raise Reject
    d = tempfile.mkdtemp(dir=".")
    frames = sequence(case, s, g)
    T, first = len(frames), case["first"]
    for t, f in enumerate(frames):
        flow.write(d, s, first + t, f)
    r = flow.run(d, s, first, first + T - 1, case["dv"], case["dacc"], case["dangle"], case["add"])
    limits = limit(r, s, case)
    flow.forward(r)
    out = [flow.read(d, s, first + t) for t in range(T)]
    n = consistent(out, first, "forward")
    for t in range(T):
        untouched(frames[t], out[t], t, s, case["add"], "forward", limits)
    total = sum(len(f["pos"]) for f in out[:-1])
    check(r.npart == total, "%d particles counted, %d in the files", r.npart, total)
    check(r.nlinks == n, "%d links counted, %d in the files", r.nlinks, n)
    added = sum(len(f["pos"]) for f in out) - sum(len(f["pos"]) for f in frames)
    if case["back"] and T >= 4:
        n -= cut(out, case["cut"], g)
        more, grown = judge_back(case, s, d, out, n)
        added += grown
        labels = ["back"] if more else []
    else:
        labels = []
    loose = any(nxt < 0 for f in out[:-1] for _, nxt in f["links"])
    if n >= 3 and (loose or added):
        labels.append("nontrivial")
    if added:
        labels.append("added")
    return labels


def judge_history(case):
    """Backward tracking of histories in which tracks split, end and start next to each other."""
    s, g = Scene(case["scene"]), rng(case["seed"])
    if s.views[0].water_top - s.center_local[2] < 12:
        raise Reject
    T, first = case["T"], case["first"]
    tracks = []  # every track: its first frame and its positions
    for k in range(case["tracks"]):
        v = g.uniform(-1, 1, 3) * case["step"]
        born, x = 0, g.uniform(-1, 1, 3) * case["spread"]
        others = [(t0, p) for t0, p in tracks if len(p) >= 2]
        if others and g.random() < case["split"]:
            # it appears where it would have come from a particle of another track
            t0, p = others[g.integers(len(others))]
            i = int(g.integers(len(p) - 1))
            born, x = t0 + i + 1, p[i] + v + g.normal(size=3) * case["turn"] * case["step"]
        elif g.random() < 0.5:
            born = int(g.integers(T))
        life = T - born if g.random() > case["lost"] else int(g.integers(1, T - born + 1))
        pos = []
        for _ in range(life):
            pos.append(x)
            v = v + g.normal(size=3) * case["turn"] * case["step"]
            x = x + v
        tracks.append((born, pos))
    out, number = [], []
    for t in range(T):
        here = {k: s.local(p[t - t0]) for k, (t0, p) in enumerate(tracks) if t0 <= t < t0 + len(p)}
        free = [s.local(p[0] + (t - t0) * (p[1] - p[0])) for t0, p in tracks if t == t0 - 1 and len(p) > 1 and g.random() < 0.5]
        f, num = flow.frame(s, g, list(here.values()), case["miss"], free, case["clutter"])
        out.append(f)
        number.append(dict(zip(here, num)))
    n = 0
    for f in out:
        f["links"] = [(-1, -2)] * len(f["pos"])
    for t in range(T - 1):
        for k, i in number[t].items():
            j = number[t + 1].get(k)
            if i is not None and j is not None:
                out[t]["links"][i] = (out[t]["links"][i][0], j)
                out[t + 1]["links"][j] = (i, -2)
                n += 1
    n -= cut(out, case["cut"], g)
    d = tempfile.mkdtemp(dir=".")
    more, grown = judge_back(case, s, d, out, n)
    labels = ["nontrivial"] if n >= 3 and (more or grown) else []
    if n >= 2:
        labels.append("linked")
    return labels


FIELDS = {
    "scene": scene(2, 4, mm=st.one_of(st.just(AIR), media(1, 10.0)), aps=st.one_of(st.just(IDENT_AP), added_pars(0.5))),
    "seed": seeds(),
    "T": st.sampled_from([4, 5, 4, 3, 6]),
    "first": st.sampled_from([1, 10001, 98]),
    "tracks": st.sampled_from([5, 3, 8, 12, 1]),
    "spread": st.sampled_from([1.0, 3.0, 8.0]),
    "step": st.sampled_from([0.3, 0.8, 0.1]),
    "turn": st.sampled_from([0.2, 0.0, 0.6]),
    "lost": st.sampled_from([0.2, 0.0, 0.35]),
    "miss": st.sampled_from([0.0, 0.1]),
    "clutter": st.sampled_from([0, 0, 5]),
    "dv": st.tuples(fl(-1.5, -0.3), fl(0.3, 1.5), fl(-1.5, -0.3), fl(0.3, 1.5), fl(-1.5, -0.3), fl(0.3, 1.5)).map(list),
    "dacc": st.sampled_from([1.0, 0.2, 3.0]),
    "dangle": st.sampled_from([100.0, 30.0, 250.0]),
    "add": st.sampled_from([1, 0]),
    "add2": st.sampled_from([1, 0]),
    "back": st.booleans(),
    "box": st.one_of(
        st.none(),
        st.tuples(fl(-8, 0), fl(0, 8), fl(-8, 0), fl(0, 8), fl(-8, 0), fl(0, 8)).map(list),
    ),
    "cut": st.sampled_from([0.4, 0.0, 0.8]),
}

HISTORY = dict(
    FIELDS,
    T=st.sampled_from([5, 4, 6]),
    tracks=st.sampled_from([4, 2, 7, 10]),
    spread=st.sampled_from([4.0, 1.5, 8.0]),
    split=st.sampled_from([0.7, 0.3, 1.0]),
    turn=st.sampled_from([0.1, 0.0, 0.4]),
    dv=st.tuples(fl(-2.0, -0.6), fl(0.6, 2.0), fl(-2.0, -0.6), fl(0.6, 2.0), fl(-2.0, -0.6), fl(0.6, 2.0)).map(list),
    dacc=st.sampled_from([2.0, 0.5, 5.0]),
    dangle=st.sampled_from([150.0, 60.0, 250.0]),
    cut=st.sampled_from([0.0, 0.2]),
    lost=st.sampled_from([0.0, 0.3]),
)
del HISTORY["add"], HISTORY["back"]

near = st.sampled_from([0.0, 0.7, 2.0, 9.0])
LIMITS = dict(
    FIELDS,
    T=st.sampled_from([5, 6]),
    tracks=st.sampled_from([8, 12]),
    spread=st.sampled_from([3.0, 6.0]),
    step=st.sampled_from([0.1, 0.3]),
    turn=st.sampled_from([0.0, 0.1]),
    lost=st.sampled_from([0.9, 0.6]),
    fade=st.sampled_from([1, 2, 1]),
    miss=st.just(0.0),
    clutter=st.just(0),
    dacc=st.sampled_from([1.0, 3.0]),
    dangle=st.sampled_from([100.0, 250.0]),
    add=st.sampled_from([1, 0]),
    back=st.sampled_from([True, True, True, False]),
    cut=st.sampled_from([0.0, 0.0, 0.4]),
    add2=st.just(1),
    box=st.tuples(near.map(lambda v: -v), near, near.map(lambda v: -v), near, near.map(lambda v: -v), near).map(list),
)
SUBS = [
    Sub("paths", st.fixed_dictionaries(FIELDS), judge, 300),
    Sub("histories", st.fixed_dictionaries(HISTORY), judge_history, 200),
    Sub("limits", st.fixed_dictionaries(LIMITS), judge, 160),
]
