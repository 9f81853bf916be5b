"""C21 - smooth, separated tracks come back whole, forwards and backwards, gaps filled from free targets."""
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.c20 import consistent, limit, untouched
from vp import flow
from vp.core import Reject, Sub, check, close
from vp.gen import AIR, IDENT_AP, Scene, added_pars, fl, media, rng, scene, seeds

PROPERTY = "C21"
RULE = (
    "Generated sets of one to four tracks in rigs of two to four cameras, straight or slightly bent, with speeds up to "
    "80% of the search limits, starting and ending anywhere, kept six search radii apart, in 3 to 7 frames, particles "
    "in random order, some of them present as free targets only; tracked forwards, or backwards from paths with any "
    "links missing; non-trivial: at least two tracks, one of them of four frames or with a filled gap."
)
ASSUMPTIONS = [
    "Search limits reach to both sides of zero.",
    "A track that is seen in less than three frames in a row may or may not be linked.",
]


def tracks_of(case, s, g):
    """Local positions [track][frame] or None outside a track's life, with gaps as a set of (track, frame)."""
    T, dv = case["T"], np.array(case["dv"])
    lo, hi = dv[0::2], dv[1::2]
    pos, life = [], []
    for _ in range(case["tracks"]):
        v = np.where(g.random(3) < 0.5, lo, hi) * g.uniform(0, 0.8, 3) * case["speed"]  # limits are along the global axes
        v = s.v0.to_local(v)
        a = g.uniform(-1, 1, 3) * case["bend"]
        b, e = 0, T - 1
        if case["partial"]:
            b = int(g.integers(0, T - 2))
            e = int(g.integers(b + 2, T))
        t = np.arange(T) - T / 2
        x0 = g.uniform(-1, 1, 3) * [9, 9, 6]
        pos.append(x0 + t[:, None] * v + 0.5 * (t**2)[:, None] * a)
        life.append((b, e))
    far = 6 * np.abs(dv).max()
    for i in range(len(pos)):
        for j in range(i):
            if np.linalg.norm(pos[i][:, None] - pos[j][None], axis=2).min() < far:
                raise Reject
    return pos, life


def frames_of(case, s, g, pos, life, gaps):
    frames, numbers = [], []
    for t in range(case["T"]):
        ids = [i for i in range(len(pos)) if life[i][0] <= t <= life[i][1]]
        here = [i for i in ids if (i, t) not in gaps]
        pts = [s.local(pos[i][t]) for i in here]
        free = [s.local(pos[i][t]) for i in ids if (i, t) in gaps]
        for p in pts + free:
            for k in range(s.n):
                x, y = s.image_lib(k, p)
                if not (5 < x < s.cpar.imx - 5 and 5 < y < s.cpar.imy - 5):
                    return None
        f, num = flow.frame(s, g, pts, case["miss"], free)
        frames.append(f)
        numbers.append(dict(zip(here, num)))
    return frames, numbers


def paths(out, numbers, pos, s, tol, what):
    """Particle number of every track in every frame, added particles found by their place."""
    full = []
    for t, f in enumerate(out):
        here = dict(numbers[t])
        for q in range(len(numbers[t]), len(f["pos"])):
            d = [np.linalg.norm(s.local(p[t]) - f["pos"][q]) for p in pos]
            i = int(np.argmin(d))
            check(d[i] < tol and i not in here, "%s: frame %d: the added particle at %s belongs to no track", what, t, f["pos"][q])
            here[i] = q
        full.append(here)
    return full


def judge_forward(case):
    s, g = Scene(case["scene"]), rng(case["seed"])
    if s.views[0].water_top - s.center_local[2] < 14:
        raise Reject
    pos, life = tracks_of(case, s, g)
    gaps = set()
    if case["gap"]:
        for i, (b, e) in enumerate(life):
            if e >= b + 2 and g.random() < 0.7:
                t = int(g.integers(b + 2, e + 1))
                gaps.update((i, u) for u in range(t, min(e, t + int(g.integers(0, 2))) + 1))
    made = frames_of(case, s, g, pos, life, gaps)
    if made is None:
        return ["outside"]
    frames, numbers = made
    d, first, T = tempfile.mkdtemp(dir="."), case["first"], case["T"]
    for t, f in enumerate(frames):
        flow.write(d, s, first + t, f)
    r = flow.run(d, s, first, first + T - 1, case["dv"], case["dacc"], case["dangle"], case["add"])
    limits = limit(r, s, {"box": None})
    flow.forward(r)
    out = [flow.read(d, s, first + t) for t in range(T)]
    consistent(out, first, "forward")
    for t in range(T):
        untouched(frames[t], out[t], t, s, case["add"], "forward", limits)
    full = paths(out, numbers, pos, s, 0.05, "forward")
    sure = 0
    for i, (b, e) in enumerate(life):
        for t in range(b, e + 1):
            if (i, t) in gaps:
                if case["add"]:
                    check(i in full[t], "track %d is not continued to its free targets in frame %d", i, t)
                continue
    for t in range(T - 1):
        for i, n in full[t].items():
            nxt = out[t]["links"][n][1]
            if i not in full[t + 1]:
                check(nxt < 0, "frame %d: track %d ends and is linked to particle %d", t, i, nxt)
                continue
            right = full[t + 1][i]
            check(nxt < 0 or nxt == right, "frame %d: track %d is linked to a particle of another track", t, i)
            u = t  # frames in a row that are there
            while u > 0 and i in full[u - 1]:
                u -= 1
            w = t + 1
            while w + 1 < T and i in full[w + 1]:
                w += 1
            if w - u >= 2:
                check(nxt == right, "frame %d: track %d, in frames %d to %d, is not linked", t, i, u, w)
                sure += 1
    labels = ["gap"] if gaps and case["add"] else []
    if len(life) > 1 and sure and (gaps or max(e - b for b, e in life) >= 3):
        labels.append("nontrivial")
    return labels


def judge_backward(case):
    s, g = Scene(case["scene"]), rng(case["seed"])
    if s.views[0].water_top - s.center_local[2] < 14 or case["T"] < 4:
        raise Reject
    pos, life = tracks_of(case, s, g)
    gaps = set()
    if case["gap"] and case["add"]:
        for i, (b, e) in enumerate(life):
            if e >= b + 2 and g.random() < 0.7:
                t = int(g.integers(b, e - 1))
                gaps.update((i, u) for u in range(max(b, t - int(g.integers(0, 2))), t + 1))
    made = frames_of(case, s, g, pos, life, gaps)
    if made is None:
        return ["outside"]
    frames, numbers = made
    d, first, T = tempfile.mkdtemp(dir="."), case["first"], case["T"]
    links = [[[-1, -2, 2] for _ in f["pos"]] for f in frames]
    cuts = 0
    for i, (b, e) in enumerate(life):
        for t in range(b, e):
            if (i, t) in gaps or (i, t + 1) in gaps:
                continue
            # the last link of a track stays, and so does the one after a gap: the way back starts there
            if t < e - 1 and (i, t - 1) not in gaps and g.random() < case["cut"]:
                cuts += 1
                continue
            links[t][numbers[t][i]][1] = numbers[t + 1][i]
            links[t + 1][numbers[t + 1][i]][0] = numbers[t][i]
    for t, f in enumerate(frames):
        flow.write(d, s, first + t, f, links[t])
    r = flow.run(d, s, first, first + T - 1, case["dv"], case["dacc"], case["dangle"], case["add"])
    limits = limit(r, s, {"box": None})
    flow.backward(r)
    out = [flow.read(d, s, first + t) for t in range(T)]
    consistent(out, first, "backwards")
    for t in range(T):
        untouched(frames[t], out[t], t, s, case["add"], "backwards", limits)
    full = paths(out, numbers, pos, s, 0.05, "backwards")
    for i, (b, e) in enumerate(life):
        for t in range(b, e + 1):
            check(i in full[t], "track %d is not continued to its free targets in frame %d", i, t)
        for t in range(b, e):
            got = out[t]["links"][full[t][i]][1]
            check(got == full[t + 1][i], "frame %d: track %d goes to %d instead of %d", t, i, got, full[t + 1][i])
        check(out[b]["links"][full[b][i]][0] == -1, "track %d comes from somewhere", i)
    labels = ["gap"] if gaps else []
    if len(life) > 1 and (cuts or gaps):
        labels.append("nontrivial")
    return labels


common = {
    "scene": scene(2, 4, mm=st.one_of(st.just(AIR), media(1, 10.0)), aps=st.one_of(st.just(IDENT_AP), added_pars(0.5)), h=(200, 500)),
    "seed": seeds(),
    "T": st.sampled_from([4, 5, 3, 6, 7]),
    "first": st.sampled_from([1, 10001, 98]),
    "tracks": st.sampled_from([2, 3, 4, 1]),
    "speed": st.sampled_from([1.0, 1.0, 0.2, 0.0]),
    "bend": st.sampled_from([0.0, 0.01]),
    "partial": st.booleans(),
    "miss": st.sampled_from([0.0, 0.2]),
    "dv": st.tuples(fl(-0.7, -0.3), fl(0.3, 0.7), fl(-0.7, -0.3), fl(0.3, 0.7), fl(-0.7, -0.3), fl(0.3, 0.7)).map(list),
    "dacc": st.sampled_from([0.4, 0.25]),
    "dangle": st.sampled_from([100.0, 40.0]),
    "add": st.sampled_from([1, 0]),
    "gap": st.booleans(),
}
SUBS = [
    Sub("forward", st.fixed_dictionaries(common), judge_forward, 350),
    Sub("backward", st.fixed_dictionaries(dict(common, cut=st.sampled_from([0.5, 0.0, 0.9]), T=st.sampled_from([5, 4, 6, 7]))), judge_backward, 300),
]
