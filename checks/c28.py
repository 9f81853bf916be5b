"""C28 - every link is the best continuation under the documented criteria."""
import itertools
import math
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.c20 import FIELDS, consistent, sequence
from vp import flow
from vp.core import Reject, Sub, check
from vp.gen import AIR, IDENT_AP, Scene, rng, scene

PROPERTY = "C28"
RULE = (
    "The sequences of C20 without adding particles; every step is decided again from the files by a plain model of the "
    "criteria (candidates in the images of the search volume, limits, acceleration, angle, merit, best claim); "
    "decisions closer than 1e-7 to a limit, ties, and particles with a lone candidate seen by one camera are left open; "
    "non-trivial: a particle with several continuations, or a contested one."
)
ASSUMPTIONS = [
    "Projection (C05) and triangulation (C08) are taken from the library.",
]


class Open(Exception):
    """The decision hangs on rounding or on an order that is not prescribed."""


def below(a, b, m=1e-7):
    if abs(a - b) < m * (1 + abs(b)):
        raise Open
    return a < b


class Model:
    def __init__(self, s, case, run):
        self.s, self.run = s, run
        dv = case["dv"]
        self.lo, self.hi = np.array(dv[0::2]), np.array(dv[1::2])
        self.dacc, self.dangle = case["dacc"], case["dangle"]
        self.lmax = float(np.linalg.norm(self.hi - self.lo))

    def pixel(self, k, p):
        return self.s.image_lib(k, p)

    def candidates(self, center, proj, f):
        """{particle: number of cameras}, of the four nearest targets in every camera's window."""
        freq = {}
        imx, imy = self.s.cpar.imx, self.s.cpar.imy
        for k in range(self.s.n):
            c = self.pixel(k, center)
            corners = np.array([self.pixel(k, center + np.array(q)) for q in itertools.product(*zip(self.lo, self.hi))])
            x0, y0 = np.clip(corners.min(0), 0, [imx, imy])
            x1, y1 = np.clip(corners.max(0), 0, [imx, imy])
            px, py = proj[k]
            if not (0 <= px <= imx and 0 <= py <= imy):
                continue
            x0, x1, y0, y1 = px - (c[0] - x0), px + (x1 - c[0]), py - (c[1] - y0), py + (y1 - c[1])
            x0, y0, x1, y1 = max(x0, 0), max(y0, 0), min(x1, imx), min(y1, imy)
            found = []
            for t in f["targs"][k]:
                if t[7] == -1:
                    continue
                if below(x0, t[1]) and below(t[1], x1) and below(y0, t[2]) and below(t[2], y1):
                    found.append((math.hypot(t[1] - px, t[2] - py), int(t[7])))
            found.sort()
            if len(found) > 4 and found[4][0] - found[3][0] < 1e-7:
                raise Open
            for _, i in found[:4]:
                freq[i] = freq.get(i, 0) + 1
        out = {i: n for i, n in freq.items() if n > 1}
        if freq and not out:
            raise Open
        return out

    def turn(self, start, pred, cand):
        v0, v1 = pred - start, cand - start
        n = np.linalg.norm(v0) * np.linalg.norm(v1)
        ang = 200 / math.pi * math.acos(min(1.0, max(-1.0, float(v0 @ v1) / n))) if n > 0 else 0.0
        return ang, float(np.linalg.norm(pred - cand))

    def bounded(self, v):
        return all(below(a, b) for a, b in zip(self.lo, v)) and all(below(a, b) for a, b in zip(v, self.hi))

    def smooth(self, acc, ang):
        if below(acc, self.dacc / 10):
            return True
        return below(acc, self.dacc) and below(ang, self.dangle, 1e-5)

    def merit(self, dl, acc, ang, quali):
        return (dl / self.lmax + acc / self.dacc + ang / self.dangle) / quali

    def inside(self, p):
        r, v = self.run, self.run.vpar
        return (
            below(v.x_lay[0], p[0]) and below(p[0], v.x_lay[1]) and below(r.ymin, p[1]) and below(p[1], r.ymax)
            and below(v.z_min_lay[0], p[2]) and below(p[2], v.z_max_lay[1])
        )

    def free(self, center, f):
        """Flat positions of the nearest free targets within three pixels, and how many there are."""
        from openptv_python.constants import COORD_UNUSED
        from openptv_python.trafo import dist_to_flat, pixel_to_metric

        pos, n = np.full((self.s.n, 2), COORD_UNUSED), 0
        for k in range(self.s.n):
            px, py = self.pixel(k, center)
            if not (0 <= px <= self.s.cpar.imx and 0 <= py <= self.s.cpar.imy):
                continue
            found = sorted(
                (math.hypot(t[1] - px, t[2] - py), t[1], t[2]) for t in f["targs"][k]
                if t[7] == -1 and below(abs(t[1] - px), 3) and below(abs(t[2] - py), 3)
            )
            if len(found) > 1 and found[1][0] - found[0][0] < 1e-7:
                raise Open
            if found:
                pos[k] = dist_to_flat(*pixel_to_metric(found[0][1], found[0][2], self.s.cpar), self.s.cals[k], self.run.flatten_tol)
                n += 1
        return n, pos

    def forward(self, i, f, back, nxt, over):
        """[(merit, particle)] in any of the orders equal candidates may come in."""
        from openptv_python.orientation import point_position

        x1 = np.array(f["pos"][i])
        prev = f["links"][i][0]
        x0 = np.array(back["pos"][prev]) if prev >= 0 else None
        x2 = 2 * x1 - x0 if prev >= 0 else x1
        proj = []
        for k in range(self.s.n):
            j = f["corr"][i][k]
            proj.append(self.pixel(k, x2) if prev >= 0 or j < 0 else tuple(f["targs"][k][j][1:3]))
        cands = self.candidates(x2, proj, nxt)
        regs, fall = {}, {}
        for c, fw in cands.items():
            x3 = np.array(nxt["pos"][c])
            x5 = 0.5 * (5 * x3 - 4 * x1 + x0) if prev >= 0 else 2 * x3 - x1
            reg = []
            for e, fn in self.candidates(x5, [self.pixel(k, x5) for k in range(self.s.n)], over).items():
                x4 = np.array(over["pos"][e])
                if self.bounded(x4 - x3):
                    ang1, acc1 = self.turn(x3, x4, x5)
                    ang0, acc0 = self.turn(x1, x2, x3) if prev >= 0 else (ang1, acc1)
                    acc, ang = (acc0 + acc1) / 2, (ang0 + ang1) / 2
                    if self.smooth(acc, ang):
                        dl = (np.linalg.norm(x1 - x3) + np.linalg.norm(x4 - x3)) / 2
                        reg.append(self.merit(dl, acc, ang, fw + fn))
            n, pos = self.free(x5, over)
            if n >= 2:
                x4 = point_position(pos, self.s.n, self.s.cpar.mm, self.s.cals)[1]
                if self.inside(x4) and self.bounded(x4 - x3):
                    ang, acc = self.turn(x3, x4, x5)
                    if self.smooth(acc, ang):
                        dl = (np.linalg.norm(x1 - x3) + np.linalg.norm(x4 - x3)) / 2
                        reg.append(self.merit(dl, acc, ang, fw + n))
            regs[c] = reg
            if prev >= 0 and self.bounded(x3 - x1):
                ang, acc = self.turn(x1, x2, x3)
                if self.smooth(acc, ang):
                    dl = (np.linalg.norm(x1 - x3) + np.linalg.norm(x0 - x1)) / 2
                    fall[c] = self.merit(dl, acc, ang, fw)
        results = set()
        groups = [[c for c in cands if cands[c] == q] for q in sorted(set(cands.values()), reverse=True)]
        if math.prod(math.factorial(len(q)) for q in groups) > 200:
            raise Open
        for order in itertools.product(*[itertools.permutations(q) for q in groups]):
            got = []
            for c in itertools.chain(*order):
                got += [(m, c) for m in regs[c]]
                if not got and c in fall:
                    got.append((fall[c], c))
            results.add(best(got))
        if len(results) > 1:
            raise Open
        return results.pop(), sum(bool(r) for r in regs.values())

    def backward(self, i, f, after, before):
        x1 = np.array(f["pos"][i])
        x0 = np.array(after["pos"][f["links"][i][1]])
        x2 = 2 * x1 - x0
        got = []
        for c, n in self.candidates(x2, [self.pixel(k, x2) for k in range(self.s.n)], before).items():
            x3 = np.array(before["pos"][c])
            if self.bounded(x1 - x3):
                ang, acc = self.turn(x1, x2, x3)
                if self.smooth(acc, ang):
                    dl = (np.linalg.norm(x1 - x3) + np.linalg.norm(x0 - x1)) / 2
                    got.append((self.merit(dl, acc, ang, n), c))
        return best(got), len(got)


def best(got):
    if not got:
        return None
    got = sorted(got)
    for m, c in got[1:]:
        if c != got[0][1] and m - got[0][0] < 1e-6 * (1 + m):
            raise Open
    return (round(float(got[0][0]), 9), got[0][1])


def start(case):
    s, g = Scene(case["scene"]), rng(case["seed"])
    if s.views[0].water_top - s.center_local[2] < 12:
        raise Reject
    d = tempfile.mkdtemp(dir=".")
    frames = sequence(case, s, g)
    for t, f in enumerate(frames):
        flow.write(d, s, case["first"] + t, f)
    return s, g, d, frames


def judge_forward(case):
    s, g, d, frames = start(case)
    T, first = len(frames), case["first"]
    r = flow.run(d, s, first, first + T - 1, case["dv"], case["dacc"], case["dangle"], 0)
    flow.forward(r)
    out = [flow.read(d, s, first + t) for t in range(T)]
    consistent(out, first, "forward")
    m = Model(s, case, r)
    decided = several = contested = 0
    none = {"pos": [], "targs": [[] for _ in range(s.n)]}
    for t in range(T - 1):
        claims, unsure = {}, set()
        for i in range(len(out[t]["pos"])):
            try:
                claims[i], n = m.forward(i, out[t], out[t - 1], out[t + 1], out[t + 2] if t + 2 < T else none)
                several += n > 1
            except Open:
                unsure.add(i)
        for i, b in claims.items():
            got = out[t]["links"][i][1]
            if b is None:
                check(got < 0, "frame %d particle %d has no continuation and is linked to %d", t, i, got)
                decided += 1
                continue
            owner = out[t + 1]["links"][b[1]][0]
            rivals = [q for q, c in claims.items() if c is not None and q != i and c[1] == b[1]]
            if any(abs(claims[q][0] - b[0]) < 1e-6 for q in rivals):
                continue
            contested += bool(rivals)
            wins = all(b[0] < claims[q][0] for q in rivals)
            decided += 1
            if wins:
                check(got == b[1] or (got < 0 and owner in unsure), "frame %d: the best continuation of particle %d is %d (merit %.6g), linked is %d", t, i, b[1], b[0], got)
            else:
                check(got < 0, "frame %d: particle %d gives up %d to a better claim and is linked to %d", t, i, b[1], got)
    labels = ["decided"] if decided else []
    if contested:
        labels.append("contested")
    if several or contested:
        labels.append("nontrivial")
    return labels


def judge_backward(case):
    s, g, d, frames = start(case)
    T, first = len(frames), case["first"]
    if T < 4:
        raise Reject
    r = flow.run(d, s, first, first + T - 1, case["dv"], case["dacc"], case["dangle"], 0)
    flow.forward(r)
    out = [flow.read(d, s, first + t) for t in range(T)]
    for t in range(T - 1):
        for i, (prev, nxt) in enumerate(out[t]["links"]):
            if nxt >= 0 and g.random() < case["cut"]:
                out[t]["links"][i] = (prev, -2)
                out[t + 1]["links"][nxt] = (-1, out[t + 1]["links"][nxt][1])
    for t, f in enumerate(out):
        f["targs"] = [[[int(v) if j not in (1, 2) else v for j, v in enumerate(q)] for q in k] for k in f["targs"]]
        flow.write(d, s, first + t, f, [(a, b, 2) for a, b in f["links"]])
    r = flow.run(d, s, first, first + T - 1, case["dv"], case["dacc"], case["dangle"], 0)
    flow.backward(r)
    back = [flow.read(d, s, first + t) for t in range(T)]
    consistent(back, first, "backwards")
    m = Model(s, case, r)
    decided = linked = 0
    # step by step from the end; each step starts from what the library had then: links
    # between later frames are final, those between earlier ones as they were
    for t in range(T - 2, 0, -1):
        state = [
            dict(back[u], links=[(a[0] if u <= t else b[0], a[1] if u < t else b[1]) for a, b in zip(out[u]["links"], back[u]["links"])])
            for u in range(T)
        ]
        taken = {}
        for i, (prev, nxt) in enumerate(state[t]["links"]):
            got = back[t]["links"][i][0]
            if prev != -1 or nxt < 0:
                check(got == prev, "frame %d particle %d was linked to %d, now %d", t, i, prev, got)
                continue
            try:
                b, n = m.backward(i, state[t], state[t + 1], state[t - 1])
                want = -1
                if b is not None:
                    c = b[1]
                    cp, cn = state[t - 1]["links"][c]
                    if cn == -2 and c not in taken:
                        if cp == -1:
                            want = c
                        else:
                            x0, x1 = np.array(state[t + 1]["pos"][nxt]), np.array(state[t]["pos"][i])
                            x3, x4 = np.array(state[t - 1]["pos"][c]), np.array(state[t - 2]["pos"][cp])
                            ang, acc = m.turn(x3, x4, 0.5 * (5 * x3 - 4 * x1 + x0))
                            if m.smooth(acc, ang):
                                want = c
            except Open:
                taken[got] = i
                continue
            check(got == want, "frame %d: particle %d should come from %d, comes from %d", t, i, want, got)
            decided += 1
            linked += want >= 0
            if want >= 0:
                taken[want] = i
    labels = ["decided"] if decided else []
    if linked and decided > linked:
        labels.append("nontrivial")
    return labels


WIDE = dict(FIELDS, T=st.sampled_from([4, 4, 5]), tracks=st.sampled_from([6, 8, 4, 10]), spread=st.sampled_from([1.0, 0.6, 2.0]), turn=st.sampled_from([0.0, 0.2]))
SLOW = dict(
    WIDE, tracks=st.sampled_from([4, 7, 2]), spread=st.sampled_from([3.0, 1.0]), step=st.sampled_from([0.1, 0.03]), turn=st.sampled_from([0.5, 1.0]), miss=st.sampled_from([0.0, 0.3]),
    lost=st.sampled_from([0.0, 0.2]), dacc=st.sampled_from([3.0, 1.0]), dangle=st.sampled_from([10.0, 30.0]), clutter=st.just(0),
)
CROWD = dict(
    WIDE, scene=scene(3, 4, mm=st.just(AIR), aps=st.just(IDENT_AP)), tracks=st.sampled_from([6, 9]), spread=st.sampled_from([0.6, 0.4]), step=st.sampled_from([0.3, 0.1]),
    lost=st.just(0.0), miss=st.sampled_from([0.3, 0.4]), dacc=st.sampled_from([3.0, 1.0]), dangle=st.sampled_from([250.0, 100.0]),
)
SUBS = [
    Sub("crowd", st.fixed_dictionaries(CROWD), judge_forward, 80),
    Sub("forward", st.fixed_dictionaries(WIDE), judge_forward, 150),
    Sub("slow", st.fixed_dictionaries(SLOW), judge_forward, 80),
    Sub("backward", st.fixed_dictionaries(dict(WIDE, T=st.sampled_from([4, 5, 4, 8]))), judge_backward, 160),
    Sub("slow_back", st.fixed_dictionaries(dict(SLOW, T=st.sampled_from([5, 4, 9]))), judge_backward, 80),
]
