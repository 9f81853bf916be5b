"""C12 - target recognition."""
import collections

import numpy as np
from hypothesis import strategies as st

from vp.core import Reject, Sub, check, close
from vp.gen import AIR, fl, make_cpar, rng, seeds

PROPERTY = "C12"
RULE = (
    "Generated 8-bit images from 3x3 to 40x40 (noise of few or many grey levels, smooth and sharp blobs, plateaus, "
    "saturation), thresholds, discontinuity limits, size limits and subranges; non-trivial: at least two targets are "
    "expected and at least one region is refused by the size limits or cut by the discontinuity limit or the border "
    "of the range (blobs: at least two blobs)."
)
ASSUMPTIONS = [
    "The outermost pixels of the image are never part of a target (the recognition needs their neighbours), and a "
    "target cut by the border of the range is reported with the pixels inside, as in the current code.",
]


def tpar(case, lax=False):
    from openptv_python.parameters import TargetPar

    th = list(case["other_thr"])
    th[case["cam"]] = case["thr"]
    n = case["lims"] if not lax else [1, 10**6, 1, 10**6, 1, 10**6, -1]
    return TargetPar(
        gvthresh=th, discont=case["disco"], nnmin=n[0], nnmax=n[1], nxmin=n[2], nxmax=n[3], nymin=n[4], nymax=n[5],
        sumg_min=n[6], cr_sz=1,
    )


def image(case):
    g = rng(case["seed"])
    h, w = case["h"], case["w"]
    yy, xx = np.mgrid[:h, :w]
    kind = case["kind"]
    if kind == "levels":
        lv = np.array(case["levels"])
        img = lv[g.integers(0, len(lv), (h, w))]
    elif kind == "noise":
        img = g.integers(0, 256, (h, w))
    else:
        img = g.integers(0, 1 + case["bg"], (h, w)).astype(float)
        for _ in range(case["blobs"]):
            cx, cy, a = g.uniform(-1, w), g.uniform(-1, h), g.uniform(30, 400)
            sx, sy = g.uniform(0.4, 4, 2)
            img = img + a * np.exp(-((xx - cx) ** 2) / (2 * sx * sx) - (yy - cy) ** 2 / (2 * sy * sy))
        img = np.clip(np.floor(img), 0, 255)
        if kind == "sharp":
            img = np.floor(img / 32) * 32
    return img.astype(np.uint8)


def window(case):
    """The range that can hold targets."""
    h, w = case["h"], case["w"]
    x0, x1 = case["sub_x"] if case["sub_x"] is not None else (0, w)
    y0, y1 = case["sub_y"] if case["sub_y"] is not None else (0, h)
    return max(x0, 1), min(x1, w - 1), max(y0, 1), min(y1, h - 1)


def regions(img, thr, disco, x0, x1, y0, y1):
    """Local maxima in reading order, each with all pixels reachable downhill."""
    im = img.astype(int)
    free = im.copy()
    out, cut = [], 0
    for i in range(y0, y1):
        for j in range(x0, x1):
            v = free[i, j]
            if v <= thr or v < free[i - 1 : i + 2, j - 1 : j + 2].max():
                continue
            seen, todo = {(i, j)}, collections.deque([(i, j)])
            free[i, j] = 0
            while todo:
                a, b = todo.popleft()
                top = im[a, b] + disco
                for c, d in ((a, b - 1), (a, b + 1), (a - 1, b), (a + 1, b)):
                    if not (y0 <= c < y1 and x0 <= d < x1):
                        cut += im[c, d] > thr
                        continue
                    if free[c, d] <= thr:
                        continue
                    if max(im[c, d], im[c - 1, d], im[c + 1, d], im[c, d - 1], im[c, d + 1]) > top:
                        cut += 1
                        continue
                    free[c, d] = 0
                    seen.add((c, d))
                    todo.append((c, d))
            out.append(seen)
    return out, cut


def describe(img, pixels, thr):
    ys = np.array([p[0] for p in pixels])
    xs = np.array([p[1] for p in pixels])
    v = img[ys, xs].astype(int)
    wgt = (v - thr).astype(float)
    s = wgt.sum()
    return (
        (xs * wgt).sum() / s + 0.5, (ys * wgt).sum() / s + 0.5, len(v),
        xs.max() - xs.min() + 1, ys.max() - ys.min() + 1, int(s), int(v.sum()),
    )


def fits(d, n):
    return n[0] <= d[2] <= n[1] and n[2] <= d[3] <= n[3] and n[4] <= d[4] <= n[5] and d[6] > n[6]


def recognise(img, tp, case):
    from openptv_python.segmentation import target_recognition

    th = 2 * [0]
    cp = make_cpar({"num_cams": 4, "imx": case["w"], "imy": case["h"], "pix": [0.01, 0.01], "mm": AIR})
    kw = {}
    if case["sub_x"] is not None:
        kw["subrange_x"] = tuple(case["sub_x"])
    if case["sub_y"] is not None:
        kw["subrange_y"] = tuple(case["sub_y"])
    keep = img.copy()
    out = target_recognition(img, tp, case["cam"], cp, **kw)
    check((img == keep).all(), "the image was changed")
    return out


def same(got, want, what):
    check(len(got) == len(want), "%s: %d targets instead of %d", what, len(got), len(want))
    for k, (t, d) in enumerate(zip(got, want)):
        check(all(isinstance(v, (int, np.integer)) for v in (t.pnr, t.n, t.nx, t.ny, t.sumg, t.tnr)), "%s: numbers of target %d are not integers: %s", what, k, t)
        check((t.n, t.nx, t.ny, t.sumg) == d[2:6], "%s: target %d has (n, nx, ny, sumg) = %s, expected %s", what, k, (t.n, t.nx, t.ny, t.sumg), d[2:6])
        close((t.x, t.y), d[:2], 1e-9 * 40, "%s: position of target %d" % (what, k))


def judge(case):
    img = image(case)
    x0, x1, y0, y1 = window(case)
    regs, cut = regions(img, case["thr"], case["disco"], x0, x1, y0, y1)
    every = [describe(img, r, case["thr"]) for r in regs]
    want = [d for d in every if fits(d, case["lims"])]
    got = recognise(img, tpar(case), case)
    same(got, want, "range x %d-%d, y %d-%d" % (x0, x1, y0, y1))
    for k, t in enumerate(got):
        check(t.pnr == k and t.tnr == -1, "target %d is numbered %d, %d", k, t.pnr, t.tnr)
    lax = recognise(img, tpar(case, lax=True), case)
    same(lax, every, "without size limits")
    labels = [case["kind"]]
    if len(want) > 1 and (len(every) > len(want) or cut):
        labels.append("nontrivial")
    return labels


def judge_components(case):
    """Without a discontinuity limit the targets are the connected regions above the threshold."""
    from scipy.ndimage import label, maximum_filter

    case = dict(case, disco=300)
    img = image(case)
    x0, x1, y0, y1 = window(case)
    inside = np.zeros(img.shape, bool)
    inside[y0:y1, x0:x1] = True
    lab, n = label((img > case["thr"]) & inside)
    peak = (img == maximum_filter(img, size=3)) & inside
    sure, maybe = [], []
    for k in range(1, n + 1):
        px = list(zip(*np.nonzero(lab == k)))
        d = describe(img, px, case["thr"])
        if not fits(d, case["lims"]):
            continue
        (sure if (peak & (lab == k)).any() else maybe).append(d)
    got = [(t.x, t.y, t.n, t.nx, t.ny, t.sumg) for t in recognise(img, tpar(case), case)]

    def has(d, group):
        return any(e[2:6] == d[2:6] and abs(e[0] - d[0]) < 1e-7 and abs(e[1] - d[1]) < 1e-7 for e in group)

    for d in got:
        check(has(d, sure + maybe), "target %s is no connected region", d)
    for d in sure:
        check(has(d, got), "the region %s was not found", d)
    check(len(got) <= n, "more targets than regions")
    return ["nontrivial"] if len(sure) > 1 else []


def judge_large(case):
    """Targets of thousands of pixels are found whole."""
    g = rng(case["seed"])
    h, w = case["h"], case["w"]
    yy, xx = np.mgrid[:h, :w]
    img = np.zeros((h, w), np.uint8)
    want = []
    for k in range(2):
        r = case["r"][k]
        cy, cx = h // 2 + g.integers(-9, 10), w // 4 + k * (w // 2) + g.integers(-9, 10)
        d2 = ((xx - cx) / r) ** 2 + ((yy - cy) * case["round"] / r) ** 2
        v = np.where(d2 <= 1, np.floor(255 - case["slope"] * np.sqrt(d2)), 0).astype(np.uint8)
        v[[0, -1], :] = 0
        v[:, [0, w // 2 - 1, w // 2, -1]] = 0
        v = np.where((xx < w // 2) == (k == 0), v, 0).astype(np.uint8)
        img = np.maximum(img, v)
        want.append(describe(img, list(zip(*np.nonzero(v > case["thr"]))), case["thr"]))
    c = dict(case, sub_x=None, sub_y=None, disco=300, lims=[1, 10**6, 1, 10**6, 1, 10**6, 0])
    got = recognise(img, tpar(c), c)
    want.sort()
    got.sort(key=lambda t: t.x)
    check(len(got) == 2, "%d targets of %s pixels where two large ones are", len(got), [t.n for t in got])
    for t, d in zip(got, want):
        check((t.n, t.nx, t.ny, t.sumg) == tuple(d[2:6]), "large target of (pixels, width, height, grey values) %s instead of %s", (t.n, t.nx, t.ny, t.sumg), d[2:6])
        close((t.x, t.y), d[:2], 1e-6, "centre of a large target")
    return ["nontrivial"]


def judge_sheet(case):
    """One target as large as the image, which grows over a front of hundreds of pixels."""
    g = rng(case["seed"])
    h, w = case["h"], case["w"]
    img = np.zeros((h, w), np.uint8)
    img[1:-1, 1:-1] = case["level"]
    for _ in range(case["holes"]):
        y, x = g.integers(3, h - 8), g.integers(3, w - 8)
        img[y : y + g.integers(1, 5), x : x + g.integers(1, 5)] = 0
    d = describe(img, list(zip(*np.nonzero(img))), case["thr"])
    c = dict(case, sub_x=None, sub_y=None, disco=300, lims=[1, 10**6, 1, 10**6, 1, 10**6, 0])
    got = recognise(img, tpar(c), c)
    check(len(got) == 1, "%d targets of %s pixels where one large one is", len(got), [t.n for t in got])
    t = got[0]
    check((t.n, t.nx, t.ny, t.sumg) == tuple(d[2:6]), "large target of (pixels, width, height, grey values) %s instead of %s", (t.n, t.nx, t.ny, t.sumg), d[2:6])
    close((t.x, t.y), d[:2], 1e-6, "centre of a large target")
    return ["nontrivial"] if min(h, w) > 300 else []


def judge_blobs(case):
    """Separated blobs: found one by one, wherever they are, for any discontinuity they tolerate."""
    g = rng(case["seed"])
    w = h = 62
    thr = case["thr"] // 2
    img = np.zeros((h, w), np.uint8)
    want = []
    cells = [(a, b) for a in range(5) for b in range(5)]
    for a, b in [cells[k] for k in g.permutation(25)[: case["blobs"]]]:
        cy, cx = 12 * a + 6 + g.integers(-2, 3), 12 * b + 6 + g.integers(-2, 3)
        yy, xx = np.mgrid[:h, :w]
        amp, s = g.uniform(thr + 5, 255), g.uniform(0.5, 1.6)
        d2 = (xx - cx) ** 2 + (yy - cy) ** 2
        v = np.where(d2 <= 9, np.floor(amp * np.exp(-d2 / (2 * s * s))), 0).astype(np.uint8)
        img = np.maximum(img, v)
        px = [(i, j) for i, j in zip(*np.nonzero(v > thr))]
        want.append(describe(img, px, thr))
    c = dict(case, w=w, h=h, sub_x=None, sub_y=None, thr=thr, disco=case["disco"] % 60, lims=[1, 10**6, 1, 10**6, 1, 10**6, 0])
    want = [d for d in want if fits(d, c["lims"])]
    got = recognise(img, tpar(c), c)
    want.sort(key=lambda d: (round(d[1] / 12 - 0.5), d[0]))  # the cells are 12 pixels wide
    got.sort(key=lambda t: (round(t.y / 12 - 0.5), t.x))
    same(got, want, "separated blobs")
    return ["nontrivial"] if len(want) > 1 else []


def judge_range(case):
    from openptv_python.segmentation import target_recognition

    img = image(case)
    cp = make_cpar({"num_cams": 4, "imx": case["w"], "imy": case["h"], "pix": [0.01, 0.01], "mm": AIR})
    big = {"x": {"subrange_x": (0, case["w"] + 1)}, "y": {"subrange_y": (0, case["h"] + 1)}, "small": {}}[case["what"]]
    if case["what"] == "small":
        img = img[:-1] if case["h"] > 3 else img[:, :-1]
    try:
        target_recognition(img, tpar(case), case["cam"], cp, **big)
    except ValueError:
        return ["nontrivial"]
    check(False, "a range larger than the image was accepted")


def size():
    return st.one_of(st.sampled_from([14, 20, 28, 40, 9, 17]), st.integers(3, 14), st.integers(3, 40))


@st.composite
def img_case(draw, kinds=("levels", "noise", "blobs", "blobs", "sharp")):
    w, h = draw(size()), draw(size())

    def sub(n):
        return st.one_of(
            st.none(),
            st.none(),
            st.none(),
            st.tuples(st.integers(-2, n), st.integers(0, n)).map(lambda t: [min(t), max(t)]),
        )

    top = st.sampled_from([3, 6, 20, 2000])
    mi, ma = st.sampled_from([1, 1, 1, 1, 2, 3]), st.sampled_from([1000, 1000, 1000, 1000, 4, 6, 12])
    return {
        "seed": draw(seeds()),
        "w": w,
        "h": h,
        "kind": draw(st.sampled_from(kinds)),
        "levels": draw(st.lists(st.integers(0, 255), min_size=1, max_size=5)),
        "bg": draw(st.sampled_from([0, 5, 30])),
        "blobs": draw(st.integers(0, 8)),
        "thr": draw(st.one_of(st.sampled_from([0, 10, 31, 32, 100, 254]), st.integers(0, 254))),
        "other_thr": draw(st.lists(st.integers(0, 255), min_size=4, max_size=4)),
        "cam": draw(st.integers(0, 3)),
        "disco": draw(st.one_of(st.sampled_from([0, 1, 5, 20, 32, 100]), st.integers(0, 300))),
        "lims": [draw(mi), draw(ma), draw(mi), draw(ma), draw(mi), draw(ma), draw(st.sampled_from([0, 10, 100, 0, 300, 1000]))],
        "sub_x": draw(sub(w)),
        "sub_y": draw(sub(h)),
        "what": draw(st.sampled_from(["x", "y", "small"])),
    }


SUBS = [
    Sub("model", img_case(), judge, 2000),
    Sub("components", img_case(), judge_components, 1200),
    Sub("blobs", img_case(kinds=("blobs",)), judge_blobs, 300),
    Sub("range", img_case(), judge_range, 100),
    Sub(
        "large",
        st.fixed_dictionaries(
            {
                "seed": seeds(), "h": st.integers(150, 320), "w": st.integers(320, 640), "r": st.lists(fl(10, 130), min_size=2, max_size=2),
                "round": fl(0.8, 1.3), "slope": st.sampled_from([0, 40, 100]), "thr": st.integers(0, 120), "other_thr": st.just([9] * 4), "cam": st.integers(0, 3),
            }
        ),
        judge_large,
        24,
    ),
    Sub(
        "sheet",
        st.fixed_dictionaries(
            {
                "seed": seeds(), "h": st.sampled_from([330, 360, 420, 400]), "w": st.sampled_from([340, 370, 410]), "level": st.integers(121, 255), "holes": st.integers(0, 3),
                "thr": st.integers(0, 120), "other_thr": st.just([9] * 4), "cam": st.integers(0, 3),
            }
        ),
        judge_sheet,
        8,
        64,
    ),
]
