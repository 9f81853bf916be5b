"""C13 - image preprocessing."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check, close
from vp.gen import AIR, fl, make_cpar, rng, seeds

PROPERTY = "C13"
RULE = (
    "Generated 8-bit images from 1x1 to 40x40, every filter width up to 6, each second filter, kernels of non-negative "
    "and mixed weights; non-trivial: the image is not constant and the filter reaches across its border."
)
ASSUMPTIONS = [
    "The present combination of the image with its low pass (bitwise or) is what the repository's tests require.",
    "Averages are taken along the columns, then along the rows, and rounded down each time, with zero outside.",
    "With a kernel of mixed weights only results within 0..255 are compared (8-bit overflow is not specified).",
]


def image(case):
    g = rng(case["seed"])
    h, w = case["h"], case["w"]
    if case["kind"] == "noise":
        return g.integers(0, 256, (h, w)).astype(np.uint8)
    if case["kind"] == "flat":
        return np.full((h, w), case["level"], np.uint8)
    img = np.where(g.random((h, w)) < 0.1, case["level"], g.integers(0, 20, (h, w)))
    return img.astype(np.uint8)


def line_mean(a, n):
    """Mean over 2n+1 places along the first axis, zero outside, rounded down."""
    h = a.shape[0]
    out = np.zeros(a.shape, int)
    for i in range(h):
        out[i] = a[max(0, i - n) : i + n + 1].astype(int).sum(axis=0) // (2 * n + 1)
    return out


def box(a, n):
    return line_mean(line_mean(a, n).T, n).T


def judge(case):
    from openptv_python.image_processing import prepare_image, preprocess_image

    img = image(case)
    keep = img.copy()
    n, hp = case["dim"], case["hp"]
    base = img.astype(int) | box(img, n)
    labels = ["hp%d" % hp]
    d = tempfile.mkdtemp(dir=".")
    path = os.path.join(d, case["name"])
    if hp == 2:
        k = np.array(case["kernel"]).reshape(3, 3)
        sep = case["sep"]
        with open(path, "w") as f:
            f.write("\n".join(sep.join(repr(float(v)) for v in row) for row in k) + "\n")
        out = prepare_image(img, dim_lp=n, filter_hp=2, filter_file=path)
        check(open(path).read().split()[0] == repr(float(k[0, 0])), "the kernel file was changed")
        pad = np.zeros((img.shape[0] + 2, img.shape[1] + 2))
        pad[1:-1, 1:-1] = base
        ref = np.zeros(img.shape)
        for a in range(3):
            for b in range(3):  # a convolution: the kernel is turned round
                ref += k[2 - a, 2 - b] * pad[a : a + img.shape[0], b : b + img.shape[1]]
        ok = (ref >= 0) & (ref < 255.5)
        check(out.shape == img.shape and out.dtype == np.uint8, "the result is %s %s", out.shape, out.dtype)
        diff = ref[ok] - out[ok]  # rounded down
        check((diff > -1e-6).all() and (diff < 1 + 1e-6).all(), "convolution differs by %s", diff[np.argmax(np.abs(diff))] if diff.size else 0)
        # with the kernel that takes one neighbour the image moves by one place
    else:
        out = prepare_image(img, dim_lp=n, filter_hp=hp)
        ref = box(base, 1) if hp == 1 else base
        check(out.shape == img.shape and out.dtype == np.uint8, "the result is %s %s", out.shape, out.dtype)
        bad = np.argwhere(out != ref)
        check(not len(bad), "pixel %s is %s instead of %s", bad[:1].tolist(), out[tuple(bad[0])] if len(bad) else 0, ref[tuple(bad[0])] if len(bad) else 0)
    check((img == keep).all(), "the image was changed")
    out2 = preprocess_image(img, hp if hp < 2 else 0, cparam(case), n)
    ref2 = base if hp != 1 else box(base, 1)
    check((out2 == ref2).all(), "preprocess_image differs from prepare_image")
    if hp != 2:  # a range of the image does not depend on what is far away
        m = n + (1 if hp == 1 else 0)
        h, w = img.shape
        i, j = int(case["cut"][0] * h), int(case["cut"][1] * w)
        sub = prepare_image(np.ascontiguousarray(img[i:, j:]), dim_lp=n, filter_hp=hp)
        a, b = min(m, h - i) if i else 0, min(m, w - j) if j else 0
        check((sub[a:, b:] == out[i + a :, j + b :]).all(), "the filter depends on far away pixels")
    if img.min() != img.max() and min(img.shape) > n:
        labels.append("nontrivial")
    return labels


def cparam(case):
    return make_cpar({"num_cams": 1, "imx": case["w"], "imy": case["h"], "pix": [0.01, 0.01], "mm": AIR})


def judge_refuse(case):
    from openptv_python.image_processing import prepare_image

    img = image(case)
    d = tempfile.mkdtemp(dir=".")
    path = os.path.join(d, "filter.par")
    if case["bad"] == "dtype":
        try:
            prepare_image(img.astype(case["dtype"]))
        except TypeError:
            return ["nontrivial"]
        check(False, "an image of %s was accepted", case["dtype"])
    if case["bad"] == "short":
        with open(path, "w") as f:
            f.write(" ".join(["1.0"] * case["count"]))
    if case["bad"] == "text":
        with open(path, "w") as f:
            f.write("1 2 3\n4 five 6\n7 8 9")
    try:
        prepare_image(img, dim_lp=1, filter_hp=2, filter_file=path)
    except IOError:
        return ["nontrivial"]
    check(False, "a filter file (%s) was accepted", case["bad"])


def judge_mask(case):
    from openptv_python.image_processing import copy_images, subtract_mask

    img = image(case)
    keep = img.copy()
    mask = image(dict(case, seed=case["seed"] ^ 1, kind="noise"))
    mask[rng(case["seed"]).random(mask.shape) < case["holes"]] = 0
    mkeep = mask.copy()
    out = subtract_mask(img, mask)
    check((out == np.where(mask == 0, 0, img)).all(), "masked image")
    check((img == keep).all() and (mask == mkeep).all(), "an argument was changed")
    dup = copy_images(img)
    check((dup == img).all() and dup.dtype == img.dtype, "copy differs")
    dup += 1
    check((img == keep).all(), "the copy shares its pixels with the image")
    return ["nontrivial"] if (mask == 0).any() and (mask != 0).any() else []


kernels = st.one_of(
    st.sampled_from(
        [
            [0, 0, 0, 0, 1, 0, 0, 0, 0],
            [0, 1, 0, 0, 0, 0, 0, 0, 0],
            [0, 0, 0, 1, 0, 0, 0, 0, 0],
            [0, -1, 0, -1, 5, -1, 0, -1, 0],
            [1, 1, 1, 1, -8, 1, 1, 1, 1],
        ]
    ),
    st.lists(fl(0.0, 0.11), min_size=9, max_size=9),
    st.lists(fl(-1, 1), min_size=9, max_size=9),
)

img_case = st.fixed_dictionaries(
    {
        "seed": seeds(),
        "w": st.one_of(st.sampled_from([12, 20, 33]), st.integers(1, 40)),
        "h": st.one_of(st.sampled_from([12, 20, 33]), st.integers(1, 40)),
        "kind": st.sampled_from(["noise", "noise", "spots", "flat"]),
        "level": st.sampled_from([255, 0, 1, 128, 77]),
        "dim": st.sampled_from([1, 2, 3, 1, 4, 6, 0, 13, 30]),
        "hp": st.sampled_from([0, 1, 2]),
        "kernel": kernels,
        "sep": st.sampled_from([" ", "\t", "   "]),
        "name": st.sampled_from(["filter.par", "f", "a b.txt"]),
        "cut": st.tuples(fl(0, 0.9), fl(0, 0.9)).map(list),
        "bad": st.sampled_from(["dtype", "missing", "short", "text"]),
        "dtype": st.sampled_from(["float64", "int32", "uint16", "int8", "bool"]),
        "count": st.sampled_from([0, 3, 8, 10]),
        "holes": st.sampled_from([0.1, 0.5]),
    }
)

SUBS = [
    Sub("filter", img_case, judge, 2500),
    Sub("mask", img_case, judge_mask, 400),
    Sub("refuse", img_case, judge_refuse, 200),
]
