"""C01 - pixel and metric image coordinates."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check, close
from vp.gen import fl, make_cpar, seeds, rng, AIR

PROPERTY = "C01"
RULE = (
    "Generated sensors (size 1..5000 px, odd and even, pixel pitch 1e-4..1 mm, the two pitches "
    "independent) and image points up to ten sensors outside; non-trivial: pitches differ, sensor is not "
    "square and the point is off both axes (arrays: at least two such points)."
)

sensor = st.fixed_dictionaries(
    {
        "imx": st.integers(1, 5000),
        "imy": st.integers(1, 5000),
        "pix": st.tuples(fl(1e-4, 1.0), fl(1e-4, 1.0)).map(list),
        "mm": st.just(AIR),
    }
)


def par(c):
    return make_cpar(c)


def nontriv(c, x, y):
    return (
        c["imx"] != c["imy"] and c["pix"][0] != c["pix"][1] and x != c["imx"] / 2 and y != c["imy"] / 2
    )


def judge_scalar(case):
    from openptv_python.trafo import metric_to_pixel, pixel_to_metric

    c, x, y = case["sensor"], case["x"], case["y"]
    cp = par(c)
    mx, my = pixel_to_metric(x, y, cp)
    scale = abs(x) + abs(y) + c["imx"] + c["imy"]
    px, py = c["pix"]
    close(mx, (x - c["imx"] / 2) * px, 1e-12 * scale * px, "metric x")
    close(my, (c["imy"] / 2 - y) * py, 1e-12 * scale * py, "metric y")
    bx, by = metric_to_pixel(mx, my, cp)
    close(bx, x, 1e-11 * scale, "pixel x after the round trip")
    close(by, y, 1e-11 * scale, "pixel y after the round trip")
    # the sensor centre is the metric origin, x grows to the right, y upwards
    check(pixel_to_metric(c["imx"] / 2, c["imy"] / 2, cp) == (0.0, 0.0), "centre is not the origin")
    check(cp.imx == c["imx"] and cp.pix_y == py, "parameters changed")
    return ["nontrivial"] if nontriv(c, x, y) else []


def judge_array(case):
    from openptv_python.trafo import (
        arr_metric_to_pixel,
        arr_pixel_to_metric,
        metric_to_pixel,
        pixel_to_metric,
    )

    c = case["sensor"]
    cp = par(c)
    r = rng(case["seed"])
    n = case["n"]
    pts = r.integers(-3 * c["imx"] - 2, 4 * c["imx"] + 2, size=(n, 2)).astype(np.int32)
    pts[:, 1] = r.integers(-3 * c["imy"] - 2, 4 * c["imy"] + 2, size=n)
    before = pts.copy()
    m = arr_pixel_to_metric(pts, c["imx"], c["imy"], c["pix"][0], c["pix"][1])
    check((pts == before).all(), "arr_pixel_to_metric changed its input")
    check(m.shape == (n, 2), "shape %s", m.shape)
    for i in range(n):
        a = pixel_to_metric(float(pts[i, 0]), float(pts[i, 1]), cp)
        close(m[i], a, 1e-12 * 2e4, "row %d of arr_pixel_to_metric" % i)
    keep = m.copy()
    p = arr_metric_to_pixel(m, cp)
    check((m == keep).all(), "arr_metric_to_pixel changed its input")
    close(p, pts.astype(float), 1e-7, "array round trip")
    for i in range(n):
        a = metric_to_pixel(float(m[i, 0]), float(m[i, 1]), cp)
        close(p[i], a, 1e-7, "row %d of arr_metric_to_pixel" % i)
    if n:
        close(arr_metric_to_pixel(m[0], cp)[0], p[0], 0.0, "a single point given as a vector")
    return ["nontrivial"] if n > 1 and c["imx"] != c["imy"] and c["pix"][0] != c["pix"][1] else []


coord = st.one_of(fl(-100, 6000), fl(-5e4, 5e4), st.integers(-10, 5010).map(float))
SUBS = [
    Sub(
        "scalar",
        st.fixed_dictionaries({"sensor": sensor, "x": coord, "y": coord}),
        judge_scalar,
        quick=4000,
        thorough=100000,
        examples=[{"sensor": {"imx": 1023, "imy": 768, "pix": [0.01, 0.02], "mm": AIR}, "x": 0.0, "y": 0.0}],
    ),
    Sub(
        "array",
        st.fixed_dictionaries({"sensor": sensor, "n": st.integers(0, 12), "seed": seeds()}),
        judge_array,
        quick=1500,
        thorough=40000,
    ),
]
