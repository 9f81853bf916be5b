"""C04 - rays traced back through the media."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Reject, Sub, check, close
from vp.gen import View, fl, view

PROPERTY = "C04"
RULE = (
    "Generated cameras in front of a glass plane of any orientation and distance (tilted up to about 40 degrees), "
    "one glass layer of any thickness and index, any last index, image points over the sensor; non-trivial: the "
    "glass is not perpendicular to a coordinate axis or the camera is tilted, and the three indices differ."
)
ASSUMPTIONS = [
    "Back-projection is defined for one glass layer and a camera on the outer side of the glass (the library's own "
    "convention); forward projection stops iterating at 0.001 mm, and the tolerance is derived from that.",
]


def nontriv(v):
    m = v.mm
    return len({m["n1"], m["n2"][0], m["n3"]}) == 3 and (any(v.c["q"]) or any(v.c["lat"])) and m["d"][0] > 0


def judge_snell(case):
    from openptv_python.ray_tracing import ray_tracing

    v = View(case["view"])
    x, y = case["pt"]
    ref = v.trace(x, y)
    if ref is None:
        raise Reject
    glass = v.cal.glass_par.copy()
    X, a = ray_tracing(x, y, v.cal, v.mmpar)
    check((v.cal.glass_par == glass).all(), "the glass vector changed")
    scale = 1e-12 * (1000 + np.abs(v.pos).max())
    # the sine is taken from the cosine: 8 digits are left next to the glass normal
    sin_air = np.linalg.norm(np.cross(v.Q[:, 2], v.R @ np.array([x, y, -v.cc]))) / math.hypot(x, y, v.cc)
    dull = 1e-9 + min(1e-7, 2e-15 / max(sin_air, 1e-12))
    close(np.linalg.norm(a), 1.0, dull, "length of the direction")
    close(a, ref[1], dull, "direction in the last medium")
    close(X, ref[0], 1e3 * scale + (dull - 1e-9) * 2 * v.mm["d"][0], "point on the water side of the glass")
    g = v.Q[:, 2]
    close(g @ X, v.G, 1e3 * scale, "height of the crossing point")
    # Snell's law between the first and the last medium, and the plane of incidence
    s = v.R @ (np.array([x, y, -v.cc]) / math.sqrt(x * x + y * y + v.cc**2))
    close(
        np.cross(g, a) * v.mm["n3"], np.cross(g, s) * v.mm["n1"], 2 * dull, "n sin(angle) across the interfaces"
    )
    check(g @ a < 0, "the ray does not go into the water")
    if len({v.mm["n1"], v.mm["n2"][0], v.mm["n3"]}) == 1:
        close(a, s, 2e-7, "direction when all indices are equal")
        w = X - v.pos
        close(np.linalg.norm(np.cross(w, s)), 0.0, 1e-7 * (1 + v.c["h"] + v.mm["d"][0]), "straight line through the camera")
    return ["nontrivial"] if nontriv(v) else []


def judge_roundtrip(case):
    from openptv_python.imgcoord import flat_image_coord, img_coord
    from openptv_python.ray_tracing import ray_tracing
    from openptv_python.trafo import dist_to_flat

    v = View(case["view"])
    x, y = case["pt"]
    if v.trace(x, y) is None:
        raise Reject
    X, a = ray_tracing(x, y, v.cal, v.mmpar)
    labels = []
    prev = None
    for s in case["s"]:
        p = X + s * a
        tol = v.slack(p)
        if tol is None:
            labels.append("grazing")
            continue
        u = flat_image_coord(p, v.cal, v.mmpar)
        close(u, (x, y), tol + 1e-7 * v.cc, "image of a point %.3g mm along the traced ray" % s)
        if nontriv(v) and s > 1:
            labels.append("nontrivial")
    return labels


pt = st.tuples(fl(-5, 5), fl(-4, 4)).map(list)
SUBS = [
    Sub(
        "snell",
        st.fixed_dictionaries({"view": view(), "pt": pt}),
        judge_snell,
        quick=6000,
        thorough=100000,
    ),
    Sub(
        "roundtrip",
        st.fixed_dictionaries(
            {"view": view(), "pt": pt, "s": st.lists(fl(0, 300), min_size=1, max_size=3)}
        ),
        judge_roundtrip,
        quick=4000,
        thorough=80000,
    ),
]
