"""C26 - the vectors, angles and predictions of tracking are what their names say."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check, close
from vp.gen import fl, rng, rot, seeds, vec

PROPERTY = "C26"
RULE = (
    "Generated vectors of any direction and of length 0 to 1000, also equal, opposite, parallel and nearly so; "
    "generated bounds with values on them; non-trivial: vectors that are not zero."
)
ASSUMPTIONS = ["Relative accuracy of 1e-9 and an angle accuracy of 1e-4 gon (arc cosine near 0 and 200 gon)."]

COORD = st.one_of(fl(-1000, 1000), fl(-5, 5), st.sampled_from([0.0, 1.0, -1.0, 2.5]))
V3 = st.lists(COORD, min_size=3, max_size=3)


def judge_vec(case):
    from openptv_python import vec_utils as u

    a, b = np.array(case["a"]), np.array(case["b"])
    c = case["c"]
    a0, b0 = a.copy(), b.copy()
    na = math.sqrt(math.fsum(x * x for x in a))
    s = 1 + float(np.abs(a).max()) + float(np.abs(b).max())
    close(u.vec_norm(a), na, 1e-9 * s, "vec_norm")
    close(u.norm(*map(float, a)), na, 1e-9 * s, "norm")
    close(u.vec_set(*map(float, a)), a, 0, "vec_set")
    close(u.vec_subt(a, b), [x - y for x, y in zip(a, b)], 1e-9 * s, "vec_subt")
    close(u.vec_add(a, b), [x + y for x, y in zip(a, b)], 1e-9 * s, "vec_add")
    close(u.vec_scalar_mul(a, c), [x * c for x in a], 1e-9 * s * (1 + abs(c)), "vec_scalar_mul")
    close(u.vec_diff_norm(a, b), math.dist(a, b), 1e-9 * s, "vec_diff_norm")
    close(u.vec_dot(a, b), math.fsum(x * y for x, y in zip(a, b)), 1e-9 * s * s, "vec_dot")
    cr = u.vec_cross(a, b)
    want = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    close(cr, want, 1e-9 * s * s, "vec_cross")
    close([u.vec_dot(a, cr), u.vec_dot(b, cr)], [0, 0], 1e-9 * s**3, "cross product is perpendicular")
    if na > 1e-6:
        close(u.unit_vector(a), a / na, 1e-9, "unit_vector")
    if na == 0:
        close(u.unit_vector(a), a, 0, "unit_vector of zero")
    cp = u.vec_copy(a)
    cp += 1
    check((a == a0).all() and (b == b0).all(), "an argument was changed (or the copy shares its data)")
    for n in (0, 3, 5):
        z = u.vec_init(n)
        check(len(z) == n and (np.asarray(z) == 0).all(), "vec_init(%d): %s", n, z)
    tol = case["tol"]
    d = a + tol * 0.5 * np.array(case["side"])
    check(bool(u.vec_cmp(a, d, tol)) is True, "vec_cmp: %s and %s are equal within %g", a, d, tol)
    far = a.copy()
    far[case["axis"]] += case["side"][0] * (2 * tol + 1e-4 * (1 + abs(a[case["axis"]])))
    check(bool(u.vec_cmp(a, far, tol)) is False, "vec_cmp: %s and %s are not equal within %g", a, far, tol)
    return ["nontrivial"] if na > 0 and (b != 0).any() else ["zero"]


def angle(u, v):
    """Angle in gon, accurate everywhere."""
    return 200 / math.pi * math.atan2(np.linalg.norm(np.cross(u, v)), float(u @ v))


def judge_kin(case):
    from openptv_python.track import angle_acc, predict, search_volume_center_moving

    g = rng(case["seed"])
    a = np.array(case["a"])
    v = np.array(case["b"]) * case["slow"]
    kind = case["kind"]
    if kind == "same":
        w = v.copy()
    elif kind == "opposite":
        w = -v
    elif kind == "parallel":
        w = v * g.uniform(0.1, 3)
    elif kind == "back":
        w = -v * g.uniform(0.1, 3)
    elif kind == "close":
        w = v + g.normal(size=3) * 1e-3 * case["slow"]
    elif kind == "stop":
        w = np.zeros(3)
    else:
        w = np.array(case["w"]) * case["slow"]
    pred, cand = a + v, a + w
    v, w = pred - a, cand - a  # as they are after rounding
    keep = [x.copy() for x in (a, pred, cand)]
    got = angle_acc(a, pred, cand)
    check(np.shape(got) == (2,), "shape %s", np.shape(got))
    ang, acc = float(got[0]), float(got[1])
    scale = 1 + float(np.abs(np.concatenate([a, v, w])).max())
    close(acc, math.dist(pred, cand), 1e-9 * scale, "acceleration")
    check(0 <= ang <= 200 + 1e-9, "angle %r gon", ang)
    nv, nw = np.linalg.norm(v), np.linalg.norm(w)
    small = min(nv, nw)
    if small == 0:
        check(ang == 0, "no direction, but an angle of %r gon", ang)
    elif small > 1e-60:
        close(ang, angle(v, w), 1e-3, "angle between %s and %s" % (v.tolist(), w.tolist()))
    if small > 1e-3 * scale:
        # neither the order of the two, nor turning, moving or stretching all three changes it
        r, sft, f = rot(g.uniform(-3, 3, 3)), g.uniform(-10, 10, 3), float(g.uniform(0.2, 4))
        close(angle_acc(a, cand, pred), [ang, acc], [1e-6, 1e-9 * scale], "with prediction and candidate exchanged")
        t = [f * (r @ x) + sft for x in (a, pred, cand)]
        close(angle_acc(*t), [ang, f * acc], [1e-2, 1e-7 * scale], "turned, moved and stretched")
    # prediction: as far again as the last step
    c = search_volume_center_moving(a, pred)
    close(c, pred + v, 1e-9 * scale, "centre of the search volume")
    out = np.full(2, 7.0)
    predict(a[:2].copy(), pred[:2].copy(), out)
    close(out, 2 * pred[:2] - a[:2], 1e-9 * scale, "predicted image position")
    out3 = [7.0, 7.0]
    predict(list(a[:2]), list(pred[:2]), out3)
    close(out3, 2 * pred[:2] - a[:2], 1e-9 * scale, "predicted image position, in a list")
    check(all((x == y).all() for x, y in zip(keep, (a, pred, cand))), "an argument was changed")
    return ["nontrivial", kind] if nv > 0 and nw > 0 else ["rest", kind]


def judge_bounds(case):
    from openptv_python.parameters import TrackParTuple
    from openptv_python.track import pos3d_in_bounds

    lo, hi = [-x for x in case["lo"]], case["hi"]
    t = TrackParTuple(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], 100.0, 1.0, 0, 0, 0, 0, 0)
    p = []
    for k, (w, where) in enumerate(zip(case["w"], case["where"])):
        p.append(
            {
                "in": lo[k] + (hi[k] - lo[k]) * (0.02 + 0.96 * w), "at_lo": lo[k], "at_hi": hi[k],
                "below": lo[k] - 0.01 - w, "above": hi[k] + 0.01 + w,
            }[where]
        )
    want = all(a < x < b for a, x, b in zip(lo, p, hi))
    got = bool(pos3d_in_bounds(np.array(p), t))
    check(got == want, "%s in bounds %s %s: %s", p, lo, hi, got)
    n_out = sum(w != "in" for w in case["where"])
    return ["nontrivial"] if n_out <= 1 else ["out"]


WHERE = st.one_of(st.just("in"), st.just("in"), st.sampled_from(["in", "at_lo", "at_hi", "below", "above"]))
SUBS = [
    Sub(
        "vectors",
        st.fixed_dictionaries(
            dict(
                a=V3, b=V3, c=fl(-100, 100), tol=st.sampled_from([1e-6, 1e-3, 0.5]),
                side=st.lists(st.sampled_from([1, -1]), min_size=3, max_size=3), axis=st.integers(0, 2),
            )
        ),
        judge_vec,
        quick=4000,
        thorough=100000,
    ),
    Sub(
        "motion",
        st.fixed_dictionaries(
            dict(
                seed=seeds(), a=V3, b=V3, w=V3, slow=st.sampled_from([1.0, 1.0, 1e-3, 1e-6]),
                kind=st.sampled_from(["any", "same", "opposite", "parallel", "back", "close", "stop", "any"]),
            )
        ),
        judge_kin,
        quick=6000,
        thorough=150000,
    ),
    Sub(
        "bounds",
        st.fixed_dictionaries(
            dict(
                lo=st.lists(fl(0.1, 50), min_size=3, max_size=3), hi=st.lists(fl(0.1, 50), min_size=3, max_size=3),
                w=st.lists(fl(0, 1), min_size=3, max_size=3), where=st.lists(WHERE, min_size=3, max_size=3),
            )
        ),
        judge_bounds,
        quick=4000,
        thorough=100000,
    ),
]
