"""C25 - flat coordinates keep their targets: matched, sorted, looked up and sorted back by number."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check, close
from vp.gen import IDENT_AP, added_pars, fl, make_cal, make_cpar, rng, seeds, AIR

PROPERTY = "C25"
RULE = (
    "Generated sensors and calibrations (any distortion), lists of 0 to 40 targets in any order with any numbers, some "
    "with equal coordinates; non-trivial: at least three targets whose order by flat x is not the given one (matching), "
    "or a list with equal keys (sorting)."
)
ASSUMPTIONS = ["dist_to_flat itself is judged by C02; here it says which flat position belongs to which target."]


def fields(t):
    return (t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr)


def make_targets(g, case):
    from openptv_python.tracking_frame_buf import Target

    n = case["n"]
    xs, ys = g.uniform(0, case["imx"], n), g.uniform(0, case["imy"], n)
    if case["ties"] and n > 2:
        xs[g.integers(0, n)] = xs[0]
        ys[g.integers(0, n)] = ys[0]
    nums = g.permutation(max(n, 1) * 3)[:n] if case["sparse"] else g.permutation(n)
    return [
        Target(
            pnr=int(nums[i]), x=float(xs[i]), y=float(ys[i]), n=int(g.integers(1, 99)), nx=3, ny=4,
            sumg=int(g.integers(1, 999)), tnr=int(g.integers(-1, 9)),
        )
        for i in range(n)
    ]


def judge_match(case):
    from openptv_python.constants import COORD_UNUSED
    from openptv_python.correspondences import py_correspondences
    from openptv_python.parameters import VolumePar
    from openptv_python.tracking_frame_buf import get_by_pnrs, match_coords, matched_coords_as_arrays
    from openptv_python.trafo import dist_to_flat

    g = rng(case["seed"])
    cpar = make_cpar(dict(imx=case["imx"], imy=case["imy"], pix=case["pix"], num_cams=1, mm=AIR))
    cal = make_cal(dict(pos=[0.0, 0.0, 100.0], ang=[0.0, 0.0, 0.0], pp=case["pp"], glass=[0.0, 0.0, 10.0], ap=case["ap"]))
    targs = make_targets(g, case)
    n = len(targs)
    before = [fields(t) for t in targs]
    m = match_coords(targs, cpar, cal, case["tol"], case["reset"])
    if case["reset"]:
        check([t.pnr for t in targs] == list(range(n)), "numbers after a reset: %s", [t.pnr for t in targs])
        check([fields(t)[1:] for t in targs] == [b[1:] for b in before], "targets changed beyond their numbers")
    else:
        check([fields(t) for t in targs] == before, "the targets were changed")
    check(len(m) == n, "%d flat points for %d targets", len(m), n)
    want = {}
    for t in targs:
        xm, ym = (t.x - cpar.imx / 2) * cpar.pix_x, (cpar.imy / 2 - t.y) * cpar.pix_y
        want[t.pnr] = dist_to_flat(xm, ym, cal, case["tol"])
    check(sorted(int(p) for p in m.pnr) == sorted(want), "numbers %s for targets %s", sorted(m.pnr), sorted(want))
    for p, x, y in zip(m.pnr, m.x, m.y):
        close([x, y], want[int(p)], 1e-9, "flat position of target %d" % p)
    check(all(a <= b for a, b in zip(m.x, m.x[1:])), "not sorted by x: %s", list(m.x))
    pos, pnr = matched_coords_as_arrays(m)
    check(np.shape(pos) == (n, 2) and np.shape(pnr) == (n,), "arrays of shapes %s, %s", np.shape(pos), np.shape(pnr))
    check((pos[:, 0] == m.x).all() and (pos[:, 1] == m.y).all() and (pnr == m.pnr).all(), "arrays differ from the block")
    # lookup, in the order asked for, with unknown numbers
    ask = [int(x) for x in g.permutation([t.pnr for t in targs] + [1000, 1001])[: case["ask"]]]
    keep = m.copy()
    got = get_by_pnrs(m, np.array(ask, dtype=int))
    check(np.shape(got) == (len(ask), 2), "lookup of %d numbers: shape %s", len(ask), np.shape(got))
    for a, q in zip(ask, got):
        close(q, want.get(a, (COORD_UNUSED, COORD_UNUSED)), 1e-9, "looked-up position of number %d" % a)
    check((m == keep).all(), "the lookup changed the block")
    # a single camera: every target, once, with its own pixel position
    if not case["sparse"] and n:
        t1 = sorted(targs, key=lambda t: t.pnr)
        vp = VolumePar(x_lay=[-9.0, 9.0], z_min_lay=[-9.0, -9.0], z_max_lay=[9.0, 9.0], cn=0.1, cnx=0.1, cny=0.1, csumg=0.1, eps0=0.1, corrmin=1)
        p, c, num = py_correspondences([t1], [m], [cal], vp, cpar)
        check(num == n, "single camera: %d of %d targets", num, n)
        check(len(p) == 1 and np.shape(p[0]) == (1, n, 2) and np.shape(c[0]) == (1, n), "single camera: shapes %s %s", np.shape(p[0]), np.shape(c[0]))
        check(sorted(int(x) for x in c[0][0]) == list(range(n)), "single camera: identifiers %s", list(c[0][0]))
        for x, q in zip(c[0][0], p[0][0]):
            close(q, [t1[x].x, t1[x].y], 0, "single camera: position of target %d" % x)
            check(m.pnr[t1[x].tnr] == x, "single camera: target %d refers to flat point %d", x, t1[x].tnr)
    moved = n > 2 and [int(p) for p in m.pnr] != [t.pnr for t in targs]
    return ["nontrivial"] if moved else ["few"]


def judge_sort(case):
    from openptv_python.epi import Coord2d_dtype, sort_coord2d_x, sort_coord2d_y
    from openptv_python.track import sort
    from openptv_python.tracking_frame_buf import n_tupel_dtype, quicksort_n_tupel, sort_target_y

    g = rng(case["seed"])
    n = case["n"]
    vals = [float(x) for x in (g.integers(0, max(2, n // 2), n) if case["ties"] else g.permutation(n))]
    ids = [int(x) for x in g.permutation(n)]
    pairs = sorted(zip(vals, ids))
    # the first k of two lists
    k = min(case["k"], n)
    if k:
        a, b = list(vals), list(ids)
        ra, rb = sort(k, a, b)
        check(list(ra[k:]) == vals[k:] and list(rb[k:]) == ids[k:], "sort changed what lies beyond the first %d", k)
        check(all(x <= y for x, y in zip(ra, list(ra)[1:k])), "sort: %s", list(ra))
        check(sorted(zip(ra[:k], rb[:k])) == sorted(zip(vals[:k], ids[:k])), "sort lost or mixed pairs")
        check(list(a) == list(ra) and list(b) == list(rb), "sort is not in place")
    # records
    rec = np.zeros(n, dtype=Coord2d_dtype).view(np.recarray)
    for i in range(n):
        rec[i] = (ids[i], vals[i], -vals[i])
    for f, col in ((sort_coord2d_x, "x"), (sort_coord2d_y, "y")):
        r = f(rec.copy())
        check(all(p <= q for p, q in zip(r[col], r[col][1:])), "%s: %s", f.__name__, list(r[col]))
        check(sorted(r.tolist()) == sorted(rec.tolist()), "%s lost or changed records", f.__name__)
    tup = np.zeros(n, dtype=n_tupel_dtype).view(np.recarray)
    for i in range(n):
        tup[i] = ([ids[i], -1, i, -1], vals[i])
    key = sorted((tuple(t["p"].tolist()), float(t["corr"])) for t in tup)
    r = quicksort_n_tupel(tup)
    check(all(p <= q for p, q in zip(r["corr"], r["corr"][1:])), "quicksort_n_tupel: %s", list(r["corr"]))
    check(sorted((tuple(t["p"].tolist()), float(t["corr"])) for t in r) == key, "quicksort_n_tupel lost or changed tuples")
    targs = make_targets(g, dict(case, imx=100, imy=100, sparse=False))
    before = [fields(t) for t in targs]
    r = sort_target_y(targs)
    check(all(p.y <= q.y for p, q in zip(r, r[1:])), "sort_target_y: %s", [t.y for t in r])
    check(sorted(fields(t) for t in r) == sorted(before), "sort_target_y lost or changed targets")
    return ["nontrivial"] if len(set(vals)) < n or (n > 2 and pairs != list(zip(vals, ids))) else ["few"]


SIZE = st.sampled_from([12, 3, 0, 1, 2, 5, 40])

SUBS = [
    Sub(
        "match",
        st.fixed_dictionaries(
            dict(
                seed=seeds(), n=SIZE, imx=st.integers(200, 3000), imy=st.integers(200, 3000),
                pix=st.tuples(fl(0.002, 0.006), fl(0.002, 0.006)).map(list),
                pp=st.tuples(fl(-0.5, 0.5), fl(-0.5, 0.5), fl(20, 120)).map(list),
                ap=st.one_of(st.just(IDENT_AP), added_pars(1.0), added_pars(1.0)), tol=st.sampled_from([1e-5, 1e-3, 1e-8]),
                ties=st.booleans(), sparse=st.booleans(), reset=st.booleans(), ask=st.integers(0, 45),
            )
        ),
        judge_match,
        quick=900,
        thorough=40000,
    ),
    Sub(
        "sort",
        st.fixed_dictionaries(dict(seed=seeds(), n=SIZE, ties=st.booleans(), k=st.sampled_from([4, 0, 1, 2, 8, 40]))),
        judge_sort,
        quick=1500,
        thorough=30000,
    ),
]
