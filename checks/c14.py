"""C14 - parameter files: every value lands in its own field, and survives YAML, dictionaries and comparison."""
import copy
import dataclasses
import os
from pathlib import Path

from hypothesis import strategies as st

from vp.core import Sub, check

PROPERTY = "C14"
RULE = (
    "Generated values for every parameter class, rendered as the legacy text file (drawn white space and line "
    "endings, trailing lines) or YAML, read back and compared field by field; comparison functions on pairs that "
    "differ in one drawn field; non-trivial: no two numeric fields of the case are equal, so that a swap shows."
)
ASSUMPTIONS = ["File names have no leading or trailing white space, as the line-based formats require."]

num = st.one_of(
    st.floats(-1000, 1000, allow_nan=False, allow_subnormal=False),
    st.integers(-4000, 4000).map(lambda i: i / 8),
)
integer = st.one_of(st.integers(-5, 300), st.integers(0, 10**6))
flag = st.integers(0, 1)
name = st.one_of(
    st.text("abcdefgXYZ0123456789._-/% #", min_size=1, max_size=24).map(str.strip).filter(bool),
    st.sampled_from(["cal/cam1.tif", "img/cam1.%05d", "yes", "null", "123", "1.5e3", "a: b", "~", "- x", "étalon"]),
)


def lst(e, n):
    return st.lists(e, min_size=n, max_size=n)


def fields(cls):
    return [f.name for f in dataclasses.fields(cls)]


def P():
    from openptv_python import parameters as p

    return p


mm_st = st.integers(1, 3).flatmap(
    lambda n: st.fixed_dictionaries(
        {"nlay": st.just(n), "n1": num, "n2": lst(num, n), "d": lst(num, n), "n3": num}
    )
)
mm1_st = st.fixed_dictionaries(
    {"nlay": st.just(1), "n1": num, "n2": lst(num, 1), "d": lst(num, 1), "n3": num}
)
NUM = ["dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc"]
ORI = ["useflag", "ccflag", "xhflag", "yhflag", "k1flag", "k2flag", "k3flag", "p1flag", "p2flag", "scxflag", "sheflag", "interfflag"]
TARG = ["discont", "nnmin", "nnmax", "nxmin", "nxmax", "nymin", "nymax", "sumg_min", "cr_sz"]


def ctrl(mm):
    return st.integers(1, 4).flatmap(
        lambda n: st.fixed_dictionaries(
            {
                "num_cams": st.just(n),
                "img_base_name": lst(name, n),
                "cal_img_base_name": lst(name, n),
                "hp_flag": flag,
                "all_cam_flag": flag,
                "tiff_flag": flag,
                "imx": integer,
                "imy": integer,
                "pix_x": num,
                "pix_y": num,
                "chfield": integer,
                "mm": mm,
            }
        )
    )


VALUES = {
    "ControlPar": ctrl(mm1_st),
    "SequencePar": st.integers(1, 4).flatmap(
        lambda n: st.fixed_dictionaries({"img_base_name": lst(name, n), "first": integer, "last": integer})
    ),
    "TrackPar": st.fixed_dictionaries({**{k: num for k in NUM}, "add": flag}),
    "VolumePar": st.fixed_dictionaries(
        {
            "x_lay": lst(num, 2),
            "z_min_lay": lst(num, 2),
            "z_max_lay": lst(num, 2),
            **{k: num for k in ("cn", "cnx", "cny", "csumg", "eps0", "corrmin")},
        }
    ),
    "TargetPar": st.fixed_dictionaries({"gvthresh": lst(integer, 4), **{k: integer for k in TARG}}),
    "OrientPar": st.fixed_dictionaries({k: st.integers(0, 3) for k in ORI}),
    "CalibrationPar": st.integers(1, 4).flatmap(
        lambda n: st.fixed_dictionaries(
            {
                "fixp_name": name,
                "img_name": lst(name, n),
                "img_ori0": lst(name, n),
                "tiff_flag": flag,
                "pair_flag": flag,
                "chfield": integer,
            }
        )
    ),
    "MultiPlanesPar": st.integers(0, 5).flatmap(
        lambda n: st.fixed_dictionaries({"num_planes": st.just(n), "filename": lst(name, n)})
    ),
    "ExaminePar": st.fixed_dictionaries({"examine_flag": st.booleans(), "combine_flag": st.booleans()}),
    "PftVersionPar": st.fixed_dictionaries({"existing_target_flag": st.booleans()}),
}


def lines_of(kind, v):
    """The legacy file, line by line."""
    if kind == "ControlPar":
        out = [v["num_cams"]]
        for a, b in zip(v["img_base_name"], v["cal_img_base_name"]):
            out += [a, b]
        out += [v[k] for k in ("hp_flag", "all_cam_flag", "tiff_flag", "imx", "imy", "pix_x", "pix_y", "chfield")]
        return out + [v["mm"]["n1"], v["mm"]["n2"][0], v["mm"]["n3"], v["mm"]["d"][0]]
    if kind == "SequencePar":
        return v["img_base_name"] + [v["first"], v["last"]]
    if kind == "TrackPar":
        return [v[k] for k in NUM + ["add"]]
    if kind == "VolumePar":
        out = []
        for i in (0, 1):
            out += [v["x_lay"][i], v["z_min_lay"][i], v["z_max_lay"][i]]
        return out + [v[k] for k in ("cnx", "cny", "cn", "csumg", "corrmin", "eps0")]
    if kind == "TargetPar":
        return v["gvthresh"] + [v[k] for k in TARG]
    if kind == "OrientPar":
        return [v[k] for k in ORI]
    if kind == "CalibrationPar":
        out = [v["fixp_name"]]
        for a, b in zip(v["img_name"], v["img_ori0"]):
            out += [a, b]
        return out + [v["tiff_flag"], v["pair_flag"], v["chfield"]]
    if kind == "MultiPlanesPar":
        return [v["num_planes"]] + v["filename"]
    return [int(v[k]) for k in VALUES_ORDER[kind]]


VALUES_ORDER = {
    "ExaminePar": ["examine_flag", "combine_flag"],
    "PftVersionPar": ["existing_target_flag"],
}


def readers(kind, v):
    p = P()
    cls = getattr(p, kind)
    if kind == "SequencePar":
        n = len(v["img_base_name"])
        return [lambda f: cls.from_file(f, n), lambda f: p.read_sequence_par(f, n)]
    if kind == "CalibrationPar":
        n = len(v["img_name"])
        return [lambda f: cls.from_file(f, n), lambda f: p.read_cal_ori_parameters(f, n)]
    extra = {
        "ControlPar": "read_control_par",
        "TrackPar": "read_track_par",
        "VolumePar": "read_volume_par",
        "TargetPar": "read_target_par",
        "ExaminePar": "read_examine_par",
    }.get(kind)
    return [cls.from_file] + ([getattr(p, extra)] if extra else [])


def expected(kind, v):
    v = copy.deepcopy(v)
    if kind == "TrackPar":
        v.update(dsumg=0.0, dn=0.0, dnx=0.0, dny=0.0)
    return v


def assert_fields(obj, v, what):
    for k, x in v.items():
        got = getattr(obj, k)
        if k == "mm":
            check(not isinstance(got, dict), "%s: mm is a dictionary", what)
            assert_fields(got, x, what + " mm")
            continue
        if isinstance(x, list):
            got = list(got)
        check(got == x, "%s: %s is %r instead of %r", what, k, got, x)


def distinct(v):
    flat = []
    for k, x in v.items():
        if k == "mm":
            x = [y for z in x.values() for y in (z if isinstance(z, list) else [z])]
        flat += [y for y in (x if isinstance(x, list) else [x]) if isinstance(y, float)]
    return len(set(flat)) == len(flat)


def make(kind, v):
    p = P()
    v = copy.deepcopy(v)
    if "mm" in v:
        v["mm"] = p.MultimediaPar(**v["mm"])
    return getattr(p, kind)(**v)


def judge_legacy(case):
    kind, v = case["kind"], case["v"]
    lines = [x if isinstance(x, str) else repr(x) for x in lines_of(kind, v)]
    seps = case["eol"]
    text = "".join(
        case["pad"][i % len(case["pad"])] + l + case["pad"][(i + 1) % len(case["pad"])] + seps
        for i, l in enumerate(lines)
    )
    text += case["tail"]
    if not case["tail"] and case["chop"] and kind != "MultiPlanesPar":
        text = text.rstrip()  # no newline at the end of the file
    f = Path("par.txt")
    f.write_bytes(text.encode("utf-8"))
    first = None
    for r in readers(kind, v):
        obj = r(f)
        assert_fields(obj, expected(kind, v), kind + " from its file")
        first = first or obj
        check(obj == first, "two readers of %s disagree", kind)
    # reading another object later does not reach into the first
    other = readers(kind, v)[0](f)
    for k in v:
        x = getattr(other, k)
        if isinstance(x, list) and x:
            x[:] = [None] * len(x)
        elif k == "mm":
            x.n1 = -77.0
            x.n2[0] = -78.0
            x.d[0] = -79.0
    assert_fields(first, expected(kind, v), kind + " after another object was read and changed")
    if kind == "TargetPar":
        P().write_target_par(make(kind, v), "out.par")
        assert_fields(P().read_target_par(Path("out.par")), v, "TargetPar written and read")
    if kind == "PftVersionPar":
        make(kind, v).write(Path("out.par"))
        assert_fields(P().PftVersionPar.from_file(Path("out.par")), v, "PftVersionPar written and read")
    return ["nontrivial", kind] if distinct(v) else [kind]


COMPARE = {
    "ControlPar": "compare_control_par",
    "SequencePar": "compare_sequence_par",
    "TrackPar": "compare_track_par",
    "VolumePar": "compare_volume_par",
    "TargetPar": "compare_target_par",
    "MultimediaPar": "compare_mm_np",
}
YAML_VALUES = dict(VALUES, ControlPar=ctrl(mm_st), MultimediaPar=mm_st)
YAML_VALUES["TrackPar"] = st.fixed_dictionaries(
    {**{k: num for k in NUM}, "add": flag, **{k: num for k in ("dsumg", "dn", "dnx", "dny")}}
)


def judge_yaml(case):
    kind, v = case["kind"], case["v"]
    p = P()
    cls = getattr(p, kind)
    obj = make(kind, v)
    assert_fields(obj, v, kind + " as constructed")
    f = Path("par.yaml")
    obj.to_yaml(f)
    back = cls.from_yaml(f)
    check(type(back) is cls, "from_yaml gives %s", type(back))
    assert_fields(back, v, kind + " from YAML")
    check(back == obj, "%s from YAML differs from the original", kind)
    d = cls.to_dict(obj)
    keep = copy.deepcopy(d)
    again = cls.from_dict(d)
    assert_fields(again, v, kind + " from its dictionary")
    check(d == keep, "from_dict changed the dictionary")
    again.to_yaml(Path("par2.yaml"))
    check(f.read_bytes() == Path("par2.yaml").read_bytes(), "the YAML file changes on a second round")
    assert_fields(obj, v, kind + " after saving")
    return ["nontrivial", kind] if distinct(v) else [kind]


def judge_compare(case):
    kind, v = case["kind"], case["v"]
    p = P()
    cmp = getattr(p, COMPARE[kind])
    a, b = make(kind, v), make(kind, v)
    check(bool(cmp(a, b)), "equal %s compare different", kind)
    keys = [k for k in fields(getattr(p, kind)) if k in v]
    k = keys[case["which"] % len(keys)]
    if kind == "MultimediaPar" and k == "nlay":
        k = "n1"
    tgt, w = b, v
    if k == "mm":
        tgt, w = b.mm, v["mm"]
        k = ["n1", "n2", "d", "n3"][case["which2"] % 4]
    x = w[k]
    if isinstance(x, list):
        i = case["which2"] % len(x)
        if kind == "MultimediaPar":
            i = 0  # only the first layer takes part
        y = list(x)
        y[i] = y[i] + ("x" if isinstance(y[i], str) else 1)
    elif isinstance(x, str):
        y = x + "x"
    else:
        y = x + 1
    setattr(tgt, k, y)
    check(not cmp(a, b) and not cmp(b, a), "%s with another %s compare equal", kind, k)
    setattr(tgt, k, copy.deepcopy(x))
    check(bool(cmp(a, b)), "%s compare different after %s is restored", kind, k)
    return ["nontrivial", kind]


def judge_access(case):
    """Setters and getters of the classes that have them."""
    p = P()
    t = make("TrackPar", case["track"])
    for k, g in {
        **{k: "get_" + k for k in NUM[:4]},
        "dvzmin": "get_dvz_min",
        "dvzmax": "get_dvz_max",
        "dangle": "get_dangle",
        "dacc": "get_dacc",
        "add": "get_add",
    }.items():
        check(getattr(t, g)() == case["track"][k], "TrackPar.%s", g)
    for i, k in enumerate(("dsumg", "dn", "dnx", "dny")):
        getattr(t, "set_" + k)(float(i) + 0.5)
    for i, k in enumerate(("dsumg", "dn", "dnx", "dny")):
        check(getattr(t, "get_" + k)() == i + 0.5 == getattr(t, k), "TrackPar.%s", k)
    tt = p.convert_track_par_to_tuple(t)
    for k in fields(p.TrackPar):
        check(getattr(tt, k) == getattr(t, k), "TrackPar as a tuple: %s", k)
    c = p.ControlPar(num_cams=2)
    imx, imy = case["size"]
    c.set_image_size((imx, imy))
    c.set_pixel_size((0.25, 0.5))
    c.set_chfield(1)
    c.set_hp_flag(0)
    check((c.imx, c.imy) == (imx, imy) == tuple(c.get_image_size()), "image size")
    check((c.pix_x, c.pix_y) == (0.25, 0.5) == tuple(c.get_pixel_size()), "pixel size")
    check(c.get_chfield() == 1 and c.get_hp_flag() == 0 and c.get_num_cams() == 2, "control flags")
    check(c.get_multimedia_par() is c.mm and c.get_multimedia_params() is c.mm, "multimedia parameters")
    m = c.mm
    m.set_n1(1.25)
    m.set_n3(1.75)
    m.set_layers([1.5, 1.6], [5.0, 6.0])
    check((m.get_n1(), m.get_n3(), list(m.get_n2()), list(m.get_d())) == (1.25, 1.75, [1.5, 1.6], [5.0, 6.0]), "media")
    try:
        m.set_layers([1.5], [5.0, 6.0])
    except ValueError:
        pass
    else:
        check(False, "layers of unequal number were accepted")
    check(list(m.get_n2()) == [1.5, 1.6], "rejected layers were kept")
    check(p.ControlPar().mm.n2 == [1.0] and p.ControlPar().mm.d == [0.0], "defaults are shared between objects")
    s = p.SequencePar(img_base_name=["a", "b"], first=1, last=2)
    s.set_first(imx)
    s.set_last(imy)
    s.set_img_base_name(["c", "d"])
    check((s.get_first(), s.get_last(), s.get_img_base_name(1)) == (imx, imy, "d"), "sequence accessors")
    g = make("TargetPar", case["targ"])
    check(
        (g.get_grey_thresholds(), tuple(g.get_pixel_count_bounds()), tuple(g.get_xsize_bounds()), tuple(g.get_ysize_bounds()), g.get_min_sum_grey())
        == (g.gvthresh, (g.nnmin, g.nnmax), (g.nxmin, g.nxmax), (g.nymin, g.nymax), g.sumg_min),
        "target accessors",
    )
    check(g.gvthresh == case["targ"]["gvthresh"] and p.TargetPar().gvthresh == [], "target thresholds")
    v = make("VolumePar", case["vol"])
    v.set_z_min_lay([1.0, 2.0])
    v.set_z_max_lay([3.0, 4.0])
    for i, k in enumerate(("cn", "cnx", "csumg", "eps0", "corrmin")):
        getattr(v, "set_" + k)(i + 0.5)
    for i, k in enumerate(("cn", "cnx", "csumg", "eps0", "corrmin")):
        check(getattr(v, k) == i + 0.5, "VolumePar.set_%s", k)
    check(v.z_min_lay == [1.0, 2.0] and v.z_max_lay == [3.0, 4.0] and v.x_lay == case["vol"]["x_lay"], "layers")
    return ["nontrivial"] if imx != imy else []


def judge_missing(case):
    p = P()
    f = Path("nothing_%d.par" % case["i"])
    for what, r in (
        ("ControlPar", p.read_control_par),
        ("SequencePar", lambda x: p.read_sequence_par(x, 2)),
        ("TrackPar", p.read_track_par),
        ("VolumePar", p.read_volume_par),
        ("CalibrationPar", lambda x: p.CalibrationPar.from_file(x, 2)),
        ("MultiPlanesPar", p.MultiPlanesPar.from_file),
        ("ExaminePar", p.ExaminePar.from_file),
    ):
        try:
            r(f)
        except OSError:
            continue
        check(False, "a missing %s file was read", what)
    return ["nontrivial"]


def kinded(values):
    return st.one_of(
        [st.fixed_dictionaries({"kind": st.just(k), "v": s}) for k, s in sorted(values.items())]
    )


def plus(s, **kw):
    return st.tuples(s, st.fixed_dictionaries(kw)).map(lambda t: {**t[0], **t[1]})


SUBS = [
    Sub(
        "legacy",
        plus(
            kinded(VALUES),
            eol=st.sampled_from(["\n", "\n", "\r\n"]),
            pad=st.lists(st.sampled_from(["", "", " ", "\t", "  "]), min_size=1, max_size=5),
            tail=st.sampled_from(["", "", "\n", "7\n", "comment\n"]),
            chop=st.booleans(),
        ),
        judge_legacy,
        quick=3000,
        thorough=60000,
    ),
    Sub("yaml", kinded(YAML_VALUES), judge_yaml, quick=1500, thorough=30000),
    Sub(
        "compare",
        plus(
            kinded({k: YAML_VALUES[k] for k in COMPARE}),
            which=st.integers(0, 11),
            which2=st.integers(0, 3),
        ),
        judge_compare,
        quick=2500,
        thorough=50000,
    ),
    Sub(
        "access",
        st.fixed_dictionaries(
            {
                "track": VALUES["TrackPar"],
                "size": st.tuples(st.integers(1, 4000), st.integers(1, 4000)).map(list),
                "targ": VALUES["TargetPar"],
                "vol": VALUES["VolumePar"],
            }
        ),
        judge_access,
        quick=400,
        thorough=5000,
    ),
    Sub("missing", st.fixed_dictionaries({"i": st.integers(0, 9)}), judge_missing, quick=8, thorough=10),
]
