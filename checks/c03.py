"""C03 - camera orientation: rotation matrix and calibration state (model-based)."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check, close
from vp.gen import fl, rot

PROPERTY = "C03"
RULE = (
    "Histories of setters, increments, copies and rejected calls on several Calibration objects, compared after "
    "every step with a plain model, and rotation matrices against the product of the three elementary rotations; "
    "non-trivial: a history of at least three accepted operations on at least two objects, or three non-zero angles."
)


def judge_rotation(case):
    from openptv_python.calibration import Calibration, rotation_matrix

    ang = case["ang"]
    cal = Calibration()
    cal.set_angles(np.array(ang))
    R = cal.get_rotation_matrix()
    tol = 1e-13 * (1 + max(map(abs, ang)))
    close(R, rot(ang), tol, "rotation matrix")
    close(R @ R.T, np.eye(3), 1e-13, "R R^T")
    close(np.linalg.det(R), 1.0, 1e-13, "det R")
    close(cal.get_angles(), ang, 0, "angles read back")
    # full turns change nothing
    cal.set_angles(np.array([ang[0] + 2 * math.pi, ang[1] - 2 * math.pi, ang[2] + 4 * math.pi]))
    close(cal.get_rotation_matrix(), R, tol + 1e-13 * 30, "rotation after full turns")
    # the omega rotation leaves the first axis where it is; kappa the last one
    cal.set_angles(np.array([ang[0], 0.0, 0.0]))
    close(cal.get_rotation_matrix() @ [1.0, 0, 0], [1.0, 0, 0], 1e-14, "x axis under omega")
    cal.set_angles(np.array([0.0, 0.0, ang[2]]))
    close(cal.get_rotation_matrix() @ [0, 0, 1.0], [0, 0, 1.0], 1e-14, "z axis under kappa")
    # recomputing from the angles held is idempotent
    cal.set_angles(np.array(ang))
    rotation_matrix(cal.ext_par)
    close(cal.get_rotation_matrix(), R, 0, "rotation computed twice")
    cal.update_rotation_matrix()
    close(cal.get_rotation_matrix(), R, 0, "update_rotation_matrix")
    return ["nontrivial"] if all(ang) else []


class Model:
    def __init__(self):
        self.pos = [0.0] * 3
        self.ang = [0.0] * 3
        self.pp = [0.0] * 3
        self.glass = [0.0, 0.0, 1.0]
        self.ap = [0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0]
        self.dm = np.eye(3)
        self.stale = False
        self.lut = (np.zeros(3), 0, 0, 0)
        self.table = np.zeros((0, 0))

    def clone(self):
        m = Model()
        m.pos, m.ang, m.pp = list(self.pos), list(self.ang), list(self.pp)
        m.glass, m.ap, m.dm, m.stale = list(self.glass), list(self.ap), self.dm.copy(), self.stale
        m.lut, m.table = (self.lut[0].copy(),) + self.lut[1:], self.table.copy()
        return m


def compare(cal, m, who):
    close(cal.get_pos(), m.pos, 0, who + " position")
    close(cal.get_angles(), m.ang, 0, who + " angles")
    close(cal.get_primary_point(), m.pp, 0, who + " primary point")
    close(cal.get_glass_vec(), m.glass, 0, who + " glass vector")
    close(cal.get_radial_distortion(), m.ap[:3], 0, who + " radial distortion")
    close(cal.get_decentering(), m.ap[3:5], 0, who + " decentering")
    close(cal.get_affine(), m.ap[5:], 0, who + " affine parameters")
    close(cal.added_par, m.ap, 0, who + " added parameters")
    if not m.stale:
        close(cal.get_rotation_matrix(), m.dm, 1e-12, who + " rotation matrix")
    close(cal.mmlut.origin, m.lut[0], 0, who + " table origin")
    check(
        (int(cal.mmlut.nr), int(cal.mmlut.nz), int(cal.mmlut.rw)) == m.lut[1:],
        "%s table size %s, %s expected",
        who,
        (cal.mmlut.nr, cal.mmlut.nz, cal.mmlut.rw),
        m.lut[1:],
    )
    check(cal.mmlut_data.shape == m.table.shape, "%s table of shape %s", who, cal.mmlut_data.shape)
    close(cal.mmlut_data, m.table, 0, who + " table")


EXT = {"x0": ("pos", 0), "y0": ("pos", 1), "z0": ("pos", 2), "omega": ("ang", 0), "phi": ("ang", 1), "kappa": ("ang", 2)}
INT = {"xh": 0, "yh": 1, "cc": 2}
SETTERS = {
    "pos": ("set_pos", 3),
    "ang": ("set_angles", 3),
    "pp": ("set_primary_point", 3),
    "radial": ("set_radial_distortion", 3),
    "decent": ("set_decentering", 2),
    "affine": ("set_affine_distortion", 2),
    "glass": ("set_glass_vec", 3),
}


def judge_history(case):
    from openptv_python.calibration import Calibration

    cals = [Calibration() for _ in range(case["n"])]
    models = [Model() for _ in cals]
    done = 0
    touched = set()
    for op in case["ops"]:
        k = op["obj"] % len(cals)
        cal, m = cals[k], models[k]
        kind = op["op"]
        v = [float(x) for x in op["v"]]
        if kind == "again":  # a value it already has
            kind = list(SETTERS)[op["which"] % len(SETTERS)]
            held = {"pos": m.pos, "ang": m.ang, "pp": m.pp, "radial": m.ap[:3], "decent": m.ap[3:5], "affine": m.ap[5:], "glass": m.glass}[kind]
            v[: len(held)] = held
        if kind in SETTERS:
            name, size = SETTERS[kind]
            arr = np.array(v[:size])
            getattr(cal, name)(arr)
            arr += 1.0  # the object keeps its own copy
            if kind == "pos":
                m.pos = v[:3]
            elif kind == "ang":
                m.ang = v[:3]
                m.dm, m.stale = rot(m.ang), False
            elif kind == "pp":
                m.pp = v[:3]
            elif kind == "radial":
                m.ap[:3] = v[:3]
            elif kind == "decent":
                m.ap[3:5] = v[:2]
            elif kind == "affine":
                m.ap[5:] = v[:2]
            else:
                m.glass = v[:3]
        elif kind == "ap":
            arr = np.array(v[:7])
            cal.set_added_par(arr)
            arr += 1.0
            m.ap = v[:7]
        elif kind == "dm":
            R = rot(v[:3])
            cal.set_rotation_matrix(R)
            m.dm, m.stale = R.copy(), False
            R += 1.0
        elif kind == "update":
            cal.update_rotation_matrix()
            m.dm, m.stale = rot(m.ang), False
        elif kind == "incr":
            name = (list(EXT) + list(INT))[op["which"] % 9]
            cal.increment_attribute(name, v[0])
            if name in EXT:
                f, i = EXT[name]
                getattr(m, f)[i] += v[0]
                if f == "ang":
                    m.stale = True  # documented to need update_rotation_matrix
            else:
                m.pp[INT[name]] += v[0]
        elif kind == "copy":
            j = op["which"] % len(cals)
            if j != k:
                cal.copy(cals[j])
                models[j] = m.clone()
                touched.add(j)
        elif kind == "deep":
            j = op["which"] % len(cals)
            cals[j], models[j] = copy.deepcopy(cal), m.clone()
            touched.add(j)
        elif kind == "table":  # a look-up table, as init_mmlut leaves it
            nr, nz = 1 + op["which"] % 4, 1 + op["which"] // 4
            cal.mmlut.origin = np.array(v[:3])
            cal.mmlut.nr, cal.mmlut.nz, cal.mmlut.rw = nr, nz, 2
            cal.mmlut_data = 1.0 + v[3] * np.arange(nr * nz, dtype=float).reshape(nr, nz)
            m.lut, m.table = (np.array(v[:3]), nr, nz, 2), cal.mmlut_data.copy()
        elif kind == "cell" and m.table.size:
            cal.mmlut_data.flat[op["which"] % m.table.size] = v[0]
            m.table.flat[op["which"] % m.table.size] = v[0]
        elif kind == "bad":
            name, size = list(SETTERS.values())[op["which"] % len(SETTERS)]
            wrong = [n for n in (1, 2, 3, 4) if n != size][int(abs(v[0]) * 7) % 3]
            for bad in (np.array(v[:wrong]), np.zeros((size, 1))):
                try:
                    getattr(cal, name)(bad)
                except ValueError:
                    pass
                else:
                    check(False, "%s accepted an array of shape %s", name, bad.shape)
            try:
                cal.set_rotation_matrix(np.eye(4))
            except ValueError:
                pass
            else:
                check(False, "set_rotation_matrix accepted a 4x4 matrix")
        done += kind != "bad"
        touched.add(k)
        for i, (c, mm) in enumerate(zip(cals, models)):
            compare(c, mm, "object %d after %s on %d:" % (i, kind, k))
    # a new object is not affected by what happened to the others
    compare(Calibration(), Model(), "a fresh object:")
    return ["nontrivial"] if done >= 3 and len(touched) >= 2 else []


angle = st.one_of(fl(-3.2, 3.2), fl(-50, 50), st.sampled_from([0.0, math.pi / 2, -math.pi / 2, math.pi]))
op = st.fixed_dictionaries(
    {
        "op": st.sampled_from(list(SETTERS) + ["ap", "dm", "update", "incr", "incr", "copy", "copy", "deep", "again", "again", "table", "cell", "bad"]),
        "obj": st.integers(0, 2),
        "which": st.integers(0, 8),
        "v": st.lists(fl(-10, 10), min_size=7, max_size=7),
    }
)
SUBS = [
    Sub(
        "rotation",
        st.fixed_dictionaries({"ang": st.tuples(angle, angle, angle).map(list)}),
        judge_rotation,
        quick=3000,
        thorough=60000,
    ),
    Sub(
        "history",
        st.fixed_dictionaries({"n": st.integers(1, 3), "ops": st.lists(op, min_size=1, max_size=12)}),
        judge_history,
        quick=1500,
        thorough=40000,
    ),
]
