"""Generators of plain cases, and builders that turn cases into the library's objects."""
import math

import numpy as np
from hypothesis import strategies as st


def _flush(x):
    return 0.0 if abs(x) < 1e-10 else x


def fl(lo, hi):
    """Floats of physical size: tiny ones (1e-300 and the like) are zero."""
    s = st.floats(
        min_value=float(lo),
        max_value=float(hi),
        allow_nan=False,
        allow_infinity=False,
        allow_subnormal=False,
    )
    return s.map(_flush) if lo <= 0 <= hi else s


def grid(lo, hi, step):
    """Multiples of step in [lo, hi]: ordinary-looking numbers, friendly to shrinking."""
    return st.integers(math.ceil(lo / step), math.floor(hi / step)).map(lambda i: i * step)


def seeds():
    return st.integers(0, 2**32 - 1)


def rng(seed):
    return np.random.default_rng(seed)


def vec(lo, hi, n=3):
    return st.lists(fl(lo, hi), min_size=n, max_size=n)


# ---------------------------------------------------------------- calibrations


def make_cal(c):
    from openptv_python.calibration import Calibration

    cal = Calibration()
    cal.set_pos(np.array(c["pos"], dtype=float))
    cal.set_angles(np.array(c["ang"], dtype=float))
    cal.set_primary_point(np.array(c.get("pp", [0.0, 0.0, 70.0]), dtype=float))
    cal.set_glass_vec(np.array(c.get("glass", [0.0, 0.0, 1.0]), dtype=float))
    cal.set_added_par(np.array(c.get("ap", [0, 0, 0, 0, 0, 1, 0]), dtype=float))
    return cal


def rot(ang):
    """The rotation matrix of the three angles, by multiplying the elementary ones."""
    o, p, k = ang
    rx = np.array([[1, 0, 0], [0, math.cos(o), -math.sin(o)], [0, math.sin(o), math.cos(o)]])
    ry = np.array([[math.cos(p), 0, math.sin(p)], [0, 1, 0], [-math.sin(p), 0, math.cos(p)]])
    rz = np.array([[math.cos(k), -math.sin(k), 0], [math.sin(k), math.cos(k), 0], [0, 0, 1]])
    return rx @ ry @ rz


def aim(pos, target, roll):
    """Angles of a camera at pos whose axis points at target."""
    b = np.asarray(pos, dtype=float) - np.asarray(target, dtype=float)
    b = b / np.linalg.norm(b)
    phi = math.asin(max(-1.0, min(1.0, b[0])))
    omega = math.atan2(-b[1], b[2])
    return [omega, phi, roll]


def added_pars(strength=1.0, affine=True, zero_bias=True):
    """k1 k2 k3 p1 p2 scx she for a sensor of about 7 mm half diagonal."""
    s = strength
    parts = [
        fl(-2e-4 * s, 2e-4 * s),
        fl(-2e-6 * s, 2e-6 * s),
        fl(-2e-8 * s, 2e-8 * s),
        fl(-2e-4 * s, 2e-4 * s),
        fl(-2e-4 * s, 2e-4 * s),
        fl(1 - 0.02 * s, 1 + 0.02 * s) if affine else st.just(1.0),
        fl(-0.01 * s, 0.01 * s) if affine else st.just(0.0),
    ]
    ident = [0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0]
    if zero_bias:
        parts = [st.one_of(p, st.just(i)) for p, i in zip(parts, ident)]
    return st.tuples(*parts).map(list)


IDENT_AP = [0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0]


# ---------------------------------------------------------------- control parameters


def make_mm(m):
    from openptv_python.parameters import MultimediaPar

    return MultimediaPar(
        nlay=len(m["n2"]), n1=m["n1"], n2=list(m["n2"]), d=list(m["d"]), n3=m["n3"]
    )


def make_cpar(c):
    from openptv_python.parameters import ControlPar

    n = c.get("num_cams", 1)
    return ControlPar(
        num_cams=n,
        img_base_name=["cam%d" % (i + 1) for i in range(n)],
        cal_img_base_name=["cal%d" % (i + 1) for i in range(n)],
        hp_flag=1,
        all_cam_flag=c.get("all_cam", 0),
        tiff_flag=1,
        imx=c["imx"],
        imy=c["imy"],
        pix_x=c["pix"][0],
        pix_y=c["pix"][1],
        chfield=0,
        mm=make_mm(c["mm"]),
    )


AIR = {"n1": 1.0, "n2": [1.0], "d": [1.0], "n3": 1.0}


def media(layers=1, max_d=20.0):
    """Air, glass layer(s), water - with the degenerate equalities drawn often."""
    glass = st.one_of(st.sampled_from([1.46, 1.49, 1.52, 1.0, 1.33]), fl(1.2, 1.8), fl(1.0, 1.8))
    last = st.one_of(st.sampled_from([1.33, 1.335, 1.34, 1.0, 1.46]), fl(1.1, 1.6), fl(1.0, 1.8))
    return st.integers(1, layers).flatmap(
        lambda n: st.fixed_dictionaries(
            {
                "n1": st.one_of(st.just(1.0), fl(1.0, 1.1)),
                "n2": st.lists(glass, min_size=n, max_size=n),
                "d": st.lists(st.one_of(fl(0.01, max_d), fl(0.01, max_d), st.just(0.0)), min_size=n, max_size=n),
                "n3": last,
            }
        )
    )


# ---------------------------------------------------------------- one camera above a glass plane


def view(min_h=40, max_h=800, max_depth=200, tilt=0.5, layers=1, free=True, aps=None):
    """A camera in air, glass of any orientation, water behind it.

    In the local frame the glass normal is +z, the water-side plane of the first layer
    is z = G and the water is below.  ``q`` turns the local frame into the global one.
    """
    turn = st.tuples(fl(-3, 3), fl(-1.5, 1.5), fl(-3, 3)).map(list)
    return st.fixed_dictionaries(
        {
            "q": st.one_of(st.just([0.0, 0.0, 0.0]), turn) if free else st.just([0.0, 0.0, 0.0]),
            "G": st.one_of(fl(1, 100), fl(0.01, 5)),
            "h": fl(min_h, max_h),
            "lat": st.tuples(fl(-tilt, tilt), fl(-tilt, tilt)).map(list),  # times h
            "off": st.tuples(fl(-100, 100), fl(-100, 100)).map(list),
            "depth": fl(0, max_depth),
            "roll": fl(-3.1, 3.1),
            "pp": st.tuples(fl(-0.2, 0.2), fl(-0.2, 0.2), fl(25, 110)).map(list),
            "ap": st.one_of(st.just(IDENT_AP), added_pars(1.0)) if aps is None else aps,
            "mm": media(layers),
        }
    )


class View:
    def __init__(self, c):
        self.c = c
        self.Q = rot(c["q"])
        self.G = c["G"]
        self.mm = c["mm"]
        d0 = c["mm"]["d"][0]
        lower = sum(c["mm"]["d"][1:])
        h = c["h"]
        off = c["off"]
        self.cam_local = np.array([off[0] + c["lat"][0] * h, off[1] + c["lat"][1] * h, self.G + d0 + h])
        self.water_top = self.G - lower  # local z below which there is only the last medium
        aim_local = np.array([off[0], off[1], self.water_top - c["depth"]])
        self.pos = self.Q @ self.cam_local
        self.aim_pt = self.Q @ aim_local
        self.ang = aim(self.pos, self.aim_pt, c["roll"])
        self.cal_case = {
            "pos": self.pos.tolist(),
            "ang": self.ang,
            "pp": c["pp"],
            "glass": (self.Q @ np.array([0, 0, self.G])).tolist(),
            "ap": c["ap"],
        }
        self.cal = make_cal(self.cal_case)
        self.R = rot(self.ang)
        self.mmpar = make_mm(c["mm"])
        self.cc = c["pp"][2]

    def to_local(self, p):
        return self.Q.T @ np.asarray(p, dtype=float)

    def to_global(self, p):
        return self.Q @ np.asarray(p, dtype=float)

    # -- the reference model: exact refraction through plane layers

    def trace(self, x, y):
        """Ray of flat image point (x, y): point and unit direction in the last medium (global)."""
        m = self.mm
        a = self.R @ (np.array([x, y, -self.cc]) / math.sqrt(x * x + y * y + self.cc**2))
        p, a = self.cam_local.copy(), self.Q.T @ a
        if a[2] >= 0:
            return None
        n = m["n1"]
        z = self.G + m["d"][0]
        for n2, d in list(zip(m["n2"], m["d"])) + [(m["n3"], 0.0)]:
            p = p + a * ((z - p[2]) / a[2])
            s = a[:2] * n / n2
            q = 1 - s @ s
            if q <= 1e-9:
                return None
            a = np.array([s[0], s[1], -math.sqrt(q)])
            n, z = n2, z - d
        # after the loop p lies on the water side of the last layer only if the layers were
        # stepped through in order: the last pass intersects that plane
        return self.Q @ p, self.Q @ a

    def layers(self, z_local):
        """(thickness, index) crossed by a ray from the camera to local height z."""
        m = self.mm
        out = [(self.cam_local[2] - self.G - m["d"][0], m["n1"])]
        out += [(d, n) for d, n in zip(m["d"], m["n2"])]
        out.append((self.water_top - z_local, m["n3"]))
        return out

    def solve(self, p):
        """Air angle of the ray to global point p by bisection on its sine; (tan beta1, r, k)."""
        q = self.to_local(p)
        lay = self.layers(q[2])
        e = q[:2] - self.cam_local[:2]
        r = math.hypot(*e)
        n1 = lay[0][1]

        def f(s):
            return sum(t * (s * n1 / n) / math.sqrt(max(1e-300, 1 - (s * n1 / n) ** 2)) for t, n in lay)

        lo, hi = 0.0, min(1.0, min(n for t, n in lay if t > 0) / n1) * (1 - 1e-15)
        for _ in range(200):
            mid = 0.5 * (lo + hi)
            if f(mid) < r:
                lo = mid
            else:
                hi = mid
        s = 0.5 * (lo + hi)
        tb = s / math.sqrt(1 - s * s)
        e = e / r if r > 0 else np.zeros(2)
        return tb, r, e, q

    def image(self, p):
        """Exact flat image coordinates of global point p, and the contraction of the fixed point."""
        tb, r, e, q = self.solve(p)
        d = self.Q @ np.array([e[0] * tb, e[1] * tb, -1.0])
        den = self.R[:, 2] @ d
        x = -self.cc * (self.R[:, 0] @ d) / den
        y = -self.cc * (self.R[:, 1] @ d) / den
        return x, y

    def slack(self, p):
        """How far (mm, flat image) the library's 0.001 mm stopping rule may leave the image point."""
        tb, r, e, q = self.solve(p)
        lay = self.layers(q[2])
        zd = self.cam_local[2] - q[2] - 0.0
        n1 = lay[0][1]
        k = 0.0
        t_air = math.hypot(1.0, 0)
        for t in np.linspace(min(tb, r / zd), max(tb, r / zd), 9):
            s = t / math.hypot(1.0, t)
            slope = 0.0
            for th, n in lay:
                sn = s * n1 / n
                if sn >= 1:
                    return None
                # d tan(b)/d tan(b1)
                slope += th * (n1 / n) * (1 - s * s) ** 1.5 / (1 - sn * sn) ** 1.5
            k = max(k, abs(1 - slope / zd))
        if k > 0.7:
            return None
        d = self.Q @ np.array([e[0] * tb, e[1] * tb, -1.0])
        cosax = abs(self.R[:, 2] @ d)  # depth along the axis per unit of local height
        err = 0.001 * 1.2 * k / (1 - k) / zd  # in tan beta1
        x, y = self.image(p)
        return self.cc * err / cosax * (1 + math.hypot(x, y) / self.cc) ** 2 + 1e-9


# ---------------------------------------------------------------- several cameras


def scene(n_min=2, n_max=4, aps=None, mm=None, tilt=0.12, sensor=None, h=(120, 500)):
    """Cameras around one glass plane, all aimed near one point in the water."""
    return st.integers(n_min, n_max).flatmap(
        lambda n: st.fixed_dictionaries(
            {
                "q": st.one_of(
                    st.just([0.0, 0.0, 0.0]), st.tuples(fl(-tilt, tilt), fl(-tilt, tilt), fl(-3, 3)).map(list)
                ),
                "G": fl(20, 40),
                "mm": mm if mm is not None else media(1, 10.0),
                "phi0": fl(-3.1, 3.1),
                "center": st.tuples(fl(-10, 10), fl(-10, 10), fl(35, 55)).map(list),
                "cams": st.lists(
                    st.fixed_dictionaries(
                        {
                            "h": fl(*h),
                            "rho": fl(0.2, 0.5),
                            "dphi": fl(-0.25, 0.25),
                            "aim": st.tuples(fl(-3, 3), fl(-3, 3)).map(list),
                            "roll": fl(-3.1, 3.1),
                            "pp": st.tuples(fl(-0.15, 0.15), fl(-0.15, 0.15), fl(50, 90)).map(list),
                            "ap": (st.one_of(st.just(IDENT_AP), added_pars(0.7)) if aps is None else aps),
                        }
                    ),
                    min_size=n,
                    max_size=n,
                ),
                "sensor": sensor
                if sensor is not None
                else st.fixed_dictionaries(
                    {
                        "imx": st.integers(900, 1400),
                        "imy": st.integers(800, 1200),
                        "pix": st.tuples(fl(0.008, 0.014), fl(0.008, 0.014)).map(list),
                    }
                ),
            }
        )
    )


class Scene:
    def __init__(self, c, all_cam=0):
        self.c = c
        n = len(c["cams"])
        self.views = []
        cx, cy, depth = c["center"]
        for k, cam in enumerate(c["cams"]):
            a = c["phi0"] + 2 * math.pi * k / n + cam["dphi"]
            self.views.append(
                View(
                    {
                        "q": c["q"],
                        "G": c["G"],
                        "h": cam["h"],
                        "lat": [cam["rho"] * math.cos(a), cam["rho"] * math.sin(a)],
                        "off": [cx + cam["aim"][0], cy + cam["aim"][1]],
                        "depth": depth,
                        "roll": cam["roll"],
                        "pp": cam["pp"],
                        "ap": cam["ap"],
                        "mm": c["mm"],
                    }
                )
            )
        self.n = n
        self.cals = [v.cal for v in self.views]
        self.cpar = make_cpar(dict(c["sensor"], num_cams=n, mm=c["mm"], all_cam=all_cam))
        self.v0 = self.views[0]
        self.center_local = np.array([cx, cy, self.v0.water_top - depth])
        self.center = self.v0.to_global(self.center_local)

    def local(self, p):
        return self.v0.to_global(self.center_local + np.asarray(p, dtype=float))

    def metric(self, k, p):
        """Exact distorted metric image of p in camera k (reference model)."""
        from openptv_python.trafo import flat_to_dist

        x, y = self.views[k].image(p)
        return flat_to_dist(x, y, self.cals[k])

    def pixel(self, k, p):
        x, y = self.metric(k, p)
        cp = self.cpar
        return x / cp.pix_x + cp.imx / 2.0, cp.imy / 2.0 - y / cp.pix_y

    def image_lib(self, k, p):
        """Pixel position of p in camera k as the library projects it."""
        from openptv_python.imgcoord import img_coord
        from openptv_python.trafo import metric_to_pixel

        x, y = img_coord(np.asarray(p, dtype=float), self.cals[k], self.cpar.mm)
        return metric_to_pixel(x, y, self.cpar)
