"""Reference outlines: sharp polygons with exact circular fillets, and the comparison of a library polygon with them.

A library section approximates every arc by a chord polygon whose vertices lie on the arc.  A section therefore matches its
drawing iff every vertex lies on the true outline and the true outline nowhere departs from the polygon by more than the sagitta
of the chords.
"""
import math

import numpy as np
import shapely
from scipy.spatial import cKDTree
from shapely.geometry import LineString, Polygon

DENSE = 96


def arc(c, r, a0, a1, n=DENSE):
    t = np.linspace(a0, a1, n)
    return np.c_[c[0] + r * np.cos(t), c[1] + r * np.sin(t)]


def fillet(a, b, c, r, n=DENSE):
    """Arc of radius r tangent to the edges a-b and b-c, from the tangent point on a-b to that on b-c."""
    a, b, c = (np.asarray(v, float) for v in (a, b, c))
    u, v = a - b, c - b
    u, v = u / np.hypot(*u), v / np.hypot(*v)
    cosv = float(np.clip(u @ v, -1, 1))
    half = .5 * math.acos(cosv)
    bis = (u + v) / np.hypot(*(u + v))
    ctr = b + bis * (r / math.sin(half))
    p, q = b + u * (r / math.tan(half)), b + v * (r / math.tan(half))
    a0 = math.atan2(p[1] - ctr[1], p[0] - ctr[0])
    da = math.atan2(q[1] - ctr[1], q[0] - ctr[0]) - a0
    da = (da + math.pi) % (2 * math.pi) - math.pi
    return arc(ctr, r, a0, a0 + da, n), abs(da)


class Ring:
    """Closed outline; `corners` are (x, y) or (x, y, r)."""

    def __init__(self, corners=None, pts=None, sag=0.0):
        self.arcs = []                      # (radius, sweep)
        self.slack = 0.0                    # departure of the dense polygon from the true outline
        self.sag_extra = sag
        if pts is not None:
            self.pts = np.asarray(pts, float)
            return
        out = []
        m = len(corners)
        for i, q in enumerate(corners):
            if len(q) < 3 or q[2] == 0:
                out.append(np.array([q[:2]], float))
                continue
            p, s = fillet(corners[i - 1][:2], q[:2], corners[(i + 1) % m][:2], q[2])
            out.append(p)
            self.arcs.append((q[2], s))
            self.slack = max(self.slack, q[2] * (1 - math.cos(s / (DENSE - 1) / 2)))
        self.pts = np.vstack(out)
        tiny = 1e-12 * np.abs(self.pts).max()
        keep = np.hypot(*(self.pts - np.roll(self.pts, 1, axis=0)).T) > tiny
        self.pts = self.pts[keep]

    def sagitta(self, n):
        return max([r * (1 - math.cos(s / max(n - 1, 1) / 2)) for r, s in self.arcs] + [0.0]) + self.sag_extra


def ellipse(a, b, n, c=(0, 0)):
    """Ring of an ellipse approximated by n points."""
    m = 1440
    t = np.arange(m) * 2 * math.pi / m
    r = Ring(pts=np.c_[c[0] + a * np.cos(t), c[1] + b * np.sin(t)], sag=max(a, b) * (1 - math.cos(math.pi / n)))
    r.slack = max(a, b) * (1 - math.cos(math.pi / m))
    return r


class Shape:
    def __init__(self, outer, holes=()):
        self.outer, self.holes = outer, list(holes)

    @property
    def polygon(self):
        return Polygon(self.outer.pts, [h.pts for h in self.holes])

    @property
    def size(self):
        x0, y0, x1, y1 = self.polygon.bounds
        return max(x1 - x0, y1 - y0, abs(x0), abs(y0), abs(x1), abs(y1))


def min_feature(want, n):
    """The shortest drawn length: corner to corner, or the chord of an arc."""
    r = [want.outer, *want.holes]
    c = [q * 2 * math.sin(min(a / max(n - 1, 1), math.pi) / 2) for k in r for q, a in k.arcs if q > 0]
    e = [math.dist(p, q) for k in r for p, q in zip(k.pts[:-1], k.pts[1:])]
    return min(c + [v for v in e if v > 1e-7 * want.size])


def match(ctx, got, want: Shape, n, key, msg=""):
    """`got` (shapely polygon) is the n-point approximation of `want`."""
    ref = want.polygon
    size = want.size
    if not got.is_valid:                    # contacts of touching arcs may cross by a rounding error
        fixed = shapely.set_precision(got, 1e-11 * size)
        if fixed.is_valid and fixed.geom_type == got.geom_type and not fixed.is_empty:
            got = fixed
    if not ctx.check(got.geom_type == "Polygon" and got.is_valid and not got.is_empty, key + "/polygon", f"{got.geom_type} valid={got.is_valid} {msg}", cls="shape"):
        return False
    if not ctx.check(len(got.interiors) == len(want.holes), key + "/holes", f"{len(got.interiors)} holes instead of {len(want.holes)} {msg}", cls="shape"):
        return False
    # no needles: vertices some 1e-12 apart (which rounding may leave) cannot be meshed
    uv = np.unique(shapely.get_coordinates(got), axis=0)
    gap = cKDTree(uv).query(uv, k=2)[0][:, 1].min()
    ctx.check(gap > 1e-8 * size or gap > 1e-3 * min_feature(want, n), key + "/needle", f"two vertices {gap:.3g} apart {msg}", cls="shape", n=len(uv))
    eps = 1e-9 * size
    rings = [want.outer, *want.holes]
    slack = max(r.slack for r in rings)
    sag = max(r.sagitta(n) for r in rings)
    ok = True
    tb, gb = ref.boundary, got.boundary
    v = shapely.get_coordinates(gb)
    d = shapely.distance(shapely.points(v), tb)
    ok &= ctx.check(d.max() <= eps + slack * 1.01, key + "/vertex-on-outline",
                    f"vertex {tuple(v[int(d.argmax())])} is {d.max():.4g} off the drawn outline {msg}", cls="shape", n=len(v))
    tv = shapely.get_coordinates(tb)
    d2 = shapely.distance(shapely.points(tv), gb)
    ok &= ctx.check(d2.max() <= eps + 1.01 * sag, key + "/outline-covered",
                    f"outline point {tuple(tv[int(d2.argmax())])} is {d2.max():.4g} off the section (chord error {sag:.3g}) {msg}", cls="shape", n=len(tv))
    g = got.symmetric_difference(ref).area
    ok &= ctx.check(g <= (eps + 1.01 * (sag + slack)) * (gb.length + tb.length), key + "/area",
                    f"area between section and drawing {g:.4g} (areas {got.area:.8g} {ref.area:.8g}) {msg}", cls="shape")
    return ok
