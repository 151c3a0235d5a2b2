"""P17: primitive, steel, timber and bridge library sections against independently constructed drawings.

For random realisable dimensions (zero radii, touching radii, equal thicknesses, lips shorter than the radius, unequal layers,
default and explicit arguments, positional and keyword calls) the returned polygon is compared with the drawing: every vertex on
the outline, the outline covered within the chord error, holes, position, material.
"""
import math

import numpy as np
import shapely
from shapely.geometry import Polygon, box

import sectionproperties.pre.library as lib
from harness import gens as G
from harness import oracles as O
from harness.shapes import Ring, Shape, arc, ellipse, fillet, match
from sectionproperties.pre import CompoundGeometry, Geometry
from sectionproperties.pre.library import utils as lu
from sectionproperties.pre.pre import DEFAULT_MATERIAL

NAMES = ["rectangular", "circular", "by_area", "elliptical", "triangular", "triangular_radius", "cruciform", "chs", "ehs", "rhs",
         "polygon", "i", "mono_i", "tapered_i", "channel", "tapered_channel", "tee", "angle", "cee", "zed", "box_girder", "bulb",
         "clt", "super_t", "i_girder", "radius", "refusal", "analysed"]
CASES = {"quick": {n: 40 for n in NAMES}, "thorough": {n: 2400 for n in NAMES}}
CASES["quick"] |= {"analysed": 25, "refusal": 140}
CASES["thorough"] |= {"analysed": 1500}
FLOORS = {"shape": 20000, "material": 500, "refusal": 100, "moments": 100}
RULE = "random realisable dimensions of every library function, with degenerate, default and positional arguments"
ASSUMPTIONS = ["arcs get at least two points (one point cannot describe an arc)",
               "AS5100.5 tables and web-offset conventions of the super-T girder as published in the library (the standard is not available offline)"]


def sc(rng):
    return float(10 ** rng.uniform(-2, 3))


def frac(rng, lo, hi, zero=0.0, full=0.0):
    u = rng.random()
    if u < zero:
        return lo if lo == 0 else lo
    if u < zero + full:
        return hi
    return float(rng.uniform(lo, hi))


def npts(rng):
    return int(rng.choice([2, 3, 4, 5, 8, 13, 16, 24, 33]))


def sym4(q):
    """four-quadrant symmetric ring from the corners of the bottom right quadrant..."""
    return q


def d_rectangular(rng):
    d, b = sc(rng), sc(rng)
    return "rectangular_section", dict(d=d, b=b), Shape(Ring([(0, 0), (b, 0), (b, d), (0, d)])), 2


def d_circular(rng):
    d, n = sc(rng), int(rng.integers(3, 90))
    return "circular_section", dict(d=d, n=n), Shape(ellipse(d / 2, d / 2, n)), n


def d_by_area(rng):
    a, n = sc(rng) ** 2, int(rng.integers(3, 90))
    r = math.sqrt(a / (n * math.sin(math.pi / n) * math.cos(math.pi / n)))
    return "circular_section_by_area", dict(area=a, n=n), Shape(ellipse(r, r, n)), n


def d_elliptical(rng):
    dx, n = sc(rng), int(rng.integers(3, 90))
    dy = dx * float(10 ** rng.uniform(-1, 1))
    return "elliptical_section", dict(d_x=dx, d_y=dy, n=n), Shape(ellipse(dx / 2, dy / 2, n)), n


def d_triangular(rng):
    b, h = sc(rng), sc(rng)
    return "triangular_section", dict(b=b, h=h), Shape(Ring([(0, 0), (b, 0), (0, h)])), 2


def d_triangular_radius(rng):
    b, n = sc(rng), npts(rng)
    if n == 2:
        n = 3
    r = Ring([(0, 0), (b, 0), (0, b)])
    p = arc((b, b), b, -math.pi / 2, -math.pi)
    r = Ring(pts=np.vstack([[(0, 0)], p]))
    r.arcs = [(b, math.pi / 2)]
    r.slack = b * (1 - math.cos(math.pi / 4 / 95))
    return "triangular_radius_section", dict(b=b, n_r=n), Shape(r), n


def d_cruciform(rng):
    s = sc(rng)
    t = s * rng.uniform(.02, .3)
    d, b = t + s * rng.uniform(.1, 1), t + s * rng.uniform(.1, 1)
    r = frac(rng, 0, .5 * (min(d, b) - t), zero=.2, full=.05)
    n = npts(rng)
    q = [(-t / 2, -d / 2), (t / 2, -d / 2), (t / 2, -t / 2, r), (b / 2, -t / 2), (b / 2, t / 2), (t / 2, t / 2, r), (t / 2, d / 2),
         (-t / 2, d / 2), (-t / 2, t / 2, r), (-b / 2, t / 2), (-b / 2, -t / 2), (-t / 2, -t / 2, r)]
    return "cruciform_section", dict(d=d, b=b, t=t, r=r, n_r=n), Shape(Ring(q)), n


def d_chs(rng):
    d, n = sc(rng), int(rng.integers(3, 90))
    t = d * rng.uniform(.005, .45)
    return "circular_hollow_section", dict(d=d, t=t, n=n), Shape(ellipse(d / 2, d / 2, n), [ellipse(d / 2 - t, d / 2 - t, n)]), n


def d_ehs(rng):
    dx, n = sc(rng), int(rng.integers(3, 90))
    dy = dx * float(10 ** rng.uniform(-.5, .5))
    for _ in range(50):
        t = min(dx, dy) * rng.uniform(.005, .4)
        if math.cos(math.pi / n) * 1 > 0:
            break
    th = np.arange(n) * 2 * math.pi / n
    o = Polygon(np.c_[dx / 2 * np.cos(th), dy / 2 * np.sin(th)])
    i = Polygon(np.c_[(dx / 2 - t) * np.cos(th), (dy / 2 - t) * np.sin(th)])
    if not o.buffer(-1e-9 * dx).contains(i):
        return d_ehs(rng)
    return "elliptical_hollow_section", dict(d_x=dx, d_y=dy, t=t, n=n), Shape(ellipse(dx / 2, dy / 2, n), [ellipse(dx / 2 - t, dy / 2 - t, n)]), n


def rect_ring(x0, y0, x1, y1, r):
    return Ring([(x0, y0, r), (x1, y0, r), (x1, y1, r), (x0, y1, r)])


def d_rhs(rng):
    s = sc(rng)
    d, b = s * rng.uniform(.3, 1), s * rng.uniform(.3, 1)
    t = s * rng.uniform(.01, .1)
    n = npts(rng)
    kw = dict(d=d, b=b, t=t)
    tw = t
    if rng.random() < .4:
        tw = s * rng.uniform(.01, .1)
        kw["t_w"] = tw
    rmax = .5 * min(d, b)
    ro = frac(rng, 0, rmax, zero=.2, full=.05)
    tm = max(t, tw)
    if rng.random() < .4:
        ri = frac(rng, 0, .5 * min(d - 2 * t, b - 2 * tw), zero=.2)
        kw["r_in"] = ri
    else:
        ri = max(ro - tm, 0)
        if ri > .5 * min(d - 2 * t, b - 2 * tw):
            return d_rhs(rng)
    kw |= dict(r_out=ro, n_r=n)
    w = Shape(rect_ring(0, 0, b, d, ro), [rect_ring(tw, t, b - tw, d - t, ri)])
    # the chord polygons must not cross (thin corner)
    if not disc(w, n):
        return d_rhs(rng)
    return "rectangular_hollow_section", kw, w, n


def disc(shape, n):
    """Whether the hole stays strictly inside when arcs are replaced by n-point chords."""
    o, h = shape.polygon.exterior, shape.holes[0]
    hp = Polygon(h.pts)
    s = shape.outer.sagitta(n)
    return Polygon(o).buffer(-1.05 * s - 1e-6 * shape.size).contains(hp)


def d_polygon(rng):
    s = sc(rng)
    n_sides = int(rng.integers(3, 13))
    d = s
    ao = d / 2 * math.cos(math.pi / n_sides)
    t = ao * rng.uniform(.02, .6)
    rot = float(rng.choice([0.0, 90.0, rng.uniform(-360, 360)]))
    n = npts(rng)
    kw = dict(d=d, t=t, n_sides=n_sides)
    ri = 0.0
    if rng.random() < .6:
        ri = float((ao - t) * rng.uniform(.02, 1.4))
        kw |= dict(r_in=ri, n_r=n)
    if rot:
        kw["rot"] = rot
    ri_e = min(ri, ao - t)
    ro = ri_e + t if ri_e else 0.0

    def ring(a, r):
        R = a / math.cos(math.pi / n_sides)
        c = []
        for k in range(n_sides):
            th = -math.pi / 2 + math.pi / n_sides + 2 * math.pi * k / n_sides + math.radians(rot)
            c.append((R * math.cos(th), R * math.sin(th), r))
        return Ring(c)
    w = Shape(ring(ao, ro), [ring(ao - t, ri_e)])
    if ri and not disc(w, n):
        return d_polygon(rng)
    return "polygon_hollow_section", kw, w, n


def i_corners(xc, d, bt, bb, tt, tb, tw, r):
    l, R = xc - tw / 2, xc + tw / 2
    return [(xc - bb / 2, 0), (xc + bb / 2, 0), (xc + bb / 2, tb), (R, tb, r), (R, d - tt, r), (xc + bt / 2, d - tt), (xc + bt / 2, d),
            (xc - bt / 2, d), (xc - bt / 2, d - tt), (l, d - tt, r), (l, tb, r), (xc - bb / 2, tb)]


def d_i(rng):
    s = sc(rng)
    d, b = s * rng.uniform(.3, 1), s * rng.uniform(.2, 1)
    tf, tw = d * rng.uniform(.02, .3), b * rng.uniform(.02, .4)
    r = frac(rng, 0, min((b - tw) / 2, (d - 2 * tf) / 2), zero=.2, full=.05)
    n = npts(rng)
    return "i_section", dict(d=d, b=b, t_f=tf, t_w=tw, r=r, n_r=n), Shape(Ring(i_corners(b / 2, d, b, b, tf, tf, tw, r))), n


def d_mono_i(rng):
    s = sc(rng)
    d, bt, bb = s * rng.uniform(.3, 1), s * rng.uniform(.2, 1), s * rng.uniform(.2, 1)
    tt, tb, tw = d * rng.uniform(.02, .3), d * rng.uniform(.02, .3), min(bt, bb) * rng.uniform(.02, .4)
    r = frac(rng, 0, min((min(bt, bb) - tw) / 2, (d - tt - tb) / 2), zero=.2)
    n = npts(rng)
    return ("mono_i_section", dict(d=d, b_t=bt, b_b=bb, t_ft=tt, t_fb=tb, t_w=tw, r=r, n_r=n),
            Shape(Ring(i_corners(max(bt, bb) / 2, d, bt, bb, tt, tb, tw, r))), n)


def taper(rng, s, flange):
    """Thickness at the toe and at the web of a flange of clear width `flange` and mid thickness tf, sloped alpha."""
    alpha = float(rng.choice([0.0, rng.uniform(0, 12), rng.uniform(0, 20)]))
    tan = math.tan(math.radians(alpha))
    tf = s * rng.uniform(.04, .2)
    toe, root = tf - flange / 2 * tan, tf + flange / 2 * tan
    return alpha, tan, tf, toe, root


def tang(r, alpha):
    """Length the fillet between a vertical and the sloped line takes of either edge (interior angle 90+alpha / 90-alpha)."""
    return r / math.tan((math.pi / 2 + math.radians(alpha)) / 2), r / math.tan((math.pi / 2 - math.radians(alpha)) / 2)


def d_tapered_i(rng):
    s = sc(rng)
    for _ in range(500):
        d, b = s * rng.uniform(.4, 1), s * rng.uniform(.2, 1)
        tw = b * rng.uniform(.03, .3)
        fl = (b - tw) / 2
        alpha, tan, tf, toe, root = taper(rng, d, fl)
        rr, rf = frac(rng, 0, fl / 2, zero=.2), frac(rng, 0, fl / 2, zero=.2)
        ca = math.cos(math.radians(alpha))
        big = max(tang(rf, alpha)) + max(tang(rr, alpha))
        if toe > 1.001 * max(tang(rf, alpha)) and big < fl and 2 * (root + max(tang(rr, alpha))) < d and toe > 0:
            break
    else:
        return d_tapered_i(rng)
    n = npts(rng)
    c = b / 2
    q = [(0, 0), (b, 0), (b, toe, rf), (c + tw / 2, root, rr), (c + tw / 2, d - root, rr), (b, d - toe, rf), (b, d), (0, d), (0, d - toe, rf),
         (c - tw / 2, d - root, rr), (c - tw / 2, root, rr), (0, toe, rf)]
    return "tapered_flange_i_section", dict(d=d, b=b, t_f=tf, t_w=tw, r_r=rr, r_f=rf, alpha=alpha, n_r=n), Shape(Ring(q)), n


def d_tapered_channel(rng):
    s = sc(rng)
    for _ in range(500):
        d, b = s * rng.uniform(.4, 1), s * rng.uniform(.2, 1)
        tw = b * rng.uniform(.03, .3)
        fl = b - tw
        alpha, tan, tf, toe, root = taper(rng, d, fl)
        rr, rf = frac(rng, 0, fl / 2, zero=.2), frac(rng, 0, fl / 2, zero=.2)
        big = max(tang(rf, alpha)) + max(tang(rr, alpha))
        if toe > 1.001 * max(tang(rf, alpha)) and big < fl and 2 * (root + max(tang(rr, alpha))) < d and toe > 0:
            break
    else:
        return d_tapered_channel(rng)
    n = npts(rng)
    q = [(0, 0), (b, 0), (b, toe, rf), (tw, root, rr), (tw, d - root, rr), (b, d - toe, rf), (b, d), (0, d)]
    return "tapered_flange_channel", dict(d=d, b=b, t_f=tf, t_w=tw, r_r=rr, r_f=rf, alpha=alpha, n_r=n), Shape(Ring(q)), n


def d_channel(rng):
    s = sc(rng)
    d, b = s * rng.uniform(.3, 1), s * rng.uniform(.2, 1)
    tf, tw = d * rng.uniform(.02, .3), b * rng.uniform(.02, .5)
    r = frac(rng, 0, min(b - tw, (d - 2 * tf) / 2), zero=.2, full=.05)
    n = npts(rng)
    q = [(0, 0), (b, 0), (b, tf), (tw, tf, r), (tw, d - tf, r), (b, d - tf), (b, d), (0, d)]
    return "channel_section", dict(d=d, b=b, t_f=tf, t_w=tw, r=r, n_r=n), Shape(Ring(q)), n


def d_tee(rng):
    s = sc(rng)
    d, b = s * rng.uniform(.3, 1), s * rng.uniform(.2, 1)
    tf, tw = d * rng.uniform(.02, .5), b * rng.uniform(.02, .5)
    r = frac(rng, 0, min((b - tw) / 2, d - tf), zero=.2, full=.05)
    n = npts(rng)
    c = b / 2
    q = [(c - tw / 2, 0), (c + tw / 2, 0), (c + tw / 2, d - tf, r), (b, d - tf), (b, d), (0, d), (0, d - tf), (c - tw / 2, d - tf, r)]
    return "tee_section", dict(d=d, b=b, t_f=tf, t_w=tw, r=r, n_r=n), Shape(Ring(q)), n


def d_angle(rng):
    s = sc(rng)
    d, b = s * rng.uniform(.3, 1), s * rng.uniform(.3, 1)
    t = min(d, b) * rng.uniform(.02, .4)
    rt = frac(rng, 0, t, zero=.2, full=.15)
    rr = frac(rng, 0, min(d, b) - t - rt, zero=.2)
    n = npts(rng)
    q = [(0, 0), (b, 0), (b, t, rt), (t, t, rr), (t, d, rt), (0, d)]
    return "angle_section", dict(d=d, b=b, t=t, r_r=rr, r_t=rt, n_r=n), Shape(Ring(q)), n


def lipped(rng, s, t, bmin, dmin):
    """outer radius and lip length; valid lips: none (l <= t and l <= r_out), curve only (t < l <= r_out), or full (l > r_out, l > t)."""
    ro = frac(rng, 0, .4 * min(bmin, dmin), zero=.15)
    mode = int(rng.integers(4))
    if mode == 0:
        l = 0.0 if rng.random() < .5 else min(t, ro) * float(rng.random())
    elif mode == 1 and ro > 1.02 * t:
        l = frac(rng, 1.01 * t, ro, full=.2)
    else:
        l = max(ro, t) + (dmin / 2 - max(ro, t)) * float(rng.uniform(.02, .9))
    return ro, l


def d_cee(rng):
    s = sc(rng)
    d, b = s * rng.uniform(.3, 1), s * rng.uniform(.2, 1)
    t = min(d, b) * rng.uniform(.01, .12)
    ro, l = lipped(rng, s, t, b, d)
    ri = max(ro - t, 0)
    n = npts(rng)
    if l > ro:
        lip = [(b, 0, ro), (b, l), (b - t, l), (b - t, t, ri)]
    elif l > t:
        lip = [(b, 0, l), (b, l), (b - t, l), (b - t, t, l - t)]
    else:
        lip = [(b, 0), (b, t)]
    top = [(q[0], d - q[1], *q[2:]) for q in lip[::-1]]
    q = [(0, 0, ro), *lip, (t, t, ri), (t, d - t, ri), *top, (0, d, ro)]
    w = Shape(Ring(q))
    if not thin_ok(w, n, t):
        return d_cee(rng)
    return "cee_section", dict(d=d, b=b, l=l, t=t, r_out=ro, n_r=n), w, n


def thin_ok(w, n, t):
    """chord polygons of the inner and outer bends must not cross."""
    return w.outer.sagitta(n) < .9 * t


def d_zed(rng):
    s = sc(rng)
    d, bl, br = s * rng.uniform(.3, 1), s * rng.uniform(.2, 1), s * rng.uniform(.2, 1)
    t = min(d, bl, br) * rng.uniform(.01, .12)
    ro, l = lipped(rng, s, t, min(bl, br), d)
    ri = max(ro - t, 0)
    n = npts(rng)

    def lip(b):
        if l > ro:
            return [(b, 0, ro), (b, l), (b - t, l), (b - t, t, ri)]
        if l > t:
            return [(b, 0, l), (b, l), (b - t, l), (b - t, t, l - t)]
        return [(b, 0), (b, t)]
    right = [(0, 0, ro), *lip(br), (t, t, ri)]
    left = [(t - q[0], d - q[1], *q[2:]) for q in [(0, 0, ro), *lip(bl), (t, t, ri)]]
    w = Shape(Ring(right + left))
    if not thin_ok(w, n, t):
        return d_zed(rng)
    return "zed_section", dict(d=d, b_l=bl, b_r=br, l=l, t=t, r_out=ro, n_r=n), w, n


def d_box_girder(rng):
    s = sc(rng)
    d, bt = s * rng.uniform(.3, 1), s * rng.uniform(.4, 1)
    bb = bt if rng.random() < .15 else s * rng.uniform(.4, 1)
    tt, tb, tw = d * rng.uniform(.02, .3), d * rng.uniform(.02, .3), min(bt, bb) * rng.uniform(.02, .2)
    c = max(bt, bb) / 2
    outer = [(c - bb / 2, 0), (c + bb / 2, 0), (c + bt / 2, d), (c - bt / 2, d)]
    nx, ny = d, -(bt - bb) / 2                      # outward normal of the right web
    L = math.hypot(nx, ny)

    def right(y):                                   # inner face of the right web at height y
        return c + bb / 2 + (bt - bb) / 2 * y / d - tw * L / nx
    y0, y1 = tb, d - tt
    if right(y0) <= c + .01 * bb or right(y1) <= c + .01 * bb:
        return d_box_girder(rng)
    inner = [(2 * c - right(y0), y0), (right(y0), y0), (right(y1), y1), (2 * c - right(y1), y1)]
    return "box_girder_section", dict(d=d, b_t=bt, b_b=bb, t_ft=tt, t_fb=tb, t_w=tw), Shape(Ring(outer), [Ring(inner)]), 2


def d_bulb(rng):
    s = sc(rng)
    for _ in range(500):
        d = s
        t = s * rng.uniform(.02, .1)
        b = s * rng.uniform(.08, .3)
        r = b * rng.uniform(.1, .6)
        db0 = r * (math.cos(math.pi / 3) / math.cos(math.pi / 6) + 1) + b * math.tan(math.pi / 6)
        tl = r * math.tan(math.pi / 6)                # tangent length of the web fillet along either edge
        if d - db0 - tl > .05 * d and tl + r < b / math.cos(math.pi / 6) * .95 and tl < b and r < b:
            break
    n = npts(rng)
    kw = dict(d=d, b=b, t=t, r=r, n_r=n)
    cy = d - db0 + b * math.tan(math.pi / 6)           # sloped line meets the outer face
    if rng.random() < .6:
        q = [(-t / 2, 0), (t / 2, 0), (t / 2, d - db0, r), (t / 2 + b, cy, r), (t / 2 + b, d, r), (-t / 2, d)]
        return "bulb_section", kw, Shape(Ring(q)), n
    db = db0 * rng.uniform(.8, 1.3)
    if d - db - tl < 0:
        return d_bulb(rng)
    kw["d_b"] = db
    p1, s1 = fillet((t / 2, 0), (t / 2, d - db), (t / 2 + math.cos(math.pi / 6), d - db + math.sin(math.pi / 6)), r)
    c = (t / 2 + b - r, d - r)
    p2 = arc(c, r, -math.pi / 3, 0)
    p3 = arc(c, r, 0, math.pi / 2)
    ring = Ring(pts=np.vstack([[(-t / 2, 0), (t / 2, 0)], p1, p2, p3, [(-t / 2, d)]]))
    if not Polygon(ring.pts).is_valid:
        return d_bulb(rng)
    ring.arcs = [(r, s1), (r, math.pi / 3), (r, math.pi / 2)]
    ring.slack = r * (1 - math.cos(math.pi / 4 / 95))
    return "bulb_section", kw, Shape(ring), n


SUPER_T = {1: (675, 240, 100), 2: (925, 240, 100), 3: (1125, 260, 100), 4: (1425, 260, 100), 5: (1725, 325, 120)}
I_GIRDER = {1: (200, 300, 120, 100, 40, 420, 90, 100), 2: (350, 450, 150, 100, 100, 450, 150, 100),
            3: (450, 500, 150, 130, 150, 545, 175, 150), 4: (500, 650, 150, 150, 175, 650, 250, 175)}


def d_super_t(rng):
    ty = int(rng.integers(1, 6))
    sub = 2 if ty == 5 else int(rng.integers(1, 3))
    kw = dict(girder_type=ty)
    if sub == 1 or rng.random() < .4:
        kw["girder_subtype"] = sub
    w, tf = 2100.0, 75.0
    d, tb, tw = SUPER_T[ty]
    if rng.random() < .6:
        kw["w"] = w = float(rng.uniform(1400, 3000))
    if rng.random() < .6:
        kw["t_f"] = tf = float(rng.choice([75, 90, rng.uniform(60, 140)]))
    if rng.random() < .5:
        kw["t_w"] = tw = float(rng.uniform(80, 160))
    ws, fs, wn = (10.556, 5.0, 920.0) if sub == 1 else (10.556, 5.347, 1027.0)
    ca = ws / math.hypot(1, ws)                        # cosine of the web inclination
    xf = wn / 2 - 75 / math.hypot(1, ws)               # outer web face, 75 below the flange
    xb = xf - d / ws
    top = tf - 25
    xin = wn / 2 - tw * ca + top / ws                  # inner web face at the recess
    # inner bottom: from the centre (0, -(d - tb)) the soffit rises at 1:fs to meet the inner web face
    # right face: x = xin + (y - top)/ws ; soffit: y = -(d - tb) + x/fs
    xi = (xin + (-(d - tb) - top) / ws) / (1 - 1 / (fs * ws))
    yi = -(d - tb) + xi / fs
    half = [(xin, top), (xin + 25, top), (xin + 25, tf), (w / 2, tf), (w / 2, 13), (w / 2 - 13, 0), (wn / 2 + 100, 0), (xf, -75),
            (xb + 13 / ws, -(d - 13)), (xb - 13, -d)]
    q = [*half, *[(-x, y) for x, y in half[::-1]], (-xi, yi), (0, -(d - tb)), (xi, yi)]
    return "super_t_girder_section", kw, Shape(Ring(q)), 2


def d_i_girder(rng):
    ty = int(rng.integers(1, 5))
    btf, bbf, bw, h1, h2, h3, h4, h5 = I_GIRDER[ty]
    y = np.cumsum([0, h1, h2, h3, h4, h5])
    half = [(btf / 2, 0), (btf / 2, -y[1]), (bw / 2, -y[2]), (bw / 2, -y[3]), (bbf / 2, -y[4]), (bbf / 2, -y[5])]
    return "i_girder_section", dict(girder_type=ty), Shape(Ring(half + [(-x, v) for x, v in half[::-1]])), 2


DRAW = {n: globals()["d_" + n] for n in NAMES if "d_" + n in globals()}
ORDER = {  # documented positional order
    "rectangular_section": "d b", "circular_section": "d n", "circular_section_by_area": "area n", "elliptical_section": "d_x d_y n",
    "triangular_section": "b h", "triangular_radius_section": "b n_r", "cruciform_section": "d b t r n_r", "circular_hollow_section": "d t n",
    "elliptical_hollow_section": "d_x d_y t n", "rectangular_hollow_section": "d b t r_out n_r", "polygon_hollow_section": "d t n_sides",
    "i_section": "d b t_f t_w r n_r", "mono_i_section": "d b_t b_b t_ft t_fb t_w r n_r", "tapered_flange_i_section": "d b t_f t_w r_r r_f alpha n_r",
    "channel_section": "d b t_f t_w r n_r", "tapered_flange_channel": "d b t_f t_w r_r r_f alpha n_r", "tee_section": "d b t_f t_w r n_r",
    "angle_section": "d b t r_r r_t n_r", "cee_section": "d b l t r_out n_r", "zed_section": "d b_l b_r l t r_out n_r",
    "box_girder_section": "d b_t b_b t_ft t_fb t_w", "bulb_section": "d b t r n_r", "super_t_girder_section": "girder_type", "i_girder_section": "girder_type"}


def build(ctx, which):
    rng = ctx.rng
    fn, kw, want, n = DRAW[which](rng)
    mat = None
    if rng.random() < .5:
        mat = G.rmat(rng)
        kw["material"] = mat
    args = []
    kw2 = dict(kw)
    if rng.random() < .4:
        args = [kw2.pop(k) for k in ORDER[fn].split()]
    ctx.note(fn=fn, kw={k: v for k, v in kw.items() if k != "material"})
    ctx.signature(fn, tuple(sorted(kw)), n, len(args))
    g = getattr(lib, fn)(*args, **kw2)
    return fn, kw, want, n, mat, g


def shape(ctx, which):
    fn, kw, want, n, mat, g = build(ctx, which)
    ctx.check(type(g) is Geometry, f"{fn}/type", str(type(g)), cls="material")
    m = DEFAULT_MATERIAL if mat is None else mat
    ctx.check(g.material is m or g.material == m, f"{fn}/material", f"{g.material} instead of {m}", cls="material")
    ok = match(ctx, g.geom, want, n, fn, str({k: v for k, v in kw.items() if k != "material"}))
    c = [len(r.coords) - 1 for r in [g.geom.exterior, *g.geom.interiors]]
    if fn in ("circular_section", "circular_section_by_area", "elliptical_section", "circular_hollow_section", "elliptical_hollow_section"):
        ctx.check(all(k == n for k in c), f"{fn}/points", f"{c} points instead of {n} per ring", cls="shape")
    if fn == "circular_section_by_area":
        ctx.close(g.geom.area, kw["area"], f"{fn}/exact-area", rtol=1e-10, atol=4e-12 * math.sqrt(kw["area"]), cls="shape")
    return g, want, n


def analysed(ctx):
    """the closed-form properties of the drawing, through the mesh, within the chord error."""
    from sectionproperties.analysis import Section
    rng = ctx.rng
    which = list(DRAW)[int(rng.integers(len(DRAW)))]
    fn, kw, want, n, mat, g = build(ctx, which)
    ref = want.polygon
    g.create_mesh([ref.area / 40])
    s = Section(g)
    s.calculate_geometric_properties()
    p = s.section_props
    e = 1.0 if mat is None else mat.elastic_modulus
    m = O.shapely_moments(ref)
    a, qx, qy, ixx, iyy, ixy = m[:6]
    sag = want.outer.sagitta(n) + max([h.sagitta(n) for h in want.holes] + [0])
    sl = max(r.slack for r in [want.outer, *want.holes])
    da = (sag + sl) * ref.length * 1.05 + 1e-8 * ref.area
    R = want.size * 1.5
    for name, got, w, lim in [("area", p.area, a, da), ("qx", p.qx / e, qx, da * R), ("qy", p.qy / e, qy, da * R), ("ixx_g", p.ixx_g / e, ixx, da * R * R),
                              ("iyy_g", p.iyy_g / e, iyy, da * R * R), ("ixy_g", p.ixy_g / e, ixy, da * R * R)]:
        ctx.check(abs(got - w) <= lim, f"{fn}/closed-form-{name}", f"{name}: {got:.8g} instead of {w:.8g} (chord error allows {lim:.3g}) {kw}", cls="moments")


def clt(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 8))
    s = sc(rng)
    b = s * rng.uniform(.5, 20)
    d = [s * rng.uniform(.1, 1) for _ in range(k)] if rng.random() < .75 else [s] * k
    if rng.random() < .2:
        d = [int(max(1, 40 * v / s)) for v in d]
    pool = [G.rmat(rng, name=f"t{i}") for i in range(int(rng.integers(1, 4)))]
    mats = [pool[int(rng.integers(len(pool)))] for _ in range(k)]
    fn = "clt_rectangular_section"
    ctx.note(d=d, b=b)
    ctx.signature("clt", k, len(pool))
    g = lib.clt_rectangular_section(d=list(d), layer_mat=list(mats), b=b) if rng.random() < .6 else lib.clt_rectangular_section(list(d), list(mats), b)
    ctx.check(type(g) is CompoundGeometry and len(g.geoms) == k, f"{fn}/layers", f"{type(g)} {len(g.geoms)} layers instead of {k}", cls="shape")
    top = 0.0
    for i, (r, di) in enumerate(zip(g.geoms, d)):
        w = Shape(Ring([(0, top - di), (b, top - di), (b, top), (0, top)]))
        match(ctx, r.geom, w, 2, fn + "/layer", f"layer {i} of {d}")
        ctx.check(r.material == mats[i], f"{fn}/layer-material", f"layer {i}", cls="material")
        top -= di
    ctx.close(sum(r.geom.area for r in g.geoms), sum(d) * b, f"{fn}/area", rtol=1e-10, atol=4e-12 * (b + sum(d)), cls="shape")
    ctx.close(g.geom.area, sum(d) * b, f"{fn}/union-area", rtol=1e-9, atol=4e-12 * k * (b + sum(d)), cls="shape")


def radius(ctx):
    rng = ctx.rng
    pt = (float(rng.normal()), float(rng.normal()))
    r = 0.0 if rng.random() < .15 else sc(rng)
    th, n, ccw = float(rng.uniform(-7, 7)), int(rng.integers(1, 40)), bool(rng.integers(2))
    phi = float(rng.uniform(.05, 2 * math.pi))
    kw = {}
    if rng.random() < .6:
        kw["phi"] = phi
    else:
        phi = math.pi / 2
    if not ccw or rng.random() < .5:
        kw["ccw"] = ccw
    p = lu.draw_radius(pt, r, th, n, **kw)
    key = "draw_radius"
    ctx.signature(key, n, ccw, r == 0)
    if r == 0:
        ctx.check(len(p) == 1 and tuple(p[0]) == pt, key + "/zero", str(p), cls="shape")
        return
    if not ctx.check(len(p) == n, key + "/count", f"{len(p)} points instead of {n}", cls="shape"):
        return
    q = np.asarray(p, float)
    ctx.check(np.abs(np.hypot(*(q - pt).T) - r).max() <= 1e-9 * (r + abs(pt[0]) + abs(pt[1])), key + "/on-arc", "", cls="shape")
    sg = 1 if ccw else -1
    for i, a in ((0, th), (n - 1, th + sg * phi * (n > 1))):
        w = (pt[0] + r * math.cos(a), pt[1] + r * math.sin(a))
        ctx.check(math.dist(q[i], w) <= 1e-9 * (r + 10), key + "/ends", f"point {i}: {q[i]} instead of {w}", cls="shape")
    if n > 2:
        a = np.unwrap(np.arctan2(q[:, 1] - pt[1], q[:, 0] - pt[0])) if phi / (n - 1) < 3 else None
        if a is not None:
            ctx.check((np.diff(a) * sg > 0).all() and abs(abs(a[-1] - a[0]) - phi) < 1e-6, key + "/monotone", "", cls="shape")
            ctx.check(np.abs(np.diff(a)).max() <= phi / (n - 1) * (1 + 1e-6) + 1e-9, key + "/spacing", f"largest step {np.abs(np.diff(a)).max()}", cls="shape")
    # rotation helper
    v, ang = (float(rng.normal()), float(rng.normal())), float(rng.uniform(-7, 7))
    w = complex(*v) * complex(math.cos(ang), math.sin(ang))
    ctx.check(abs(complex(*lu.rotate(v, ang)) - w) < 1e-12 * (1 + abs(w)), "rotate", "", cls="shape")


def refusal(ctx):
    rng = ctx.rng
    k = int(rng.integers(5))
    if k == 0:
        t = sc(rng)
        ctx.raises(ValueError, lambda: lib.angle_section(d=10 * t, b=8 * t, t=t, r_r=t, r_t=t * rng.uniform(1.01, 2), n_r=8), "angle_section/toe-refused", "toe radius > thickness")
    elif k == 1:
        ctx.raises(ValueError, lambda: lib.polygon_hollow_section(d=10, t=1, n_sides=int(rng.integers(-1, 3))), "polygon_hollow_section/sides-refused", "n_sides < 3")
    elif k == 2:
        ty, sub = [(0, 2), (6, 2), (-1, 1), (5, 1), (3, 0), (3, 3)][int(rng.integers(6))]
        ctx.raises(ValueError, lambda: lib.super_t_girder_section(girder_type=ty, girder_subtype=sub), "super_t_girder_section/refused", f"{ty} {sub}")
    elif k == 3:
        ty = int(rng.choice([0, 5, -3, 9]))
        ctx.raises(ValueError, lambda: lib.i_girder_section(girder_type=ty), "i_girder_section/refused", str(ty))
    else:  # documented bounds themselves are accepted
        t = sc(rng)
        lib.angle_section(d=10 * t, b=8 * t, t=t, r_r=t, r_t=t, n_r=8)
        lib.polygon_hollow_section(d=10, t=1, n_sides=3)
        for ty in range(1, 6):
            lib.super_t_girder_section(girder_type=ty)
        lib.super_t_girder_section(girder_type=4, girder_subtype=1)
        for ty in range(1, 5):
            lib.i_girder_section(girder_type=ty)
        ctx.saw("refusal", 4)


def run(ctx, case):
    k = case["kind"]
    if k == "clt":
        return clt(ctx)
    if k == "radius":
        return radius(ctx)
    if k == "refusal":
        return refusal(ctx)
    if k == "analysed":
        return analysed(ctx)
    return shape(ctx, k)
