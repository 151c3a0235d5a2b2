"""P19: NASTRAN library sections against the documented dimension drawings.

The outline is compared with an independently typed drawing in the documented coordinates, positioned at the documented origin;
the four stress recovery points with the named corners/extremities of that drawing; invalid dimensions must be refused.
"""
import math

import numpy as np
import shapely
from shapely.affinity import translate
from shapely.geometry import Point

import sectionproperties.pre.library as lib
from harness import gens as G
from harness.shapes import Ring, Shape, ellipse, match
from sectionproperties.pre import Geometry
from sectionproperties.pre.pre import DEFAULT_MATERIAL

NAMES = ["bar", "box", "box1", "chan", "chan1", "chan2", "cross", "fcross", "dbox", "gbox", "h", "hat", "hat1", "hexa", "i", "i1", "l",
         "rod", "tee", "tee1", "tee2", "tube", "tube2", "zed"]
CASES = {"quick": {n: 24 for n in NAMES} | {"refusal": 120}, "thorough": {n: 2500 for n in NAMES} | {"refusal": 4000}}
FLOORS = {"shape": 5000, "position": 400, "recovery": 1500, "material": 400, "refusal": 100}
RULE = "random realisable dimensions of every NASTRAN function, default and explicit materials, positional and keyword calls"
ASSUMPTIONS = ["dimensions satisfy the constraints of the NASTRAN definition, also those the library does not test (e.g. DIM3 > 2 DIM2 of a HAT)"]


def u(rng, lo, hi):
    return float(rng.uniform(lo, hi))


def rect(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


# every drawing returns dims, Shape in coordinates whose origin is the documented one, the recovery points C D E F
def s_bar(r, s):
    b, d = s * u(r, .1, 1), s * u(r, .1, 1)
    return [b, d], Shape(Ring(rect(-b / 2, -d / 2, b / 2, d / 2))), corners(b, d)


def corners(b, d):
    return [(b / 2, d / 2), (b / 2, -d / 2), (-b / 2, -d / 2), (-b / 2, d / 2)]


def s_box(r, s):
    b, d = s * u(r, .3, 1), s * u(r, .3, 1)
    t3, t4 = d * u(r, .02, .45), b * u(r, .02, .45)
    return [b, d, t3, t4], Shape(Ring(rect(-b / 2, -d / 2, b / 2, d / 2)), [Ring(rect(-b / 2 + t4, -d / 2 + t3, b / 2 - t4, d / 2 - t3))]), corners(b, d)


def s_box1(r, s):
    b, d = s * u(r, .3, 1), s * u(r, .3, 1)
    top, bot, left, right = d * u(r, .02, .45), d * u(r, .02, .45), b * u(r, .02, .45), b * u(r, .02, .45)
    return ([b, d, top, bot, left, right], Shape(Ring(rect(-b / 2, -d / 2, b / 2, d / 2)),
            [Ring(rect(-b / 2 + left, -d / 2 + bot, b / 2 - right, d / 2 - top))]), corners(b, d))


def s_chan(r, s):
    b, d = s * u(r, .3, 1), s * u(r, .3, 1)
    tw, tf = b * u(r, .02, .9), d * u(r, .02, .45)
    x0, x1 = -tw / 2, b - tw / 2
    q = [(x0, -d / 2), (x1, -d / 2), (x1, -d / 2 + tf), (tw / 2, -d / 2 + tf), (tw / 2, d / 2 - tf), (x1, d / 2 - tf), (x1, d / 2), (x0, d / 2)]
    return [b, d, tw, tf], Shape(Ring(q)), [(x1, d / 2), (x1, -d / 2), (x0, -d / 2), (x0, d / 2)]


def s_chan1(r, s):
    b, tw, h = s * u(r, .1, 1), s * u(r, .02, .4), s * u(r, .3, 1)
    d = h * u(r, 1.02, 1.6)
    x0, x1, t = -tw / 2, tw / 2 + b, (d - h) / 2
    q = [(x0, -d / 2), (x1, -d / 2), (x1, -d / 2 + t), (tw / 2, -d / 2 + t), (tw / 2, d / 2 - t), (x1, d / 2 - t), (x1, d / 2), (x0, d / 2)]
    return [b, tw, h, d], Shape(Ring(q)), [(x1, d / 2), (x1, -d / 2), (x0, -d / 2), (x0, d / 2)]


def s_chan2(r, s):
    d, b = s * u(r, .3, 1), s * u(r, .3, 1)
    tf, tw = b * u(r, .02, .45), d * u(r, .02, .9)
    y0 = -tw / 2
    q = [(-b / 2, y0), (b / 2, y0), (b / 2, y0 + d), (b / 2 - tf, y0 + d), (b / 2 - tf, tw / 2), (-b / 2 + tf, tw / 2), (-b / 2 + tf, y0 + d), (-b / 2, y0 + d)]
    return [tf, tw, d, b], Shape(Ring(q)), [(b / 2, y0 + d), (b / 2, y0), (-b / 2, y0), (-b / 2, y0 + d)]


def plus(hx, hy, tx, ty):
    """cross: half-width hx, half-depth hy, vertical member tx thick, horizontal member ty thick."""
    return [(-tx / 2, -hy), (tx / 2, -hy), (tx / 2, -ty / 2), (hx, -ty / 2), (hx, ty / 2), (tx / 2, ty / 2), (tx / 2, hy), (-tx / 2, hy),
            (-tx / 2, ty / 2), (-hx, ty / 2), (-hx, -ty / 2), (-tx / 2, -ty / 2)]


def s_cross(r, s):
    d1, tv, d = s * u(r, .1, 1), s * u(r, .02, .4), s * u(r, .3, 1)
    th = d * u(r, .02, .9)
    hx = (d1 + tv) / 2
    return [d1, tv, d, th], Shape(Ring(plus(hx, d / 2, tv, th))), [(0, d / 2), (hx, 0), (0, -d / 2), (-hx, 0)]


def s_fcross(r, s):
    d, b = s * u(r, .4, 1), s * u(r, .4, 1)
    tv, th = b * u(r, .02, .3), d * u(r, .02, .3)
    l5, l7 = tv + (b - tv) * u(r, .05, .5), th + (d - th) * u(r, .05, .5)
    t6, t8 = (d - th) / 2 * u(r, .05, .6), (b - tv) / 2 * u(r, .05, .6)
    if l5 / 2 > b / 2 - t8 and l7 / 2 > d / 2 - t6:
        return s_fcross(r, s)
    qd = [(tv / 2, th / 2), (tv / 2, d / 2 - t6), (l5 / 2, d / 2 - t6), (l5 / 2, d / 2)]          # upper right quadrant, going up
    rt = [(b / 2, l7 / 2), (b / 2 - t8, l7 / 2), (b / 2 - t8, th / 2)]                              # right flange, coming in
    q1 = rt + qd
    q2 = [(-x, y) for x, y in q1[::-1]]
    q3 = [(-x, -y) for x, y in q1]
    q4 = [(x, -y) for x, y in q1[::-1]]
    return [d, b, tv, th, l5, t6, l7, t8], Shape(Ring(q1 + q2 + q3 + q4)), [(0, d / 2), (b / 2, 0), (0, -d / 2), (-b / 2, 0)]


def s_dbox(r, s):
    b, d = s * u(r, .5, 1), s * u(r, .3, 1)
    t4, t5, t6 = b * u(r, .02, .15), b * u(r, .02, .15), b * u(r, .02, .15)
    d3 = u(r, t4 + t5 / 2 + .02 * b, b - t6 - t5 / 2 - .02 * b)
    t7, t8, t9, t10 = (d * u(r, .02, .45) for _ in range(4))
    w = Shape(Ring(rect(-b / 2, -d / 2, b / 2, d / 2)), [
        Ring(rect(-b / 2 + t4, -d / 2 + t8, -b / 2 + d3 - t5 / 2, d / 2 - t7)), Ring(rect(-b / 2 + d3 + t5 / 2, -d / 2 + t10, b / 2 - t6, d / 2 - t9))])
    return [b, d, d3, t4, t5, t6, t7, t8, t9, t10], w, corners(b, d)


def s_gbox(r, s):
    b, d = s * u(r, .5, 1), s * u(r, .3, 1)
    tt, tb, tw, sp = d * u(r, .02, .45), d * u(r, .02, .45), b * u(r, .02, .2), b * u(r, .05, .5)
    h = sp / 2 + tw
    q = [(-b / 2, -d / 2), (b / 2, -d / 2), (b / 2, -d / 2 + tb), (h, -d / 2 + tb), (h, d / 2 - tt), (b / 2, d / 2 - tt), (b / 2, d / 2),
         (-b / 2, d / 2), (-b / 2, d / 2 - tt), (-h, d / 2 - tt), (-h, -d / 2 + tb), (-b / 2, -d / 2 + tb)]
    return [b, d, tt, tb, tw, sp], Shape(Ring(q), [Ring(rect(-sp / 2, -d / 2 + tb, sp / 2, d / 2 - tt))]), corners(b, d)


def s_h(r, s):
    w, t2, d = s * u(r, .1, 1), s * u(r, .02, .5), s * u(r, .3, 1)
    t = d * u(r, .02, .9)
    X, x = (w + t2) / 2, w / 2
    q = [(-X, -d / 2), (-x, -d / 2), (-x, -t / 2), (x, -t / 2), (x, -d / 2), (X, -d / 2), (X, d / 2), (x, d / 2), (x, t / 2), (-x, t / 2), (-x, d / 2), (-X, d / 2)]
    return [w, t2, d, t], Shape(Ring(q)), corners(w + t2, d)


def hat(d, t, b, w, yt):
    """hat outline whose top face is at yt: depth d, thickness t, top width b, foot width w."""
    y0, y1 = yt - d, yt
    half = [(b / 2 - t, y1 - t), (b / 2 - t, y0), (b / 2 + w, y0), (b / 2 + w, y0 + t), (b / 2, y0 + t), (b / 2, y1)]
    return half + [(-x, y) for x, y in half[::-1]]


def s_hat(r, s):
    d, b, w = s * u(r, .3, 1), s * u(r, .3, 1), s * u(r, .05, .6)
    t = min(d, b) * u(r, .02, .45)
    return [d, t, b, w], Shape(Ring(hat(d, t, b, w, t / 2))), [(b / 2, t / 2), (b / 2 + w, -d + t), (-b / 2 - w, -d + t), (-b / 2, t / 2)]


def s_hexa(r, s):
    b, d = s * u(r, .3, 1), s * u(r, .3, 1)
    a = b * u(r, .02, .48)
    q = [(-b / 2, 0), (-b / 2 + a, -d / 2), (b / 2 - a, -d / 2), (b / 2, 0), (b / 2 - a, d / 2), (-b / 2 + a, d / 2)]
    return [a, b, d], Shape(Ring(q)), [(0, d / 2), (0, -d / 2), (b / 2, 0), (-b / 2, 0)]


def s_i(r, s):
    d, bb, bt = s * u(r, .3, 1), s * u(r, .3, 1), s * u(r, .3, 1)
    tw, tb, tt = min(bb, bt) * u(r, .02, .9), d * u(r, .02, .45), d * u(r, .02, .45)
    y0, y1 = -tb / 2, d - tb / 2
    half = [(bb / 2, y0), (bb / 2, y0 + tb), (tw / 2, y0 + tb), (tw / 2, y1 - tt), (bt / 2, y1 - tt), (bt / 2, y1)]
    return [d, bb, bt, tw, tb, tt], Shape(Ring(half + [(-x, y) for x, y in half[::-1]])), [(bt / 2, y1), (bb / 2, y0), (-bb / 2, y0), (-bt / 2, y1)]


def s_i1(r, s):
    w, tw, h = s * u(r, .1, 1), s * u(r, .02, .5), s * u(r, .3, 1)
    d = h * u(r, 1.02, 1.6)
    X = (w + tw) / 2
    half = [(X, -d / 2), (X, -h / 2), (tw / 2, -h / 2), (tw / 2, h / 2), (X, h / 2), (X, d / 2)]
    return [w, tw, h, d], Shape(Ring(half + [(-x, y) for x, y in half[::-1]])), corners(w + tw, d)


def s_l(r, s):
    b, d = s * u(r, .3, 1), s * u(r, .3, 1)
    tf, tw = d * u(r, .02, .9), b * u(r, .02, .9)
    x0, y0 = -tw / 2, -tf / 2
    q = [(x0, y0), (x0 + b, y0), (x0 + b, tf / 2), (tw / 2, tf / 2), (tw / 2, y0 + d), (x0, y0 + d)]
    return [b, d, tf, tw], Shape(Ring(q)), [(tw / 2, y0 + d), (x0 + b, y0), (x0, y0), (x0, y0 + d)]


def s_rod(r, s):
    n = int(r.integers(3, 80))
    return [s, n], Shape(ellipse(s, s, n)), [(0, s), (s, 0), (0, -s), (-s, 0)], n


def s_tube(r, s):
    n = int(r.integers(5, 80))
    i = s * u(r, .05, .8)
    return [s, i, n], Shape(ellipse(s, s, n), [ellipse(i, i, n)]), [(0, s), (s, 0), (0, -s), (-s, 0)], n


def s_tube2(r, s):
    n = int(r.integers(5, 80))
    t = s * u(r, .05, .9)
    return [s, t, n], Shape(ellipse(s, s, n), [ellipse(s - t, s - t, n)]), [(0, s), (s, 0), (0, -s), (-s, 0)], n


def s_tee(r, s):
    b, d = s * u(r, .3, 1), s * u(r, .3, 1)
    tf, tw = d * u(r, .02, .9), b * u(r, .02, .9)
    half = [(tw / 2, tf / 2 - d), (tw / 2, -tf / 2), (b / 2, -tf / 2), (b / 2, tf / 2)]
    return [b, d, tf, tw], Shape(Ring(half + [(-x, y) for x, y in half[::-1]])), [(0, tf / 2), (b / 2, tf / 2), (0, tf / 2 - d), (-b / 2, tf / 2)]


def s_tee1(r, s):
    d, w = s * u(r, .3, 1), s * u(r, .3, 1)
    tf, tw = s * u(r, .02, .4), d * u(r, .02, .9)
    q = [(-tf / 2, -d / 2), (tf / 2, -d / 2), (tf / 2, d / 2), (-tf / 2, d / 2), (-tf / 2, tw / 2), (-tf / 2 - w, tw / 2), (-tf / 2 - w, -tw / 2), (-tf / 2, -tw / 2)]
    return [d, w, tf, tw], Shape(Ring(q)), [(tf / 2, 0), (tf / 2, -d / 2), (-tf / 2 - w, 0), (tf / 2, d / 2)]


def s_tee2(r, s):
    b, d = s * u(r, .3, 1), s * u(r, .3, 1)
    tf, tw = d * u(r, .02, .9), b * u(r, .02, .9)
    y0 = -tf / 2
    half = [(b / 2, y0), (b / 2, tf / 2), (tw / 2, tf / 2), (tw / 2, y0 + d)]
    return [b, d, tf, tw], Shape(Ring(half + [(-x, y) for x, y in half[::-1]])), [(tw / 2, y0 + d), (b / 2, y0), (-b / 2, y0), (-tw / 2, y0 + d)]


def s_zed(r, s):
    w, tw, h = s * u(r, .1, 1), s * u(r, .02, .4), s * u(r, .3, 1)
    d = h * u(r, 1.02, 1.6)
    half = [(-tw / 2, -d / 2), (tw / 2 + w, -d / 2), (tw / 2 + w, -h / 2), (tw / 2, -h / 2)]
    q = half + [(-x, -y) for x, y in half]
    return [w, tw, h, d], Shape(Ring(q)), [(tw / 2, d / 2), (tw / 2 + w, -d / 2), (-tw / 2, -d / 2), (-tw / 2 - w, d / 2)]


def params(name, dims):
    names = [f"dim_{i + 1}" for i in range(len(dims))]
    if name in ("rod", "tube", "tube2"):
        names[-1] = "n"
    return dict(zip(names, dims))


def call(ctx, name, dims):
    fn = "nastran_" + name
    kw = params(name, dims)
    mat = G.rmat(ctx.rng) if ctx.rng.random() < .5 else None
    if mat is not None:
        kw["material"] = mat
    ctx.note(fn=fn, dims=dims)
    ctx.signature(fn, mat is None, round(sum(dims), 6))
    if ctx.rng.random() < .4:
        m = [kw["material"]] if mat is not None else []
        return getattr(lib, fn)(*dims, *m), mat
    return getattr(lib, fn)(**kw), mat


def place(ctx, got, want, fn, msg):
    """Offset of the section from the documented position; returns the section moved to it."""
    (gx, gy, *_), (wx, wy, *_) = got.bounds, want.polygon.bounds
    tol = 1e-9 * want.size
    dx, dy = gx - wx, gy - wy
    ctx.saw("position")
    if max(abs(dx), abs(dy)) > tol:
        d = ctx.info["dims"]
        cx = {"nastran_tee1": -d[1], "nastran_i": min(0.0, (d[1] - d[2]) / 2)}.get(fn, 0.0) if len(d) > 2 else 0.0
        how = "drawn-from-corner" if max(abs(gx - cx), abs(gy)) <= tol else "elsewhere"
        ctx.violate(f"{fn}/position-{how}", f"section is ({dx:.4g}, {dy:.4g}) away from the documented origin {msg}")
    return translate(got, -dx, -dy)


def one(ctx, name):
    rng = ctx.rng
    s = float(10 ** rng.uniform(-2, 3))
    fn = "nastran_" + name
    if name == "hat1":
        return hat1(ctx, s)
    out = globals()["s_" + name](rng, s)
    dims, want, rec = out[:3]
    n = out[3] if len(out) > 3 else 2
    if name in ("tube", "tube2"):
        ri = dims[1] if name == "tube" else dims[0] - dims[1]
        if ri >= dims[0] * math.cos(math.pi / n) * .999:
            n = dims[-1] = 80
            if ri >= dims[0] * math.cos(math.pi / n) * .999:
                return ctx.saw("shape")
            want = Shape(ellipse(s, s, n), [ellipse(ri, ri, n)])
    g, mat = call(ctx, name, dims)
    msg = str(dims)
    ctx.check(type(g) is Geometry, fn + "/type", str(type(g)), cls="material")
    m = DEFAULT_MATERIAL if mat is None else mat
    ctx.check(g.material == m, fn + "/material", f"{g.material}", cls="material")
    got = g.geom if n > 2 else place(ctx, g.geom, want, fn, msg)
    match(ctx, got, want, n, fn, msg)
    recover(ctx, g, rec, want, fn, msg)


def recover(ctx, g, rec, want, fn, msg):
    pts = [(p.x, p.y) if isinstance(p, Point) else tuple(p) for p in g.recovery_points]
    if not ctx.check(len(pts) == 4, fn + "/recovery-count", f"{len(pts)} recovery points", cls="recovery"):
        return
    bad = [i for i in range(4) if math.dist(pts[i], rec[i]) > 1e-9 * want.size]
    ctx.saw("recovery", 4)
    if bad:
        x0, y0, x1, y1 = want.polygon.bounds
        bc = ((x0 + x1) / 2, (y0 + y1) / 2)
        rel = [(p[0] + bc[0], p[1] + bc[1]) for p in pts]            # the points, read from the centre of the bounding box
        if all(math.dist(a, b) <= 1e-9 * want.size for a, b in zip(rel, rec)):
            how = "recovery-about-box-centre"
        elif fn == "nastran_i" and all(math.dist(a, (sx * g_dim(ctx, 2) / 2, sy * g_dim(ctx, 0) / 2)) <= 1e-9 * want.size
                                       for a, (sx, sy) in zip(pts, [(1, 1), (1, -1), (-1, -1), (-1, 1)])):
            how = "recovery-top-width-about-mid-depth"
        else:
            how = "recovery"
        ctx.violate(f"{fn}/{how}", f"recovery points {pts} are not {rec} {msg}")


def g_dim(ctx, i):
    return ctx.info["dims"][i]


def hat1(ctx, s):
    rng = ctx.rng
    fn = "nastran_hat1"
    b, d = s * u(rng, .5, 1), s * u(rng, .3, 1)
    w = b * u(rng, .2, .85)
    t5 = d * u(rng, .02, .4)
    t4 = min((d - t5) / 2, w / 2) * u(rng, .05, .9)
    dims = [b, d, w, t4, t5]
    g, mat = call(ctx, "hat1", dims)
    m = DEFAULT_MATERIAL if mat is None else mat
    plate = Shape(Ring(rect(-b / 2, 0, b / 2, t5)))
    top = Shape(Ring(hat(d - t5, t4, w, (b - w) / 2, d)))
    if not ctx.check(hasattr(g, "geoms") and len(g.geoms) == 2, fn + "/parts", str(type(g)), cls="shape"):
        return
    hs, ps = sorted(g.geoms, key=lambda r: -r.geom.bounds[3])
    match(ctx, hs.geom, top, 2, fn + "/hat", str(dims))
    match(ctx, ps.geom, plate, 2, fn + "/plate", str(dims))
    ctx.saw("position")
    ctx.check(all(r.material == m for r in g.geoms), fn + "/material", "", cls="material")
    recover(ctx, g, [(-b / 2, 0), (b / 2, 0), (-w / 2, d), (w / 2, d)], Shape(Ring(rect(-b / 2, 0, b / 2, d))), fn, str(dims))


# dimensions that violate a stated condition (the library's own "physically relevant" guard)
BAD = {
    "box": [(1, 4, .2, .5), (4, 1, .5, .2), (4, 3, 1.6, .2), (4, 3, .2, 2.1)],
    "box1": [(4, 3, 1.6, 1.5, .2, .2), (4, 3, .2, .2, 2.1, 2.0), (4, 3, 1.5, 1.5, .2, .2)],
    "chan": [(2, 4, .25, 2.0), (2, 4, 2.0, .5), (2, 4, 3.0, .5)],
    "chan1": [(.75, 1, 4.0, 4.0), (.75, 1, 4.5, 4.0)],
    "chan2": [(2.0, .5, 2, 4), (.375, 2.0, 2, 4), (.375, 2.5, 2, 4)],
    "cross": [(1.5, .375, 3.0, 3.0), (1.5, .375, 3.0, 3.5)],
    "fcross": [(9, 6, 2.2, .625, 2.1, .375, 4.5, .564), (9, 6, .75, 4.6, 2.1, .375, 4.5, .564), (9, 6, .75, .625, 2.1, .375, 9.1, .564),
               (9, 6, .75, .625, 6.1, .375, 4.5, .564), (9, 6, .75, .625, 2.1, .375, 4.5, 2.7), (9, 6, .75, .625, 2.1, 4.3, 4.5, .564)],
    "dbox": [(8, 3, 3, 2.6, 2.7, 2.8, .375, .25, .5, .375), (8, 3, .8, .5, .625, .75, .375, .25, .5, .375), (8, 3, 3, .5, .625, .75, 1.6, 1.5, .5, .375),
             (8, 3, 3, .5, .625, .75, .375, .25, 1.6, 1.5)],
    "gbox": [(6, 2.5, 1.3, 1.2, .625, 1), (6, 2.5, .375, .25, 2.6, 1), (6, 2.5, .375, .25, .625, 4.8)],
    "h": [(2, .75, 3.5, 3.5), (2, .75, 3.5, 4)],
    "hat": [(1.25, .7, 1.5, .5), (1.25, .625, 1.5, .5)],
    "hat1": [(4, 2, 1.5, .9, .375), (4, 2, 4.0, .1875, .375), (4, 2, 4.5, .1875, .375)],
    "hexa": [(2.0, 2.0, 1.5), (2.5, 2.0, 1.5)],
    "i": [(5, 2, 3, .25, 2.6, 2.5), (5, 2, 3, 3.0, .375, .5), (5, 2, 3, 2.0, .375, .5)],
    "i1": [(1, .75, 5, 5), (1, .75, 5.5, 5)],
    "l": [(3, 6, .375, 3.0), (3, 6, 6.0, .625)],
    "tee": [(3, 4, .375, 3.0), (3, 4, 4.0, .25)],
    "tee1": [(3, 3.5, .375, 3.0), (3, 3.5, .375, 3.2)],
    "tee2": [(3, 4, .375, 3.0), (3, 4, 4.0, .5)],
    "tube": [(3, 3, 37), (3, 3.5, 37)],
    "tube2": [(3, 3, 37), (3, 3.5, 37)],
    "zed": [(1.125, .5, 4.0, 4.0), (1.125, .5, 4.5, 4.0)],
}


def refusal(ctx):
    names = list(BAD)
    name = names[ctx.case["i"] % len(names)]
    dims = BAD[name][int(ctx.rng.integers(len(BAD[name])))]
    k = float(2.0 ** ctx.rng.integers(-6, 8))
    dims = [v * k if not (isinstance(v, int) and v == 37) else v for v in dims]
    ctx.signature(name, tuple(dims))
    ctx.raises(ValueError, lambda: getattr(lib, "nastran_" + name)(**params(name, dims)), f"nastran_{name}/refused", f"dimensions {dims}")
    ctx.saw("refusal")


def run(ctx, case):
    if case["kind"] == "refusal":
        return refusal(ctx)
    one(ctx, case["kind"])
