"""P18: the concrete library places concrete and steel as specified.

Every section is compared with an independent description: the concrete outline as a polygon, and the bars either as explicit
centres (beams, columns) or as a table of layers (walls: a line from end to end, evenly spaced, gaps never above the maximum
spacing, no more bars than the documented count).  Shapely judges areas, overlaps, gaps, containment; each bar must be the
n-point polygon of exactly the requested area, and bars/concrete must carry their materials.
"""
import math

import numpy as np
import shapely
from scipy.spatial import cKDTree
from shapely import box
from shapely.geometry import Point, Polygon
from shapely.ops import unary_union

import sectionproperties.pre.library as lib
from harness import gens as G
from harness.common import Skip
from sectionproperties.analysis import Section
from sectionproperties.pre import CompoundGeometry, Geometry
from sectionproperties.pre.library import concrete_sections as cs
from sectionproperties.pre.pre import DEFAULT_MATERIAL

WALLS = ["rectangular_wall", "cee_wall", "tee_wall", "single_lift_core", "double_lift_core_a", "double_lift_core_b", "stairwell"]
BEAMS = ["concrete_rectangular_section", "concrete_column_section", "concrete_tee_section", "concrete_circular_section"]
NAMES = BEAMS + WALLS + ["add_bar", "add_bars", "refusal", "analysed"]
CASES = {"quick": {n: 30 for n in BEAMS} | {n: 18 for n in WALLS} | {"add_bar": 60, "add_bars": 40, "refusal": 60, "analysed": 20},
         "thorough": {n: 700 for n in BEAMS} | {n: 500 for n in WALLS} | {"add_bar": 3000, "add_bars": 2000, "refusal": 1500, "analysed": 500}}
FLOORS = {"bars": 5000, "concrete": 500, "material": 5000, "spacing": 300, "refusal": 60, "moments": 50}
RULE = "random dimensions, covers, bar counts, areas and layouts of every concrete section function; bars added to arbitrary geometry"
ASSUMPTIONS = ["layouts in which two bars would overlap each other or a bar would leave the concrete are not valid input",
               "bars of a wall layer: even spacing between the layer ends; one bar more than ceil(length/spacing)+1 is tolerated when the "
               "layer length is measured without the end cover"]


def u(r, lo, hi):
    return float(r.uniform(lo, hi))


def mats(r):
    k = r.random()
    if k < .25:
        return {}, DEFAULT_MATERIAL, DEFAULT_MATERIAL
    c, s = G.rmat(r, name="conc"), G.rmat(r, name="steel")
    if k < .35:
        return {"conc_mat": c}, c, DEFAULT_MATERIAL
    if k < .45:
        return {"steel_mat": s}, DEFAULT_MATERIAL, s
    if k < .5:
        return {"conc_mat": c, "steel_mat": c}, c, c
    return {"conc_mat": c, "steel_mat": s}, c, s


def rad(area, n):
    return math.sqrt(area / (n * math.sin(math.pi / n) * math.cos(math.pi / n)))


def bar_area(r, dia):
    return math.pi * dia ** 2 / 4 * (1.0 if r.random() < .5 else u(r, .4, 1.3))


def nc(r):
    return int(r.choice([3, 4, 5, 8, 12, 16, 24]))


def evenly(lo, hi, n):
    return [(lo + hi) / 2] if n == 1 else [lo + (hi - lo) * i / (n - 1) for i in range(n)]


# beams and columns: (kwargs, outline, [(x, y, area)], n_circle)
def beam_bars(r, kw, width_top, width_bot, x0, s, depth):
    dt, db, ds = s * u(r, .01, .04), s * u(r, .01, .04), s * u(r, .005, .02)
    ct, cb = s * u(r, .01, .08), s * u(r, .01, .08)
    nt, nb, ns = int(r.integers(0, 8)), int(r.integers(0, 8)), int(r.integers(0, 5))
    if nt + nb == 0:
        nb = 1
    kw |= dict(dia_top=dt, area_top=bar_area(r, dt), n_top=nt, c_top=ct, dia_bot=db, area_bot=bar_area(r, db), n_bot=nb, c_bot=cb)
    side = r.random() < .5
    c_side = 0.0
    if r.random() < .6 or side:
        c_side = s * u(r, .01, .08)
        kw["c_side"] = c_side
    bars = []
    for n, w, dia, cov, y, a in ((nt, width_top, dt, ct, depth - ct - dt / 2, kw["area_top"]), (nb, width_bot, db, cb, cb + db / 2, kw["area_bot"])):
        edge = (c_side or cov) + dia / 2
        bars += [(x0 + x, y, a) for x in evenly(-w / 2 + edge, w / 2 - edge, n)] if n else []
    if side:
        kw |= dict(dia_side=ds, area_side=bar_area(r, ds), n_side=ns)
        ys = evenly(cb + db / 2, depth - ct - dt / 2, ns + 2)[1:-1]
        xe = width_bot / 2 - c_side - ds / 2
        bars += [(x0 + sg * xe, y, kw["area_side"]) for y in ys for sg in (-1, 1)]
    return bars


def concrete_rectangular_section(r, s):
    d, b = s * u(r, .3, 1.2), s * u(r, .25, 1.2)
    kw = dict(d=d, b=b)
    bars = beam_bars(r, kw, b, b, b / 2, s, d)
    return kw, box(0, 0, b, d), bars, None


def concrete_tee_section(r, s):
    d, b = s * u(r, .4, 1.2), s * u(r, .15, .6)
    df, bf = d * u(r, .1, .6), b * u(r, 1.0, 5)
    kw = dict(d=d, b=b, d_f=df, b_f=bf)
    bars = beam_bars(r, kw, bf, b, 0.0, s, d)
    return kw, unary_union([box(-b / 2, 0, b / 2, d - df), box(-bf / 2, d - df, bf / 2, d)]), bars, None


def concrete_column_section(r, s):
    d, b, dia = s * u(r, .3, 1.2), s * u(r, .3, 1.2), s * u(r, .01, .05)
    nx, ny, c = int(r.integers(2, 8)), int(r.integers(2, 8)), s * u(r, .01, .08)
    kw = dict(d=d, b=b, dia_bar=dia, area_bar=bar_area(r, dia), n_x=nx, n_y=ny, cover=c)
    filled = False
    if r.random() < .6:
        filled = kw["filled"] = bool(r.integers(2))
    e = c + dia / 2
    bars = [(x, y, kw["area_bar"]) for i, x in enumerate(evenly(e, b - e, nx)) for j, y in enumerate(evenly(e, d - e, ny))
            if filled or i in (0, nx - 1) or j in (0, ny - 1)]
    return kw, box(0, 0, b, d), bars, None


def concrete_circular_section(r, s):
    d, dia, c = s, s * u(r, .01, .08), s * u(r, .01, .2)
    n, nconc = int(r.integers(2, 13)), int(r.choice([8, 12, 17, 32, 64]))
    area = math.pi * d * d / 4 * (1 if r.random() < .6 else u(r, .95, 1.05))
    kw = dict(d=d, area_conc=area, n_conc=nconc, dia_bar=dia, area_bar=bar_area(r, dia), n_bar=n, cover=c)
    R = rad(area, nconc)
    th = 2 * math.pi * np.arange(nconc) / nconc
    rb = d / 2 - c - dia / 2
    bars = [(rb * math.cos(2 * math.pi * i / n), rb * math.sin(2 * math.pi * i / n), kw["area_bar"]) for i in range(n)]
    return kw, Polygon(np.c_[R * np.cos(th), R * np.sin(th)]), bars, None


# walls: (kwargs, outline, None, layers); layer = (start, end, bar at the start?, bar at the end?)
def wall_common(r, s):
    dia, c = s * u(r, .008, .03), s * u(r, .01, .06)
    double = bool(r.integers(2))
    kw = dict(dia_bar=dia, area_bar=bar_area(r, dia), spacing=s * (u(r, .08, .5) if r.random() < .75 else u(r, .02, .08)), cover=c)
    if not double or r.random() < .7:
        kw["double"] = double
    tmin = 2 * c + (3.0 if double else 1.2) * dia
    return kw, c + dia / 2, double, lambda: tmin * u(r, 1.0, 2.5)


def H(x0, x1, y, a=True, b=True):
    return ((x0, y), (x1, y), a, b)


def V(x, y0, y1, a=True, b=True):
    return ((x, y0), (x, y1), a, b)


def rectangular_wall(r, s):
    kw, e, double, t = wall_common(r, s)
    t, d = t(), s * u(r, .4, 3)
    return kw | dict(d=d, t=t), box(0, 0, t, d), None, [V(x, e, d - e) for x in ((e, t - e) if double else (t / 2,))]


def cee_wall(r, s):
    kw, e, double, t = wall_common(r, s)
    tf, tw = t(), t()
    d, b = 2 * tf + s * u(r, .3, 3), tw + s * u(r, .3, 3)
    o = box(0, 0, b, d) - box(tw, tf, b, d - tf)
    if double:
        ly = [H(e, b - e, e), H(e, b - e, d - e), V(e, e, d - e), H(tw - e, b - e, tf - e), H(tw - e, b - e, d - tf + e), V(tw - e, tf - e, d - tf + e)]
    else:
        ly = [H(tw / 2, b - e, tf / 2), H(tw / 2, b - e, d - tf / 2), V(tw / 2, tf / 2, d - tf / 2)]
    return kw | dict(d=d, b=b, t_f=tf, t_w=tw), o, None, ly


def tee_wall(r, s):
    kw, e, double, t = wall_common(r, s)
    tf, tw = t(), t()
    d, b = tf + s * u(r, .3, 3), tw + 2 * s * u(r, .2, 2)
    o = unary_union([box(0, d - tf, b, d), box((b - tw) / 2, 0, (b + tw) / 2, d)])
    xl, xr = (b - tw) / 2 + e, (b + tw) / 2 - e
    if double:
        yi = d - tf + e
        ly = [H(e, b - e, d - e), H(e, xl, yi), H(xr, b - e, yi), V(xl, e, yi), V(xr, e, yi)]
    else:
        ly = [H(e, b - e, d - tf / 2), V(b / 2, e, d - tf / 2, True, False)]
    return kw | dict(d=d, b=b, t_f=tf, t_w=tw), o, None, ly


def core_box(b, d, t1, t2, e, double):
    """closed box: bottom, top and left walls."""
    if double:
        return [H(e, b - e, e), H(e, b - e, d - e), V(e, e, d - e), H(t2 - e, b - t2 + e, t1 - e), H(t2 - e, b - t2 + e, d - t1 + e), V(t2 - e, t1 - e, d - t1 + e)]
    return [H(t2 / 2, b - t2 / 2, t1 / 2), H(t2 / 2, b - t2 / 2, d - t1 / 2), V(t2 / 2, t1 / 2, d - t1 / 2)]


def stub(b, d, t1, t2, e, double, yend, up):
    """right wall from the bottom (up) or top to the door edge at yend."""
    f = (lambda y: y) if up else (lambda y: d - y)
    z = yend if up else d - yend
    if double:
        return [V(b - e, f(e), f(z - e)), V(b - t2 + e, f(t1 - e), f(z - e))]
    return [V(b - t2 / 2, f(t1 / 2), f(z - e))]


def single_lift_core(r, s):
    kw, e, double, t = wall_common(r, s)
    t1, t2 = t(), t()
    d, b = 2 * t1 + s * u(r, .5, 3), 2 * t2 + s * u(r, .3, 3)
    a = (d - 2 * t1) * u(r, .1, 1.0)
    o = box(0, 0, b, d) - box(t2, t1, b - t2, d - t1) - box(b - t2, (d - a) / 2, b, (d + a) / 2)
    ly = core_box(b, d, t1, t2, e, double) + stub(b, d, t1, t2, e, double, (d - a) / 2, True) + stub(b, d, t1, t2, e, double, (d + a) / 2, False)
    return kw | dict(d=d, b=b, t1=t1, t2=t2, a=a), o, None, ly


def double_lift_core_a(r, s):
    kw, e, double, t = wall_common(r, s)
    t1, t2, a2 = t(), t(), t() * u(r, 1, 4)
    a1 = s * u(r, .2, 1)
    nib = s * u(r, .02, .8)
    if r.random() < .1:       # doors that reach the walls; exact in floating point
        q = 2.0 ** math.floor(math.log2(s) - 9)
        nib, t1, a1, a2 = 0.0, *(math.ceil(v / q) * q for v in (t1, a1, a2))
    d, b = 2 * a1 + a2 + 2 * t1 + 2 * nib, 2 * t2 + s * u(r, .3, 3)
    if 2 * a1 + a2 > d - 2 * t1:
        raise Skip("rounding")
    nib = .5 * (d - 2 * a1 - a2 - 2 * t1)
    o = box(0, 0, b, d) - box(t2, t1, b - t2, d - t1) - box(b - t2, t1 + nib, b, t1 + nib + a1) - box(b - t2, d - t1 - nib - a1, b, d - t1 - nib)
    ly = core_box(b, d, t1, t2, e, double) + stub(b, d, t1, t2, e, double, t1 + nib, True) + stub(b, d, t1, t2, e, double, d - t1 - nib, False)
    ly += [V(x, (d - a2) / 2 + e, (d + a2) / 2 - e) for x in ((b - e, b - t2 + e) if double else (b - t2 / 2,))]
    return kw | dict(d=d, b=b, t1=t1, t2=t2, a1=a1, a2=a2), o, None, ly


def double_lift_core_b(r, s):
    kw, e, double, t = wall_common(r, s)
    t1, t2, t3 = t(), t(), t()
    lift = s * u(r, .4, 2.5)
    d, b = 2 * t1 + t3 + 2 * lift, 2 * t2 + s * u(r, .3, 3)
    a = lift * u(r, .2, .98)
    nib = (lift - a) / 2
    lo, hi = (d - t3) / 2, (d + t3) / 2
    o = box(0, 0, b, d) - box(t2, t1, b - t2, lo) - box(t2, hi, b - t2, d - t1) - box(b - t2, t1 + nib, b, t1 + nib + a) - box(b - t2, d - t1 - nib - a, b, d - t1 - nib)
    st = stub(b, d, t1, t2, e, double, t1 + nib, True) + stub(b, d, t1, t2, e, double, d - t1 - nib, False)
    if double:
        ly = [q for q in core_box(b, d, t1, t2, e, True)[:5]] + [
            H(t2 - e, b - t2 + e, lo + e), H(t2 - e, b - t2 + e, hi - e), V(t2 - e, t1 - e, lo + e), V(t2 - e, hi - e, d - t1 + e),
            V(b - e, lo - nib + e, hi + nib - e), V(b - t2 + e, lo - nib + e, lo + e), V(b - t2 + e, hi - e, hi + nib - e)]
    else:
        ly = core_box(b, d, t1, t2, e, False) + [H(t2 / 2, b - t2 / 2, d / 2, False, False), V(b - t2 / 2, lo - nib + e, hi + nib - e)]
    return kw | dict(d=d, b=b, t1=t1, t2=t2, t3=t3, a=a), o, None, ly + st


def stairwell(r, s):
    kw, e, double, t = wall_common(r, s)
    t1, t2 = t(), t()
    d, b = 2 * t1 + s * u(r, .5, 3), 2 * t2 + s * u(r, .3, 3)
    a = (d - 2 * t1) * u(r, .1, .97)
    o = box(0, 0, b, d) - box(t2, t1, b - t2, d - t1) - box(b - t2, d - t1 - a, b, d - t1)
    ly = core_box(b, d, t1, t2, e, double)
    if double:
        ly[4] = H(t2 - e, b - e, d - t1 + e)     # the top wall ends at the door jamb
    return kw | dict(d=d, b=b, t1=t1, t2=t2, a=a), o, None, ly + stub(b, d, t1, t2, e, double, d - t1 - a, True)


def counts(L, kw):
    s, e = kw["spacing"], kw["cover"] + kw["dia_bar"] / 2
    return sorted({max(1, math.ceil(v / s) + 1) for v in (L * (1 - 1e-9), L * (1 + 1e-9), L + e)})


def layer_points(lay, n):
    (x0, y0), (x1, y1), a, b = lay
    p = [(x0 + (x1 - x0) * i / (n - 1), y0 + (y1 - y0) * i / (n - 1)) for i in range(n)] if n > 1 else [(x0, y0)]
    return p[(0 if a else 1):(len(p) if b else len(p) - 1)]


def valid(outline, bars, n):
    """bars inside the concrete and clear of each other."""
    pts = np.array([(x, y) for x, y, _ in bars])
    R = np.array([rad(a, n) for *_, a in bars])
    if not shapely.contains_xy(outline, pts).all():
        return False
    if (shapely.distance(shapely.points(pts), outline.boundary) < 1.02 * R).any():
        return False
    d = np.hypot(*(pts[:, None] - pts[None]).transpose(2, 0, 1)) + np.eye(len(pts)) * 1e300
    return bool((d > 1.02 * (R[:, None] + R[None])).all())


def clear(outline, layers, kw, n, s):
    """every acceptable layout (any tolerated bar count of any layer) is free of overlapping bars."""
    a = kw["area_bar"]
    sets = []
    for ly in layers:
        L = math.dist(ly[0], ly[1])
        cand = [layer_points(ly, k) for k in counts(L, kw)]
        if any(p and not valid(outline, [(x, y, a) for x, y in p], n) for p in cand):
            return False
        sets.append(np.array([q for p in cand for q in p]).reshape(-1, 2))
    for i in range(len(sets)):
        for j in range(i):
            if len(sets[i]) and len(sets[j]):
                d = np.hypot(*(sets[i][:, None] - sets[j][None]).transpose(2, 0, 1))
                if ((d < 2.04 * rad(a, n)) & (d > 1e-9 * s)).any():
                    return False
    return True


def judge(ctx, fn, g, outline, bars, layers, n, kw, mc, ms):
    size = max(outline.bounds[2] - outline.bounds[0], outline.bounds[3] - outline.bounds[1])
    eps = 1e-9 * size
    if not ctx.check(type(g) is CompoundGeometry, f"{fn}/type", str(type(g)), cls="concrete"):
        return
    polys = [p.geom for p in g.geoms]
    cen = np.array([(p.centroid.x, p.centroid.y) for p in polys])
    ar = np.array([p.area for p in polys])
    per = np.array([p.length for p in polys])
    used = np.zeros(len(polys), bool)

    def find(x, y, a):
        ok = (np.hypot(cen[:, 0] - x, cen[:, 1] - y) <= eps) & (np.abs(ar - a) <= 1e-9 * a + 1e-11 * per) & ~used
        return int(np.argmax(ok)) if ok.any() else None

    if layers is not None:
        a, bars = kw["area_bar"], []
        taken = {}
        for li, lay in enumerate(layers):
            L = math.dist(lay[0], lay[1])
            best = None
            for k in counts(L, kw):
                pts = layer_points(lay, k)
                hit = [next((j for j in range(len(polys)) if math.hypot(cen[j, 0] - x, cen[j, 1] - y) <= eps and abs(ar[j] - a) <= 1e-9 * a + 1e-11 * per[j]), None)
                       for x, y in pts]
                if None not in hit:
                    best = (pts, hit)
            if not ctx.check(best is not None, f"{fn}/layer", f"layer {li} {lay} of length {L:.5g}, maximum spacing {kw['spacing']:.5g}: not "
                             f"{counts(L, kw)} evenly spaced bars; bars at {cen[ar < 1.5 * a].round(3).tolist()[:40]} {kw}", cls="spacing"):
                return
            for p, j in zip(*best):
                taken[j] = p
        bars = [(x, y, a) for x, y in taken.values()]
    steel = []
    for x, y, a in bars:
        j = find(x, y, a)
        if not ctx.check(j is not None, f"{fn}/bar", f"no bar of area {a:.6g} at ({x:.6g}, {y:.6g}); regions near: "
                         f"{[(c.round(5).tolist(), float(q)) for c, q in zip(cen, ar) if math.hypot(c[0] - x, c[1] - y) < .05 * size][:3]} {kw}", cls="bars"):
            return
        used[j] = True
        steel.append(polys[j])
        R = rad(a, n)
        v = shapely.get_coordinates(polys[j].exterior)[:-1]
        rr = np.hypot(v[:, 0] - x, v[:, 1] - y)
        ctx.check(len(v) == n and not len(polys[j].interiors) and np.abs(rr - R).max() <= eps, f"{fn}/bar-shape",
                  f"bar at ({x:.5g}, {y:.5g}): {len(v)} points instead of {n}, radius {rr.min():.6g}..{rr.max():.6g} instead of {R:.6g}", cls="bars")
        m = g.geoms[j].material
        ctx.check(m is ms or m == ms, f"{fn}/steel-material", f"bar at ({x:.5g}, {y:.5g}) is made of {m.name} instead of {ms.name}", cls="material")
    conc = [p for p, k in zip(polys, used) if not k]
    for p, k in zip(g.geoms, used):
        if not k:
            ctx.check(p.material is mc or p.material == mc, f"{fn}/concrete-material", f"{p.material.name} instead of {mc.name}", cls="material")
    ctx.check(all(p.is_valid and p.geom_type == "Polygon" for p in polys), f"{fn}/valid", "invalid region", cls="concrete")
    want = outline - unary_union(steel)
    got = unary_union(conc)
    lim = eps * (want.length + got.length)
    ctx.check(got.symmetric_difference(want).area <= lim, f"{fn}/concrete", f"concrete is not the outline less the bars: area {got.area:.9g} instead of "
              f"{want.area:.9g}, symmetric difference {got.symmetric_difference(want).area:.4g} {kw}", cls="concrete")
    # no needles: rounding must not leave walls or gaps of some 1e-12, which cannot be meshed
    v = np.unique(shapely.get_coordinates(polys), axis=0)
    gap = cKDTree(v).query(v, k=2)[0][:, 1].min()
    rings = sum(len(p.interiors) for p in conc)
    ctx.check(gap > 1e-7 * size and (len(conc) > 1 or rings == int(shapely.get_num_interior_rings(shapely.get_parts(want)).sum())), f"{fn}/sliver",
              f"vertices {gap:.3g} apart, {len(conc)} concrete regions with {rings} voids {kw}", cls="concrete")
    ctx.close(sum(ar), outline.area, f"{fn}/gross-area", rtol=1e-9, atol=lim, cls="concrete", msg=str(kw))
    ctx.close(sum(p.area for p in conc), outline.area - sum(a for *_, a in bars), f"{fn}/concrete-area", rtol=1e-8, atol=lim, cls="concrete")
    ctx.check(abs(unary_union(polys).area - sum(ar)) <= lim, f"{fn}/overlap", f"regions overlap: union {unary_union(polys).area:.9g} sum {sum(ar):.9g}", cls="concrete")


def build(ctx, fn):
    r = ctx.rng
    for _ in range(60):
        s = float(10 ** r.uniform(-1, 3.5))
        kw, outline, bars, layers = globals()[fn](r, s)
        n = nc(r)
        ex, mc, ms = mats(r)
        if n != 4 or r.random() < .5:
            ex["n_circle"] = n
        if layers is not None:
            a = kw["area_bar"]
            pts = {(round(x / s, 9), round(y / s, 9)): (x, y, a) for ly in layers for x, y in layer_points(ly, counts(math.dist(ly[0], ly[1]), kw)[0])}
            b = list(pts.values())
            if len(b) > 170:
                continue
        else:
            b = bars
        if valid(outline, b, n) and (layers is None or clear(outline, layers, kw, n, s)):
            break
    else:
        raise Skip("no valid layout")
    ctx.note(fn=fn, kw={k: v for k, v in kw.items()}, n=n)
    ctx.signature(fn, kw.get("double"), n, len(b), tuple(sorted(ex)))
    f = getattr(lib, fn) if hasattr(lib, fn) else getattr(cs, fn)
    return f(**kw, **ex), outline, bars, layers, n, kw, mc, ms


def shape(ctx, fn):
    g, outline, bars, layers, n, kw, mc, ms = build(ctx, fn)
    judge(ctx, fn, g, outline, bars, layers, n, kw, mc, ms)


def analysed(ctx):
    """through the mesh: gross area and E-weighted area/first moments are those of the independent drawing."""
    fn = (BEAMS + WALLS)[int(ctx.rng.integers(11))]
    g, outline, bars, layers, n, kw, mc, ms = build(ctx, fn)
    if layers is not None:
        seen = {}
        for ly in layers:
            for x, y in layer_points(ly, counts(math.dist(ly[0], ly[1]), kw)[0]):
                seen[(round(x, 6), round(y, 6))] = (x, y, kw["area_bar"])
        bars = list(seen.values())
        if len(bars) != sum(1 for q in g.geoms if abs(q.geom.area / kw["area_bar"] - 1) < 1e-6):
            raise Skip("one of the tolerated layouts with an extra bar")
    g.create_mesh([0])
    s = Section(g)
    s.calculate_geometric_properties()
    p = s.section_props
    ec, es = mc.elastic_modulus, ms.elastic_modulus
    c = outline.centroid
    a0 = outline.area
    sa = sum(a for *_, a in bars)
    ctx.close(p.area, a0, f"{fn}/mesh-area", rtol=1e-8, cls="moments")
    ctx.close(p.ea, ec * a0 + (es - ec) * sa, f"{fn}/mesh-ea", rtol=1e-8, cls="moments")
    size = max(outline.bounds[2] - outline.bounds[0], outline.bounds[3] - outline.bounds[1])
    ctx.close(p.qx, ec * a0 * c.y + (es - ec) * sum(a * y for _, y, a in bars), f"{fn}/mesh-qx", rtol=1e-8, scale=p.ea * size, cls="moments")
    ctx.close(p.qy, ec * a0 * c.x + (es - ec) * sum(a * x for x, _, a in bars), f"{fn}/mesh-qy", rtol=1e-8, scale=p.ea * size, cls="moments")


def host(r):
    """arbitrary geometry to which bars are added."""
    k = r.random()
    m = [G.rmat(r, name=f"h{i}") for i in range(3)]
    s = float(10 ** r.uniform(-1, 3))
    if k < .35:
        p = [box(0, 0, s, s * u(r, .5, 2))]
    elif k < .6:
        h = s * u(r, .3, 1)
        p = [box(0, 0, s, h), box(0, h, s, h + s * u(r, .2, 1)), box(s, 0, s * u(r, 1.2, 2), h)]
    elif k < .8:
        p = [box(0, 0, s, s) - box(s * .4, s * .4, s * .6, s * .7)]
    else:
        ring = G.star_ring(r, r0=s)
        p = [Polygon(ring)]
        if not p[0].is_valid:
            p = [p[0].convex_hull]
    return [Geometry(q, material=x) for q, x in zip(p, m)], s


def add_bar(ctx, many):
    r = ctx.rng
    geoms, s = host(r)
    base = geoms[0] if len(geoms) == 1 else CompoundGeometry(geoms)
    hull = unary_union([q.geom for q in geoms])
    steel = G.rmat(r, name="bar")
    n = nc(r)
    area = math.pi / 4 * (s * u(r, .01, .12)) ** 2
    R = rad(area, n)
    xs, ys = [], []
    for _ in range(60):
        x0, y0, x1, y1 = hull.bounds
        m = r.random()
        x, y = u(r, x0, x1), u(r, y0, y1)
        if m < .25 and len(geoms) > 1:      # straddling an interface
            y = geoms[0].geom.bounds[3]
            x = u(r, geoms[0].geom.bounds[0], geoms[0].geom.bounds[2])
        if not hull.buffer(-1.05 * R).contains(Point(x, y)):
            continue
        if any(math.hypot(x - a, y - b) < 2.1 * R for a, b in zip(xs, ys)):
            continue
        # no slivers: the bar boundary stays clear of corners of the interfaces
        xs.append(x)
        ys.append(y)
        if not many or len(xs) == 12:
            break
    if not xs:
        raise Skip("no room")
    ctx.signature("add", many, len(geoms), n, len(xs))
    fn = "add_bars" if many else "add_bar"
    if many:
        g = cs.add_bars(geometry=base, area=area, material=steel, x=xs, y=ys, n=n)
    elif r.random() < .5:
        g = cs.add_bar(geometry=base, area=area, material=steel, x=xs[0], y=ys[0], n=n)
    else:
        g = cs.add_bar(base, area, steel, xs[0], ys[0], n)
    size = max(hull.bounds[2] - hull.bounds[0], hull.bounds[3] - hull.bounds[1])
    eps = 1e-9 * size
    bars = [q for q in g.geoms if q.material == steel]
    ctx.check(len(bars) == len(xs), f"{fn}/count", f"{len(bars)} bars instead of {len(xs)}", cls="bars")
    th = 2 * math.pi * np.arange(n) / n
    circ = []
    for x, y in zip(xs, ys):
        near = [q for q in bars if math.hypot(q.geom.centroid.x - x, q.geom.centroid.y - y) <= eps]
        if ctx.check(len(near) == 1, f"{fn}/bar", f"no bar at ({x:.6g}, {y:.6g})", cls="bars"):
            ctx.close(near[0].geom.area, area, f"{fn}/bar-area", rtol=1e-9, atol=1e-11 * R, cls="bars")
            circ.append(near[0].geom)
    steelu = unary_union(circ)
    lim = eps * (hull.length + steelu.length) * 4
    for q in geoms:
        want = q.geom - steelu
        got = unary_union([k.geom for k in g.geoms if k.material == q.material])
        ctx.check(got.symmetric_difference(want).area <= lim, f"{fn}/rest", f"material {q.material.name}: area {got.area:.9g} instead of {want.area:.9g}", cls="concrete")
        ctx.check(any(k.material is q.material or k.material == q.material for k in g.geoms) or want.area <= lim, f"{fn}/material", "lost", cls="material")
    ctx.close(sum(k.geom.area for k in g.geoms), hull.area, f"{fn}/gross-area", rtol=1e-9, atol=lim, cls="concrete")


def refusal(ctx):
    r = ctx.rng
    s = float(10 ** r.uniform(-1, 3))
    k = int(r.integers(6))
    ctx.signature("refusal", k)
    ctx.note(k=k)
    bar = dict(dia_bar=.02 * s, area_bar=3e-4 * s * s, cover=.03 * s)
    if k == 0:
        nx, ny = [(1, 3), (3, 1), (0, 4), (4, 0), (1, 1)][int(r.integers(5))]
        ctx.raises(ValueError, lambda: lib.concrete_column_section(d=s, b=s, n_x=nx, n_y=ny, filled=bool(r.integers(2)), **bar), "refusal/column-bars")
    elif k == 1:
        n = int(r.choice([-1, 0, 1]))
        ctx.raises(ValueError, lambda: lib.concrete_circular_section(d=s, area_conc=.78 * s * s, n_conc=16, n_bar=n, **bar), "refusal/circular-bars")
    elif k == 2:
        t1, a1, a2 = .1 * s, s * u(r, .2, 1), s * u(r, .2, 1)
        d = (2 * a1 + a2 + 2 * t1) * u(r, .5, .999)
        ctx.raises(ValueError, lambda: lib.double_lift_core_a(d=d, b=s, t1=t1, t2=t1, a1=a1, a2=a2, spacing=.2 * s, **bar), "refusal/lift-a")
    elif k == 3:
        t1, a = .1 * s, s * u(r, .2, 1)
        d = (2 * a + 3 * t1) * u(r, .5, .999)
        ctx.raises(ValueError, lambda: lib.double_lift_core_b(d=d, b=s, t1=t1, t2=t1, t3=t1, a=a, spacing=.2 * s, **bar), "refusal/lift-b")
    else:
        f = lib.concrete_rectangular_section if k == 4 else lib.concrete_tee_section
        kw = dict(d=s, b=s, dia_top=.02 * s, area_top=3e-4 * s * s, n_top=0, c_top=.03 * s, dia_bot=.02 * s, area_bot=3e-4 * s * s, n_bot=0, c_bot=.03 * s)
        if k == 4:
            ctx.raises(ValueError, lambda: f(**kw), "refusal/no-bars")
        else:
            g = f(**kw, d_f=.2 * s, b_f=2 * s)       # flange and web remain two regions of plain concrete
            ctx.close(sum(q.geom.area for q in g.geoms), .8 * s * s + .4 * s * s, "refusal/plain-tee", rtol=1e-9, cls="refusal")


def run(ctx, case):
    k = case["kind"]
    if k in ("add_bar", "add_bars"):
        return add_bar(ctx, k == "add_bars")
    if k == "refusal":
        return refusal(ctx)
    if k == "analysed":
        return analysed(ctx)
    return shape(ctx, k)
