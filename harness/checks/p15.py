"""P15: point-set monitors over programs of boolean operations, splits, perimeter offsets and vertex edits.

For every operation the harness samples a cloud of points (everywhere, and close to vertices and edges), classifies them
with its own winding-number and distance code, and compares with the membership of the returned regions: the resulting set,
the region (material) each point belongs to, that regions do not overlap, the tolerance and control points the regions keep,
and that the operands are unchanged.
"""
import json
import math
import os

import numpy as np
from shapely import from_wkb
from shapely.geometry import Point, Polygon, box
from shapely.ops import unary_union

from harness import gens as G
from harness import geomcheck as GC
from harness import setops as S
from harness.common import Skip
from sectionproperties.pre import CompoundGeometry, Geometry

PAIR = ["single-single", "single-compound", "compound-single", "compound-compound", "touching", "nested", "far", "cells"]
CASES = {
    "quick": {**{f"bool:{p}": 14 for p in PAIR}, "split:single": 40, "split:compound": 40, "split:special": 40, "split:extreme": 10,
              "offset:single": 70, "offset:holes": 70, "offset:neck": 16, "offset:compound": 50, "offset:corner": 4, "points:edit": 60, "program:mixed": 40},
    "thorough": {**{f"bool:{p}": 600 for p in PAIR}, "split:single": 1500, "split:compound": 1500, "split:special": 800, "split:extreme": 200,
                 "offset:single": 2500, "offset:holes": 2500, "offset:neck": 600, "offset:compound": 2000, "offset:corner": 50, "points:edit": 2500, "program:mixed": 1500},
}
FLOORS = {"membership": 60000, "overlap": 20000, "material": 3000, "attributes": 600, "purity": 300, "side": 200, "edit": 100, "refusal": 40}
RULE = "random operand pairs (overlapping, touching, nested, disjoint, compound), random lines, offsets and vertex edits, random programs"
ASSUMPTIONS = ["points within rounding (1e-9 of the size, or the tolerance) of a boundary are not decided",
               "growing a compound is judged on sections without re-entrant corners between regions (documented limitation)"]
NP = 60


def polys_of(g):
    return [r.geom for r in GC.regions(g)]


def flat(polys):
    return [q for p in polys for q in GC.parts(p)]


def eps_of(*gs):
    s = max([abs(v) for g in gs for p in polys_of(g) if not p.is_empty for v in p.bounds] + [1e-300])
    t = max([10.0 ** -r.tol for g in gs for r in GC.regions(g)])
    return 1e-9 * s + 2 * t


def membership(ctx, rng, res, want, base, eps, key, msg="", pts=None):
    """res (geometry) holds exactly the points for which want(pts) is true; returns the sample and the region index."""
    size = math.sqrt(sum(p.area for p in base))
    out = flat(polys_of(res))
    cloud = S.samples(rng, base + out, NP, size) if pts is None else pts
    near = np.minimum(S.boundary_distance(cloud, flat(base)), S.boundary_distance(cloud, out) if out else np.inf)
    cloud = cloud[near > eps]
    idx, cnt = S.index_in(cloud, out)
    w = want(cloud)
    bad = (cnt > 0) != w
    ctx.check(not bad.any(), key + "/membership", lambda: f"{bad.sum()} of {len(cloud)} points wrong, e.g. {cloud[bad][0]} is {'in' if cnt[bad][0] else 'not in'} the result {msg}",
              cls="membership", n=len(cloud))
    ctx.check(not (cnt > 1).any(), key + "/overlap", lambda: f"{(cnt > 1).sum()} points lie in two regions of the result, e.g. {cloud[cnt > 1][0]} {msg}", cls="overlap", n=len(cloud))
    return cloud, idx, out


def res_materials(res):
    return [r.material for r in GC.regions(res) for _ in GC.parts(r.geom)]


def mats_at(ctx, res, cloud, idx, expect, key, msg=""):
    """Material of the region holding each point equals expect[i] (None: any)."""
    mats = res_materials(res)
    bad = [(i, k) for i, k in enumerate(idx) if k >= 0 and expect[i] is not None and mats[k] != expect[i]]
    ctx.check(not bad, key, lambda: f"{len(bad)} points have material {mats[bad[0][1]].name} instead of {expect[bad[0][0]].name} {msg}", cls="material", n=max(1, int((idx >= 0).sum())))


def attrs(ctx, res, tol, key):
    for r in GC.regions(res):
        ctx.check(r.tol == tol, key + "/tol", f"tolerance {r.tol} instead of {tol}", cls="attributes")
        for p in GC.parts(r.geom):
            ctx.check(p.is_valid, key + "/valid", "invalid polygon", cls="attributes")


def single(rng, L, tol=12, holes=None, mat=None):
    k = str(rng.choice(["rpoly", "rectil", "quad", "libasym", "holes"])) if holes is None else ("holes" if holes else str(rng.choice(["rpoly", "quad", "rectil"])))
    sec = G.zoo(rng, k, scale=L, far=0.0)
    m = mat or (G.rmats(rng, 1)[0] if rng.random() < .7 else sec.regions[0][0])
    p = sec.regions[0][1]
    cp = None
    if rng.random() < .4:
        q = p.representative_point()
        cp = (q.x, q.y)
    g = Geometry(p, m, cp, tol)
    s = rng.uniform(-.6, .6, 2) * L
    return g.shift_section(float(s[0]), float(s[1]))


def compound(rng, L, kinds=("strips", "inset", "stack", "conc", "filled", "disjoint_c", "samecut")):
    sec = G.zoo(rng, str(rng.choice(kinds)), scale=L, far=0.0)
    s = rng.uniform(-.4, .4, 2) * L
    return sec.geom.shift_section(float(s[0]), float(s[1]))


def cells(rng, n, used=()):
    """a random set of cells of an n x n grid, connected through edges, away from some"""
    free = [(i, j) for i in range(n) for j in range(n) if (i, j) not in used]
    out = {free[int(rng.integers(len(free)))]}
    for _ in range(int(rng.integers(1, n * n // 2))):
        nb = sorted({(i + a, j + b) for i, j in out for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1))} & set(free) - out)
        if nb:
            out.add(nb[int(rng.integers(len(nb)))])
    return out


def cell_pair(rng, L, tol):
    """shapes on one grid: operands that overlap here, share edges there and touch in points elsewhere"""
    n = int(rng.integers(3, 6))
    xs, ys = (np.concatenate([[0], np.cumsum(np.round(rng.uniform(.2, 1, n), 3))]) * L for _ in "xy")

    def poly(c):
        return unary_union([box(xs[i], ys[j], xs[i + 1], ys[j + 1]) for i, j in c])

    def shape():
        while True:
            g = poly(cells(rng, n))
            if isinstance(g, Polygon):
                return g
    mats = G.rmats(rng, 4)
    one = [Geometry(shape(), mats[0], None, tol), Geometry(shape(), mats[1], None, tol)]
    for k in (0, 1):
        if rng.random() < .4:
            c1 = cells(rng, n)
            rest = n * n - len(c1)
            c2 = cells(rng, n, c1) if rest else set()
            ps = [q for c in (c1, c2) if c for q in GC.parts(poly(c))]
            if len(ps) > 1:
                one[k] = CompoundGeometry([Geometry(q, mats[2 + j % 2], None, tol) for j, q in enumerate(ps)])
    return one


def extreme_lines(ctx, rng, L):
    """the lines a plastic analysis starts from: almost axis-parallel, through (or just beside) an extreme fibre of a centred section"""
    b, d, t = float(rng.uniform(.5, 1)) * L, float(rng.uniform(.3, 1)) * L, float(rng.uniform(.02, .1)) * L
    p = box(-b / 2, -d / 2, b / 2, d / 2)
    if rng.random() < .7:
        p = p - box(-b / 2 + t, -d / 2 + t, b / 2 - t, d / 2 - t)
    if rng.random() < .5:
        p = p.buffer(t / 2, quad_segs=int(rng.integers(1, 6)))
    g = Geometry(p, G.rmats(rng, 1)[0])
    if ctx.case["i"] == 0:          # the recorded input with which a steep line once lost the whole section
        d = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "data", "steep_line.json")))
        q = from_wkb(d["wkb"])
        top, bot = Geometry(q).split_section(tuple(map(float.fromhex, d["p"])), vector=tuple(map(float.fromhex, d["u"])))
        tot = sum(r.geom.area for r in [*top, *bot])
        ctx.check(abs(tot - q.area) <= 1e-6 * q.area, "split/extreme-area", f"{tot} instead of {q.area}; recorded steep line", cls="membership")
    x0, x1, y0, y1 = g.calculate_extents()
    for _ in range(40):
        e, tilt = (float(rng.choice([-1, 0, 1])) * 10 ** rng.uniform(*r) for r in ((-13, -8), (-13, -9)))
        sgn = float(rng.choice([-1, 1]))
        if rng.random() < .6:
            pi, vec = (float(rng.choice([x0, x1])) + e * L, float(rng.uniform(y0, y1)) * float(rng.choice([0, 1, 1e-9]))), (tilt * sgn, sgn)
        else:
            pi, vec = (float(rng.uniform(x0, x1)) * float(rng.choice([0, 1, 1e-9])), float(rng.choice([y0, y1])) + e * L), (sgn, tilt * sgn)
        top, bot = g.split_section(pi, vector=vec)
        tot = sum(q.geom.area for q in [*top, *bot])
        ctx.check(abs(tot - p.area) <= 1e-7 * L * p.length, "split/extreme-area", lambda: f"{tot} instead of {p.area}; line {pi} {vec} of {g.geom.wkt[:200]}", cls="membership")
        ctx.check(min(sum(q.geom.area for q in top), sum(q.geom.area for q in bot)) <= 1e-7 * L * p.length, "split/extreme-side", lambda: f"a line along an extreme fibre splits the section; line {pi} {vec}", cls="side")


def neck(rng, L, tol):
    """two plates joined by a thin web: eroding it leaves two pieces"""
    b1, b2, d1, d2 = (float(v) for v in rng.uniform(.3, 1, 4) * L)
    w, h = float(rng.uniform(.02, .15)) * L, float(rng.uniform(.3, 1)) * L
    g = Polygon([(-b1 / 2, 0), (b1 / 2, 0), (b1 / 2, d1), (w / 2, d1), (w / 2, d1 + h), (b2 / 2, d1 + h), (b2 / 2, d1 + h + d2), (-b2 / 2, d1 + h + d2),
                 (-b2 / 2, d1 + h), (-w / 2, d1 + h), (-w / 2, d1), (-b1 / 2, d1)])
    if rng.random() < .5:
        g = g - box(-b1 / 4, d1 / 4, b1 / 4, d1 * .7)
    c = None
    if rng.random() < .5:
        c = (0.0, d1 * .9 if rng.random() < .7 else d1 + h / 2)
    return Geometry(g, G.rmats(rng, 1)[0], c, tol).rotate_section(float(rng.choice([0, 90, rng.uniform(-180, 180)])), rot_point=(0, 0)), -w * float(rng.uniform(.55, .95))


def pair(rng, kind, L, tol):
    if kind == "cells":
        return cell_pair(rng, L, tol)
    if kind == "single-single":
        return single(rng, L, tol), single(rng, L)
    if kind == "single-compound":
        return single(rng, L, tol), compound(rng, L)
    if kind == "compound-single":
        return compound(rng, L), single(rng, L * float(rng.uniform(.2, 1.5)))
    if kind == "compound-compound":
        return compound(rng, L), compound(rng, L)
    if kind == "touching":
        w = np.round(rng.uniform(.3, 1, 4) * L, 3) + .001
        a = Geometry(Polygon([(0, 0), (w[0], 0), (w[0], w[1]), (0, w[1])]), G.rmats(rng, 1)[0], None, tol)
        b = Geometry(Polygon([(0, 0), (w[2], 0), (w[2], w[3]), (0, w[3])]), G.rmats(rng, 1)[0])
        return a, b.align_to(a, str(rng.choice(["left", "right", "top", "bottom"])), inner=bool(rng.random() < .2))
    if kind == "nested":
        a = single(rng, L, tol)
        b = single(rng, L * .15)
        q = a.geom.representative_point()
        return (a, b.align_center((q.x, q.y))) if rng.random() < .6 else (b, a)
    a, b = single(rng, L, tol), single(rng, L)
    return a, b.shift_section(x_offset=5 * L)


def boolean(ctx, rng, a, b, op, key="setop"):
    """One operator application under the monitor; returns the result."""
    comp = isinstance(a, CompoundGeometry)
    sa, sb = GC.snapshot(a), GC.snapshot(b)
    pa, pb = polys_of(a), polys_of(b)
    fn = {"|": lambda: a | b, "-": lambda: a - b, "&": lambda: a & b, "^": lambda: a ^ b, "+": lambda: a + b}[op]
    name = {"|": "or", "-": "sub", "&": "and", "^": "xor", "+": "add"}[op]
    res = fn()
    eps = eps_of(a, b)
    GC.unchanged(ctx, a, sa, f"{key}/{name}-pure-left")
    GC.unchanged(ctx, b, sb, f"{key}/{name}-pure-right")
    if op == "+":
        want = GC.regions(a) + GC.regions(b)
        got = GC.regions(res)
        ctx.check(isinstance(res, CompoundGeometry) and len(got) == len(want), f"{key}/add-regions", f"{len(got)} regions instead of {len(want)}", cls="attributes")
        for x, y in zip(got, want):
            GC.same_vertices(ctx, x.geom, y.geom, 0, f"{key}/add-shape", cls="membership")
            ctx.check(x.material == y.material and x.tol == y.tol and (x.assigned_control_point is None) == (y.assigned_control_point is None),
                      f"{key}/add-attributes", cls="attributes")
        return res
    ina = lambda p: S.index_in(p, pa)[0] >= 0  # noqa: E731
    inb = lambda p: S.index_in(p, pb)[0] >= 0  # noqa: E731
    want = {"|": lambda p: ina(p) | inb(p), "-": lambda p: ina(p) & ~inb(p), "&": lambda p: ina(p) & inb(p), "^": lambda p: ina(p) ^ inb(p)}[op]
    cloud, idx, out = membership(ctx, rng, res, want, pa + pb, eps, f"{key}/{name}")
    ma = S.index_in(cloud, pa)[0]
    if not comp:
        exp = [a.material] * len(cloud)
        mats_at(ctx, res, cloud, idx, exp, f"{key}/{name}-material")
        attrs(ctx, res, a.tol, f"{key}/{name}")
    else:
        exp = [GC.regions(a)[k].material if k >= 0 else None for k in ma]
        k = f"{key}/{name}-material" if op == "-" else f"setop/compound-{name}-material"
        mats_at(ctx, res, cloud, idx, exp, k)
        if op == "-":
            for r in GC.regions(res):
                ctx.check(not r.geom.is_empty, f"{key}/sub-empty-region", "the result has an empty region", cls="attributes")
    if not res.geom.is_empty:
        GC.compiled(ctx, res, f"{key}/{name}-compiled")
    # exact areas (independent of the sample)
    if op == "-" and not comp:
        cp = a.assigned_control_point
        if cp is not None and isinstance(res.geom, Polygon) and S.dist_poly(np.array([[cp.x, cp.y]]), res.geom)[0] > eps:
            keep = S.in_poly(np.array([[cp.x, cp.y]]), res.geom)[0]
            got = res.assigned_control_point
            ctx.check((got is not None) == keep, f"{key}/sub-control", f"valid: {keep}, kept: {got is not None}", cls="attributes")
            if keep and got is not None:
                ctx.check(math.dist((got.x, got.y), (cp.x, cp.y)) == 0, f"{key}/sub-control-value", cls="attributes")
    if op in "^&":
        for r in GC.regions(res):
            ctx.check(r.assigned_control_point is None, f"{key}/{name}-control", "the control point should be discarded", cls="attributes")
    return res


def do_split(ctx, rng, g, L, special=False, key="split"):
    """One split under the monitor."""
    snap = GC.snapshot(g)
    polys = polys_of(g)
    b = np.array([p.bounds for p in polys])
    lo, hi = b[:, :2].min(axis=0), b[:, 2:].max(axis=0)
    pi = rng.uniform(lo, hi)
    u = rng.random()
    if special:
        v = np.concatenate([r for p in polys for r in S.ring_arrays(p)])
        k = int(rng.integers(len(v)))
        pi = v[k]
        if u < .4:
            vec = v[(k + 1 + int(rng.integers(len(v) - 1))) % len(v)] - pi     # through two vertices (maybe an edge)
        elif u < .7:
            vec = np.array([1.0, 0.0]) if u < .55 else np.array([0.0, 1.0])    # axis-parallel through a vertex
            if rng.random() < .5:                                              # (nearly), and (almost) through an extreme one
                k = int(rng.choice([v[:, 0].argmin(), v[:, 0].argmax(), v[:, 1].argmin(), v[:, 1].argmax()]))
                pi = v[k] + rng.choice([-1, 0, 1], 2) * 10 ** rng.uniform(-13, -6) * L
                vec = vec + vec[::-1] * float(rng.choice([-1, 1])) * 10 ** rng.uniform(-13, -6)
        else:
            pi = hi + L                                                        # misses the geometry
            vec = np.array([1.0, -1.0])
        if np.hypot(*vec) < 1e-9 * L:
            raise Skip("degenerate line")
    elif u < .2:
        vec = np.array([0.0, 1.0])
    elif u < .4:
        vec = np.array([1.0, 0.0])
    else:
        vec = rng.uniform(-1, 1, 2)
        if u > .85:                                     # very steep or very flat
            vec[int(rng.integers(2))] *= float(10 ** rng.uniform(-13, -2))
    vec = vec * float(rng.choice([1, -1, 100, 1e-3]))
    how = int(rng.integers(3))
    pi_t = (float(pi[0]), float(pi[1]))
    if how == 0:
        pj = (pi_t[0] + float(vec[0]), pi_t[1] + float(vec[1]))
        vec = np.array(pj) - np.array(pi_t)
        top, bot = g.split_section(point_i=pi_t, point_j=pj)
    elif how == 1:
        top, bot = g.split_section(pi_t, vector=(float(vec[0]), float(vec[1])))
    else:
        top, bot = g.split_section(pi_t, vector=np.array(vec))
    GC.unchanged(ctx, g, snap, f"{key}/pure")
    ctx.raises(ValueError, lambda: g.split_section(pi_t), "refusal/split-no-line")
    d = vec / np.hypot(*vec)
    if 0 < abs(d[0]) < 1e-10:                       # vertical but for rounding: which side is the top is not defined
        tot, was = sum(q.geom.area for q in [*top, *bot]), sum(p.area for p in polys)
        ctx.check(abs(tot - was) <= 1e-8 * sum(p.area + p.length * max(np.abs(lo).max(), np.abs(hi).max(), np.abs(pi).max()) for p in polys), f"{key}/area",
                  lambda: f"{tot} instead of {was}; line {pi_t} {vec}", cls="membership")
        return top, bot
    nrm = np.array([-d[1], d[0]])
    if d[0] == 0:
        nrm = np.array([1.0, 0.0])                  # right of a vertical line
    elif nrm[1] < 0:
        nrm = -nrm
    size = max(np.abs(lo).max(), np.abs(hi).max())
    far = max(np.abs(pi).max(), size)
    eps = 1e-9 * far + 2 * max(10.0 ** -r.tol for r in GC.regions(g))
    parts = list(top) + list(bot)
    base = polys
    out = [q.geom for q in parts]
    cloud = S.samples(rng, base + out, NP, L)
    near = np.minimum(S.boundary_distance(cloud, flat(base)), np.abs((cloud - pi) @ nrm))
    cloud = cloud[near > eps]
    src, _ = S.index_in(cloud, base)
    side = (cloud - pi) @ nrm > 0
    for nm, grp, sd in (("top", top, side), ("bottom", bot, ~side)):
        idx, cnt = S.index_in(cloud, [q.geom for q in grp])
        w = (src >= 0) & sd
        bad = (cnt > 0) != w
        ctx.check(not bad.any(), f"{key}/{nm}", lambda: f"{bad.sum()} of {len(cloud)} points on the wrong side or lost, e.g. {cloud[bad][0]}; line {pi_t} {vec}", cls="membership", n=len(cloud))
        ctx.check(not (cnt > 1).any(), f"{key}/overlap", f"parts overlap", cls="overlap", n=len(cloud))
        bm = [(i, k) for i, k in enumerate(idx) if k >= 0 and src[i] >= 0 and grp[k].material != GC.regions(g)[src[i]].material]
        ctx.check(not bm, f"{key}/material", lambda: f"{len(bm)} points changed material", cls="material", n=int((idx >= 0).sum()) or 1)
        for q in grp:
            if q.geom.area <= 10 * eps * q.geom.length:
                continue
            s = (np.asarray(q.geom.exterior.coords)[:, :2] - pi) @ nrm
            ok = s.min() >= -eps if nm == "top" else s.max() <= eps
            ctx.check(ok, f"{key}/side", f"a {nm} part reaches {s.min():g}..{s.max():g} across the line {pi_t} {vec}", cls="side")
            ctx.check(q.tol in {r.tol for r in GC.regions(g)}, f"{key}/tol", f"tolerance {q.tol}", cls="attributes")
            ctx.check(q.assigned_control_point is None, f"{key}/control", "the control point should be discarded", cls="attributes")
            if q.geom.is_valid and q.geom.area > 10 * eps * q.geom.length:      # not a sliver left by rounding
                GC.compiled(ctx, q, f"{key}/compiled")
    tot = sum(p.area for p in out)
    ctx.check(abs(tot - sum(p.area for p in base)) <= 4 * eps * sum(p.length for p in base + out), f"{key}/area", f"{tot} instead of {sum(p.area for p in base)}", cls="membership")
    return top, bot


def offset_sets(polys, amount, where, tol_arc):
    """want(points) -> (inside, undecided) of offsetting one polygon."""
    p = polys
    rings = S.ring_arrays(p)
    ext, holes = rings[0], rings[1:]

    def want(x):
        d = abs(amount)
        inside_e, de = S.in_ring(x, ext), S.dist_ring(x, ext)
        unk = np.zeros(len(x), bool)
        # exterior outline
        if where in ("exterior", "all"):
            e = (inside_e | (de <= d)) if amount > 0 else (inside_e & (de >= d))
            band = np.abs(de - d) <= tol_arc
            unk |= band
        else:
            e = inside_e
        h = np.zeros(len(x), bool)
        for r in holes:
            ih, dh = S.in_ring(x, r), S.dist_ring(x, r)
            if where == "exterior":
                h |= ih
            else:
                grow = amount if where == "interior" else -amount
                h |= (ih | (dh <= d)) if grow > 0 else (ih & (dh >= d))
                unk |= np.abs(dh - d) <= tol_arc
        return e & ~h, unk
    return want


def arc_tol(d, resolution):
    # GEOS rounds the number of fillet segments (up to 1.5 steps each) and simplifies its input to 1 % of the distance
    return abs(d) * (1 - math.cos(min(1.5 * math.pi / (4 * resolution), math.pi / 2))) * 1.02 + .011 * abs(d)


def offset_single(ctx, rng, g, L, key="offset", amount=None):
    snap = GC.snapshot(g)
    p = g.geom
    has = len(p.interiors) > 0
    where = str(rng.choice(["exterior", "interior", "all"])) if has else str(rng.choice(["exterior", "all"]))
    if amount is None:
        amount = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-2.5, -.3) * L)
    res_n = int(rng.choice([1, 2, 4, 12, 12, 30]))
    kw = dict(amount=amount)
    if where != "exterior" or rng.integers(2):
        kw["where"] = where
    if res_n != 12 or rng.integers(2):
        kw["resolution"] = res_n
    if not has:
        ctx.raises(ValueError, lambda: g.offset_perimeter(amount=amount, where="interior"), "refusal/offset-interior")
    ctx.raises(ValueError, lambda: g.offset_perimeter(amount=amount, where="outside"), "refusal/offset-where")
    res = g.offset_perimeter(**kw)
    GC.unchanged(ctx, g, snap, f"{key}/pure")
    ta = arc_tol(amount, res_n)
    want = offset_sets(p, amount, where, ta)
    eps = eps_of(g)
    out = flat(polys_of(res))
    cloud = S.samples(rng, [p] + out, NP, L)
    # plus points at about the offset distance from the boundary
    v = np.concatenate(S.ring_arrays(p))
    k = rng.integers(len(v), size=2 * NP)
    a = rng.uniform(0, 2 * math.pi, 2 * NP)
    cloud = np.concatenate([cloud, v[k] + abs(amount) * np.stack([np.cos(a), np.sin(a)], 1) * rng.choice([.8, .95, 1.05, 1.2], (2 * NP, 1))])
    w, unk = want(cloud)
    keep = ~unk & (np.minimum(S.dist_poly(cloud, p), S.boundary_distance(cloud, out) if out else np.inf) > eps)
    cloud, w = cloud[keep], w[keep]
    idx, cnt = S.index_in(cloud, out)
    bad = (cnt > 0) != w
    sgn = "grow" if amount > 0 else "erode"
    ctx.check(not bad.any(), f"{key}/{where}-{sgn}", lambda: f"{bad.sum()} of {len(cloud)} points wrong, e.g. {cloud[bad][0]} {'in' if cnt[bad][0] else 'not in'} the result; {kw}", cls="membership", n=len(cloud))
    ctx.check(not (cnt > 1).any(), f"{key}/overlap", cls="overlap", n=len(cloud))
    for r in GC.regions(res):
        ctx.check(r.material == g.material, f"{key}/material", f"{r.material}", cls="material")
    attrs(ctx, res, g.tol, key)
    cp = g.assigned_control_point
    if cp is not None and isinstance(res.geom, Polygon) and not res.geom.is_empty:
        c = np.array([[cp.x, cp.y]])
        if S.dist_poly(c, res.geom)[0] > eps:
            k = bool(S.in_poly(c, res.geom)[0])
            got = res.assigned_control_point
            ctx.check((got is not None) == k and (got is None or math.dist((got.x, got.y), (cp.x, cp.y)) <= eps), f"{key}/control", f"valid {k}, kept {got}", cls="attributes")
    if not res.geom.is_empty:
        GC.compiled(ctx, res, f"{key}/compiled")
    if len(p.exterior.coords) == 5 and not has and amount > 0 and p.convex_hull.area >= p.area * (1 - 1e-12):
        n = len(res.geom.exterior.coords) - 1
        right = all(abs(np.dot(np.subtract(*v2[:2]), np.subtract(*v2[1:]))) < 1e-6 * L * L for v2 in [np.asarray(p.exterior.coords)[i:i + 3, :2] for i in range(3)])
        if right:
            ctx.check(n == 4 * (res_n + 1), f"{key}/resolution", f"{n} vertices for resolution {res_n} (expected {4 * (res_n + 1)})", cls="attributes")


def offset_compound(ctx, rng, L, key="offset-compound"):
    amount = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-2.5, -.8) * L)
    if amount > 0:
        sec = G.zoo(rng, str(rng.choice(["inset", "conc", "filled"])), scale=L, far=0.0) if rng.random() < .6 else None
        if sec is None:
            # convex strip stack: equal-width layers, cut anywhere
            w = float(np.round(rng.uniform(.5, 1.5) * L, 3))
            y, geoms = 0.0, []
            for m in G.rmats(rng, int(rng.integers(1, 5))):
                h = float(np.round(rng.uniform(.02, .7) * L, 4) + .0001)
                geoms.append(Geometry(Polygon([(0, y), (w, y), (w, y + h), (0, y + h)]), m))
                y += h
            g = CompoundGeometry(geoms)
        else:
            g = sec.geom
    else:
        g = G.zoo(rng, str(rng.choice(["strips", "inset", "stack", "conc", "filled", "samecut"])), scale=L, far=0.0).geom
    regs = []
    for r in GC.regions(g):
        cp = None
        if rng.random() < .4:
            q = r.geom.representative_point()
            cp = (q.x, q.y)
        regs.append(Geometry(r.geom, r.material, cp))
    g = CompoundGeometry(regs)
    snap = GC.snapshot(g)
    base = polys_of(g)
    from shapely.ops import unary_union
    u = unary_union(base)
    if not isinstance(u, Polygon):
        raise Skip("regions not joined exactly")
    res_n = int(rng.choice([3, 12, 12, 25]))
    where = "exterior"
    holes = len(u.interiors) > 0
    if amount < 0 and rng.random() < .4:
        where = "all" if not holes or rng.integers(2) else "exterior"
    kw = dict(amount=amount, resolution=res_n)
    if where != "exterior" or rng.integers(2):
        kw["where"] = where
    try:
        res = g.offset_perimeter(**kw)
    except RuntimeError as e:
        if "generation failed" in str(e) and amount > 0:
            raise Skip("growth refused")
        raise
    GC.unchanged(ctx, g, snap, f"{key}/pure")
    want = offset_sets(u, amount, where, arc_tol(amount, res_n))
    eps = 4 * eps_of(g)
    out = flat(polys_of(res))
    cloud = S.samples(rng, base + out, NP, L)
    w, unk = want(cloud)
    near = np.minimum(S.boundary_distance(cloud, base), S.boundary_distance(cloud, out) if out else np.inf)
    keep = ~unk & (near > eps)
    cloud, w = cloud[keep], w[keep]
    idx, cnt = S.index_in(cloud, out)
    bad = (cnt > 0) != w
    sgn = "grow" if amount > 0 else "erode"
    ctx.check(not bad.any(), f"{key}/{where}-{sgn}", lambda: f"{bad.sum()} of {len(cloud)} points wrong, e.g. {cloud[bad][0]} {'in' if cnt[bad][0] else 'not in'} the result; {kw}", cls="membership", n=len(cloud))
    ctx.check(not (cnt > 1).any(), f"{key}/overlap", lambda: f"{(cnt > 1).sum()} points in two regions", cls="overlap", n=len(cloud))
    src, _ = S.index_in(cloud, base)
    exp = [GC.regions(g)[k].material if k >= 0 else None for k in src]
    mats_at(ctx, res, cloud, idx, exp, f"{key}/material")
    # control points
    new = GC.regions(res)
    for r in GC.regions(g):
        cp = r.assigned_control_point
        if cp is None:
            continue
        c = np.array([[cp.x, cp.y]])
        hold = [q for q in new if isinstance(q.geom, Polygon) and S.in_poly(c, q.geom)[0] and S.dist_poly(c, q.geom)[0] > eps]
        split = len(out) > len(base)
        if hold and not split:
            got = hold[0].assigned_control_point
            ctx.check(got is not None and math.dist((got.x, got.y), (cp.x, cp.y)) <= eps, f"{key}/control", f"valid control point lost ({got})", cls="attributes")
    if not res.geom.is_empty:
        GC.compiled(ctx, res, f"{key}/compiled")


def offset_findings(ctx, rng, L):
    """Compound offsets the library is known to get wrong (known_findings.jsonl): judged like the others."""
    m = G.rmats(rng, 2)
    t = .1 * L
    a = Geometry(Polygon([(0, 0), (L, 0), (L, L), (0, L)], [[(t, t), (L - t, t), (L - t, L - t), (t, L - t)]]), m[0])
    b = Geometry(Polygon([(0, L), (L, L), (L, 1.5 * L), (0, 1.5 * L)]), m[1])
    g = a + b
    u = Polygon([(0, 0), (L, 0), (L, 1.5 * L), (0, 1.5 * L)], [a.geom.interiors[0].coords])
    for where, amount in (("interior", .03 * L), ("interior", -.03 * L), ("all", .03 * L)):
        res = g.offset_perimeter(amount=amount, where=where)
        out = flat(polys_of(res))
        want = offset_sets(u, amount, where, arc_tol(amount, 12))
        cloud = S.samples(rng, polys_of(g) + out, 4 * NP, L)
        w, unk = want(cloud)
        keep = ~unk & (S.boundary_distance(cloud, out + polys_of(g)) > 1e-6 * L)
        _, cnt = S.index_in(cloud[keep], out)
        bad = (cnt > 0) != w[keep]
        ctx.check(not bad.any(), f"offset-compound/where-{where}-{'positive' if amount > 0 else 'negative'}", f"{bad.sum()} of {keep.sum()} points wrong", cls="membership", n=int(keep.sum()))
    # two triangles joined along the diagonal of a square: convex corners at the junctions
    p, q = Geometry(Polygon([(0, 0), (L, 0), (L, L)]), m[0]), Geometry(Polygon([(0, 0), (L, L), (0, L)]), m[1])
    d = .1 * L
    res = (p + q).offset_perimeter(amount=d)
    sq = Polygon([(0, 0), (L, 0), (L, L), (0, L)])
    want = offset_sets(sq, d, "exterior", arc_tol(d, 12))
    out = flat(polys_of(res))
    cloud = S.samples(rng, [sq] + out, 4 * NP, L)
    w, unk = want(cloud)
    keep = ~unk & (S.boundary_distance(cloud, out + [p.geom, q.geom]) > 1e-6 * L)
    _, cnt = S.index_in(cloud[keep], out)
    bad = (cnt > 0) != w[keep]
    ctx.check(not bad.any(), "offset-compound/corner-junction", f"{bad.sum()} of {keep.sum()} points wrong", cls="membership", n=int(keep.sum()))


def edit(ctx, rng, L):
    for _ in range(6):
        try:
            return edit_once(ctx, rng, L)
        except Skip:
            continue
    raise Skip("no valid edit found")


def edit_once(ctx, rng, L):
    g = single(rng, L, int(rng.choice([12, 12, 8])))
    snap = GC.snapshot(g)
    pts = np.array(g.points)
    n = len(pts)
    k = 1 if rng.random() < .6 else int(rng.integers(2, min(n, 5) + 1))
    idx = [int(i) for i in rng.permutation(n)[:k]]
    kw, new = {}, pts.copy()
    d = rng.uniform(-.25, .25, 2) * L
    mode = [int(rng.integers(3)), int(rng.integers(3))]
    for j, (nm, ab) in enumerate((("dx", "abs_x"), ("dy", "abs_y"))):
        if mode[j] == 0:
            kw[nm] = float(d[j])
            new[idx, j] += d[j]
        elif mode[j] == 1:
            v = 0.0 if rng.random() < .5 else float(pts[idx[0], j] + d[j])
            kw[ab] = v if rng.integers(2) or v != 0.0 else 0
            if rng.integers(2):
                kw[nm] = float(d[j])               # ignored when an absolute value is given
            new[idx, j] = v
    # rings of the edited polygon
    nr, polys, k0 = [len(r) for r in S.ring_arrays(g.geom)], [], 0
    for c in nr:
        polys.append(new[k0:k0 + c])
        k0 += c
    want = Polygon(polys[0], polys[1:])
    if not want.is_valid or want.area < .02 * L * L or any(not Polygon(polys[0]).buffer(-1e-6 * L).contains(Polygon(h)) for h in polys[1:]):
        raise Skip("the edited outline is not a valid polygon")
    res = g.shift_points(idx[0] if k == 1 and rng.integers(2) else idx, **kw)
    GC.unchanged(ctx, g, snap, "points/pure")
    eps = eps_of(g)
    GC.same_shape(ctx, res.geom, want, eps, "points/shape", f"{idx} {kw}", cls="edit")
    got = {tuple(np.round(p / (10 * eps)).astype(np.int64)) for p in np.array(res.points)}
    miss = [p for p in new if not any(tuple(np.round(p / (10 * eps)).astype(np.int64) + o) in got for o in np.array([(i, j) for i in (-1, 0, 1) for j in (-1, 0, 1)]))]
    ctx.check(not miss, "points/vertices", f"vertices missing after the edit: {miss[:3]}", cls="edit")
    ctx.check(res.material == g.material, "points/material", cls="material")
    ctx.check(res.tol == g.tol, "points/tol", f"{res.tol} instead of {g.tol}", cls="attributes")
    cp, got = g.assigned_control_point, res.assigned_control_point
    if cp is None:
        ctx.check(got is None, "points/control-unassigned", "the automatic control point became an assigned one", cls="attributes")
    else:
        c = np.array([[cp.x, cp.y]])
        if S.dist_poly(c, want)[0] > eps:
            k = bool(S.in_poly(c, want)[0])
            ctx.check((got is not None) == k and (got is None or math.dist((got.x, got.y), (cp.x, cp.y)) <= eps), "points/control", f"valid {k}, kept {got}", cls="attributes")
    GC.compiled(ctx, res, "points/compiled")


def run(ctx, case):
    rng = ctx.rng
    op, kind = case["kind"].split(":")
    L = float(10 ** rng.uniform(-3, 2.7))
    tol = int(rng.choice([12, 12, 12, 7])) if L > 1 else 12
    if op == "bool":
        a, b = pair(rng, kind, L, tol)
        for o in "|&-^+":
            boolean(ctx, rng, a, b, o)
    elif kind == "extreme":
        extreme_lines(ctx, rng, L)
    elif op == "split":
        g = compound(rng, L) if kind == "compound" or (kind == "special" and rng.integers(2)) else single(rng, L, tol)
        far = float(rng.choice([0, 0, 5])) * L
        g = g.shift_section(far, -.3 * far)
        do_split(ctx, rng, g, L, kind == "special")
    elif op == "offset":
        if kind == "compound":
            offset_compound(ctx, rng, L)
        elif kind == "corner":
            offset_findings(ctx, rng, L)
        elif kind == "neck":
            g, d = neck(rng, L, tol)
            offset_single(ctx, rng, g, L, amount=d)
        else:
            offset_single(ctx, rng, single(rng, L, tol, holes=kind == "holes"), L)
    elif op == "points":
        edit(ctx, rng, L)
    else:
        g = single(rng, L) if rng.integers(2) else compound(rng, L)
        hist = []
        for _ in range(int(rng.integers(2, 6))):
            if g.geom.is_empty or len(flat(polys_of(g))) > 12:
                break
            o = str(rng.choice(["|", "&", "-", "^", "split", "offset", "move"]))
            if o == "split":
                top, bot = do_split(ctx, rng, g, L)
                part = max([top, bot], key=lambda q: sum(x.geom.area for x in q))
                if not part:
                    break
                g = part[0] if len(part) == 1 else CompoundGeometry(part)
            elif o == "offset":
                if isinstance(g, CompoundGeometry):
                    continue
                g = g.offset_perimeter(amount=float(rng.uniform(-.05, .1)) * L)
            elif o == "move":
                g = g.rotate_section(float(rng.uniform(-180, 180))).align_center((0, 0))
            else:
                b = (single(rng, L * float(rng.uniform(.3, 1))) if rng.random() < .7 else compound(rng, L)).align_center((float(rng.uniform(-.5, .5) * L), float(rng.uniform(-.5, .5) * L)))
                g = boolean(ctx, rng, g, b, o)
            hist.append(o)
        ctx.note(ops="".join(hist))
    ctx.signature(case["kind"], round(L, 9), float(rng.random()))
