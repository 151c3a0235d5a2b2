"""Monitors for geometry objects: snapshots (purity), shape equality, attributes and the compiled point/facet/hole data."""
import math

import numpy as np
from shapely.geometry import Point, Polygon, box
from shapely.ops import unary_union


def regions(g):
    return list(g.geoms) if hasattr(g, "geoms") else [g]


def snapshot(g):
    """Everything observable of a geometry, as plain values."""
    def one(r):
        a = r.assigned_control_point
        return (type(r).__name__, r.geom.wkb, r.material.name, r.material.elastic_modulus, id(r.material), r.tol,
                None if a is None else (a.x, a.y), tuple(map(tuple, r.control_points)), tuple(map(tuple, r.points)),
                tuple(map(tuple, r.facets)), tuple(map(tuple, r.holes)), id(r.mesh))
    return (type(g).__name__, g.geom.wkb, tuple(one(r) for r in regions(g)), tuple(map(tuple, g.control_points)),
            tuple(map(tuple, g.points)), tuple(map(tuple, g.facets)), tuple(map(tuple, g.holes)), id(g.mesh), g.tol,
            id(g.material))


def unchanged(ctx, g, snap, key, msg=""):
    ctx.check(snapshot(g) == snap, key, f"the operand was modified: {msg}", cls="purity")


def parts(p):
    if p is None or p.is_empty:
        return []
    return [q for q in getattr(p, "geoms", [p]) if isinstance(q, Polygon)]


def shape_gap(a, b):
    """(area of the symmetric difference / perimeter, relative count) - a length: 0 for equal point sets."""
    per = max(a.length, b.length, 1e-300)
    return a.symmetric_difference(b).area / per


def same_shape(ctx, got, want, eps, key, msg="", cls="shape"):
    """Equal point sets and (for valid polygons) boundaries within eps of each other."""
    if got.is_empty or want.is_empty:
        return ctx.check(got.is_empty == want.is_empty or max(got.area, want.area) <= eps * max(got.length, want.length, eps), key,
                         f"empty {got.is_empty} vs {want.is_empty} ({got.area:g}, {want.area:g}) {msg}", cls=cls)
    gap = shape_gap(got, want)
    ok = ctx.check(gap <= eps, key, f"point sets differ: area gap/perimeter {gap:.3g} > {eps:.3g}; areas {got.area:.10g} {want.area:.10g} {msg}", cls=cls)
    return ok


def same_vertices(ctx, got, want, eps, key, msg="", cls="shape"):
    """Identical ring structure, every vertex within eps, in the same cyclic order (either direction)."""
    def rings(p):
        return [np.asarray(r.coords)[:-1, :2] for r in [p.exterior, *p.interiors]]
    a, b = rings(got), rings(want)
    if not ctx.check(len(a) == len(b), key, f"{len(a)} rings instead of {len(b)} {msg}", cls=cls):
        return False
    for ra, rb in zip(a, b):
        if not ctx.check(len(ra) == len(rb), key, f"{len(ra)} vertices instead of {len(rb)} {msg}", cls=cls):
            return False
        d = np.abs(ra - rb).max()
        if not ctx.check(d <= eps, key, f"vertex off by {d:.3g} > {eps:.3g} {msg}", cls=cls):
            return False
    return True


def compiled(ctx, g, key="compiled", msg=""):
    """points/facets/holes/control_points describe exactly the polygons of the geometry."""
    rs = regions(g)
    polys = [r.geom for r in rs if not r.geom.is_empty]
    if not polys:
        return
    size = max(abs(v) for p in polys for v in p.bounds) + 1e-300
    pts = np.asarray(g.points, float)
    fac = np.asarray(g.facets, int)
    tolr = 10.0 ** (-min(r.tol for r in rs)) + 1e-12 * size
    ctx.check(len(g.control_points) == len(rs), key + "/control-count", f"{len(g.control_points)} control points, {len(rs)} regions {msg}", cls="compiled")
    for cp, r in zip(g.control_points, rs):
        if r.assigned_control_point is None:
            ctx.check(r.geom.contains(Point(cp)), key + "/control-inside", f"control point {cp} not inside its region {msg}", cls="compiled")
        else:
            ctx.check(math.dist(cp, (r.assigned_control_point.x, r.assigned_control_point.y)) <= tolr, key + "/control-assigned", f"{cp} {msg}", cls="compiled")
    if hasattr(g, "geoms"):
        ctx.check(len({tuple(p) for p in g.points}) == len(g.points), key + "/points-unique", msg, cls="compiled")
    # facets are exactly the polygon edges
    if len(fac) and ctx.check(fac.min() >= 0 and fac.max() < len(pts), key + "/facet-range", msg, cls="compiled"):
        def kf(x):
            return tuple(np.round(np.asarray(x, float) / (10 * tolr)).astype(np.int64))
        got, want = {}, {}
        for i, j in fac:
            e = frozenset((tuple(pts[i]), tuple(pts[j])))
            got[e] = got.get(e, 0) + 1
        for r in rs:
            for ring in [r.geom.exterior, *r.geom.interiors]:
                c = [(round(x, r.tol), round(y, r.tol)) for x, y in np.asarray(ring.coords)[:, :2]]
                for a, b in zip(c[:-1], c[1:]):
                    e = frozenset((a, b))
                    want[e] = want.get(e, 0) + 1
        ctx.check(set(got) == set(want), key + "/facets", f"{len(set(got) ^ set(want))} facets are not polygon edges (or missing) {msg}", cls="compiled")
    # holes
    u = unary_union(polys)
    thick = 1e-7 * u.area + 2 * tolr
    # bounded components of the complement (also the pockets closed by corner contacts)
    x0, y0, x1, y1 = u.bounds
    m = max(x1 - x0, y1 - y0)
    voids = [q for q in parts(box(x0 - m, y0 - m, x1 + m, y1 + m).difference(u)) if q.bounds[0] > x0 - m / 2]
    sure = [h for h in voids if not h.buffer(-4 * thick).is_empty]
    for p in g.holes:
        ctx.check(any(h.buffer(thick).contains(Point(p)) for h in voids) and u.distance(Point(p)) > 0, key + "/hole-in-void", f"hole point {p} {msg}", cls="compiled")
    for h in sure:
        n = sum(h.contains(Point(p)) for p in g.holes)
        ctx.check(n >= 1, key + "/void-has-hole", f"{n} hole points in a void of area {h.area:g} {msg}", cls="compiled")
