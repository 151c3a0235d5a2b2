"""P04: every mesh is a faithful, conforming triangulation with the right materials, sizes and angles."""
import math

import numpy as np
from shapely import affinity
from shapely.geometry import box

from harness import gens as G
from harness import meshcheck as MC
from harness import oracles as O
from sectionproperties.analysis import Section
from sectionproperties.pre import Geometry, CompoundGeometry

KINDS = G.HOMOG + G.COMP + G.DISJ + ["nested", "tjunction", "flush", "voids"]
CASES = {"quick": {k: 16 for k in KINDS}, "thorough": {k: 400 for k in KINDS}}
FLOORS = {"mesh": 50000, "region": 20000, "conformity": 800, "size": 10000, "coarse": 60, "element": 200, "frozen": 300}
RULE = "random geometries x (scalar | one-element list | per-region list | coarse) mesh controls; every element and edge of every mesh inspected"


def nested(rng):
    """regions inside regions inside regions, with a hole in the innermost now and then."""
    n = int(rng.integers(2, 5))
    rects = []
    x0, y0, x1, y1 = 0.0, 0.0, 2.0, 2.0 * float(rng.uniform(.5, 1.5))
    for _ in range(n):
        rects.append((x0, y0, x1, y1))
        w, h = x1 - x0, y1 - y0
        x0, x1 = round(x0 + w * float(rng.uniform(.1, .25)), 4), round(x1 - w * float(rng.uniform(.1, .25)), 4)
        y0, y1 = round(y0 + h * float(rng.uniform(.1, .25)), 4), round(y1 - h * float(rng.uniform(.1, .25)), 4)
    from shapely.geometry import Polygon
    polys = []
    for i, r in enumerate(rects):
        hole = [box(*rects[i + 1]).exterior.coords] if i + 1 < n else []
        polys.append(Polygon(box(*r).exterior.coords, hole))
    if rng.integers(2):
        polys = polys[:-1]            # innermost becomes a real hole
    polys, s = G.place(rng, polys)
    mats = G.rmats(rng, len(polys))
    if len(polys) == 1:
        return G.from_polys("nested", mats[:1], polys, s)
    order = rng.permutation(len(polys))
    return G.from_polys("nested", [mats[i] for i in order], [polys[i] for i in order], s)


def flush(rng):
    """library shapes aligned to each other (the documented way of building built-up sections)."""
    from sectionproperties.pre.library import rectangular_section, channel_section
    s = float(10 ** rng.uniform(-.5, 2.3))
    m = G.rmats(rng, 3)
    a = rectangular_section(d=float(rng.uniform(.3, 1)) * s, b=float(rng.uniform(.3, 1)) * s, material=m[0])
    b = rectangular_section(d=float(rng.uniform(.3, 1)) * s, b=float(rng.uniform(.3, 1)) * s, material=m[1])
    b = b.align_center(align_to=a) if rng.integers(2) else b.shift_section(float(rng.uniform(-.2, .2)) * s, 0)
    b = b.align_to(other=a, on=str(rng.choice(["top", "bottom", "left", "right"])))
    if rng.integers(2):
        b = b.align_center(align_to=a).align_to(other=a, on="top")
    geoms = [a, b]
    if rng.integers(2):
        t = float(rng.uniform(.05, .1)) * s
        c = channel_section(d=float(rng.uniform(.6, 1)) * s, b=.5 * s, t_f=t, t_w=t, r=t, n_r=4, material=m[2]).align_to(other=a, on="left")
        if c.geom.intersection(b.geom).area == 0:
            geoms.append(c)
    if min(g.geom.distance(h.geom) for g in geoms for h in geoms if g is not h) > 0:
        pass
    g = CompoundGeometry(geoms)
    return G.Sec("flush", g, [(q.material, q.geom) for q in g.geoms], True, s)


def tjunction(rng):
    """stacked rectangles of unequal width, turned by a general angle with the library's own rotation"""
    sec = G.zoo(rng, "stack", scale=float(10 ** rng.uniform(0, 2.3)), far=0.0)
    a = float(rng.choice([10, 17, 23, 30, 45, 60, 75, rng.uniform(-180, 180)]))
    g2 = sec.geom.rotate_section(a, rot_point=(0.0, 0.0))
    return G.Sec(f"tjunction rotated {a:.4g}", g2, [(q.material, q.geom) for q in g2.geoms], True, sec.L, dict(angle=a))


def voids(rng):
    """plates around one or two voids that belong to no single region, possibly narrow, in any unit"""
    s = float(10 ** rng.uniform(-2, 6))
    t = [float(v) for v in np.round(rng.uniform(.05, .3, 4), 3)]
    w = float(np.round(rng.uniform(.6, 2), 3))
    h = float(np.round(rng.uniform(.2, 1.) if rng.random() < .6 else 10 ** rng.uniform(-2, -.7), 3))
    rects = [(0, 0, w, t[0]), (0, t[0] + h, w, t[0] + h + t[1])]
    y0, y1 = t[0], t[0] + h
    rects += [(0, y0, t[2], y1), (w - t[3], y0, w, y1)]
    if w - t[3] - t[2] > .2 and rng.integers(2):
        m = float(np.round(rng.uniform(t[2] + .05, max(w - t[3] - .1, t[2] + .06)), 3))
        rects.append((m, y0, m + .05, y1))
        if rng.integers(2) and h > .3:       # bracket: the left void becomes an L
            rects.append((m - .05 * (m > t[2] + .1), y0, m, y0 + .5 * h)) if m > t[2] + .1 else None
    rects = [r for r in rects if r]
    R = O.rot(float(rng.choice([0, 0, 30, rng.uniform(-180, 180)])))
    from shapely.geometry import Polygon
    corners = [(x, y) for r in rects for x in r[::2] for y in r[1::2]]

    def ring(r):                 # every corner of the other plates on the outline becomes a vertex (exact coordinates)
        xs = lambda y: sorted({x for x, q in corners if q == y and r[0] <= x <= r[2]})
        ys = lambda x: sorted({q for p, q in corners if p == x and r[1] < q < r[3]})
        return ([(x, r[1]) for x in xs(r[1])] + [(r[2], y) for y in ys(r[2])] + [(x, r[3]) for x in xs(r[3])[::-1]] + [(r[0], y) for y in ys(r[0])[::-1]])
    polys = [Polygon(ring(r)) for r in rects]
    dig = int(9 - math.floor(math.log10(s)))
    f = lambda cs: [tuple(round(float(v), dig) for v in (R @ np.array(c)) * s) for c in cs]
    polys = [Polygon(f(list(p.exterior.coords)[:-1])) for p in polys]
    n = len(polys)
    mats = G.rmats(rng, n) if rng.integers(2) else [G.DEFAULT_MATERIAL] * n
    order = rng.permutation(n)
    return G.from_polys("voids", [mats[i] for i in order], [polys[i] for i in order], s)


def frozen(geom):
    gs = getattr(geom, "geoms", [geom])
    return ([(q.geom.wkb_hex, q.material, list(q.points), list(q.facets), list(q.holes), list(q.control_points), q.tol) for q in gs],
            list(geom.points), list(geom.facets), list(geom.holes), list(geom.control_points), geom.geom.wkb_hex)


def run(ctx, case):
    rng = ctx.rng
    k = case["kind"]
    sec = nested(rng) if k == "nested" else tjunction(rng) if k == "tjunction" else flush(rng) if k == "flush" else voids(rng) if k == "voids" else G.zoo(rng, k)
    key = "tjunction" if k == "tjunction" else "mesh"
    area = sec.area()
    right = k in ("quad", "nested", "rectil")
    nreg = len(sec.regions)
    for mode in ("scalar", "list1", "listn", "coarse"):
        before = frozen(sec.geom)
        ang = float(rng.choice([30, 25, 20, 33, 0, round(rng.uniform(5, 33), 1), rng.uniform(1, 33)]))
        base = float(area / rng.uniform(5, 250))
        compound = isinstance(sec.geom, CompoundGeometry)
        sizes, kw = base, dict(min_angle=ang)
        if mode == "scalar":
            if rng.random() < .3 and base > 1:
                sizes = int(base) or 1
            kw["mesh_sizes"] = sizes
            if rng.random() < .4:
                kw.pop("min_angle")
                ang = 30.0
        elif mode == "list1":
            kw["mesh_sizes"] = [base]
        elif mode == "listn":
            sizes = [float(base * 10 ** rng.uniform(-1, 1)) for _ in range(nreg)]
            kw["mesh_sizes"] = sizes
        else:
            kw.update(mesh_sizes=[base], coarse=True)
        r = sec.geom.create_mesh(**kw)
        ctx.check(r is sec.geom, "frozen/returns-self", lambda: f"create_mesh returned {r!r}", cls="frozen")
        ctx.check(frozen(sec.geom) == before, "frozen/geometry", f"{sec.name}: meshing changed the geometry", cls="frozen")
        ref, att = MC.check_mesh(ctx, sec, sec.geom, sizes=sizes, min_angle=ang, coarse=(mode == "coarse"), right_angles=right, key=key)
        s = Section(sec.geom)
        ctx.check(len(s.elements) == len(ref.tris), "element/count", lambda: f"{len(s.elements)} elements for {len(ref.tris)} triangles", cls="element")
        nodes = np.asarray(sec.geom.mesh["vertices"], float)
        ok_mat = ok_xy = ok_ids = True
        for i, el in enumerate(s.elements):
            ok_mat &= el.material == sec.regions[att[i]][0]
            ok_xy &= bool(np.array_equal(np.asarray(el.coords), nodes[np.asarray(el.node_ids, int)].T))
            ok_ids &= set(int(q) for q in el.node_ids) == set(ref.tris[i])
        ctx.check(ok_mat, "element/material", f"{sec.name}: an element does not carry the material of its region", n=len(s.elements))
        ctx.check(ok_xy, "element/coordinates", f"{sec.name}: element coordinates differ from the mesh", n=len(s.elements))
        ctx.check(ok_ids, "element/connectivity", f"{sec.name}: element connectivity differs from the mesh", n=len(s.elements))
        # every material group element set partitions the mesh by equal material
        s.calculate_geometric_properties()
        tot = s.get_ea() if s.is_composite() else s.get_area()
        want = sum((m.elastic_modulus if sec.composite else 1.0) * p.area for m, p in sec.regions)
        ctx.close(tot, want, "element/ea", 1e-8, cls="element")
    ctx.signature(k, round(area, 12), nreg, len(ref.tris))
    ctx.note(section=sec.name, regions=nreg, elements=len(ref.tris))
