"""P16: round-trip monitors over generated descriptions of geometry (point/facet lists, DXF files, Rhino breps and files).

The harness generates region sets it knows exactly, describes them in each input language - point lists with shuffled
numbering, either orientation, any start vertex, shared or duplicated points; DXF lines, polylines, arcs and circles; planar
breps in arbitrary planes - and compares the imported regions, materials and control points with its own.  Exports of the
library's own lists are re-imported; inconsistent descriptions must be refused.
"""
import math
import os
import shutil
import tempfile

import numpy as np
from shapely.geometry import Point, Polygon, box

from harness import gens as G
from harness import geomcheck as GC
from harness import oracles as O
from harness import setops as S
from harness.common import Skip
from sectionproperties.pre import CompoundGeometry, Geometry
from sectionproperties.pre.pre import DEFAULT_MATERIAL

CASES = {
    "quick": {"points:single": 60, "points:holes": 60, "points:compound": 70, "points:export": 60, "points:invalid": 50,
              "dxf:lines": 12, "dxf:polyline": 12, "dxf:round": 12, "dxf:arcs": 20, "dxf:spline": 12, "dxf:bad": 3, "rhino:brep": 25, "rhino:file": 25},
    "thorough": {"points:single": 3000, "points:holes": 3000, "points:compound": 3000, "points:export": 2500, "points:invalid": 1500,
                 "dxf:lines": 300, "dxf:polyline": 300, "dxf:round": 300, "dxf:arcs": 500, "dxf:spline": 300, "dxf:bad": 20, "rhino:brep": 1200, "rhino:file": 900},
}
FLOORS = {"shape": 300, "attributes": 300, "refusal": 100, "dxf": 30, "rhino": 40}
RULE = "generated descriptions of known region sets in every input language, with random numbering, orientation, start vertex and planes"
ASSUMPTIONS = ["rings follow the documented order (exterior, then interiors; control points in the order of the regions)",
               "regions of a described compound do not fill each other's holes",
               "DXF arcs and circles are judged within their chord error; Rhino breps are polygonal (rhino3dm builds no holes in planar breps)"]


def describe(rng, polys, share=True):
    """Point / facet lists for polygons: random numbering, orientation and start vertex of every ring."""
    coords, order = [], []
    rings = []
    for p in polys:
        for r in [p.exterior, *p.interiors]:
            c = [tuple(map(float, q)) for q in np.asarray(r.coords)[:-1, :2]]
            if rng.integers(2):
                c = c[::-1]
            k = int(rng.integers(len(c)))
            rings.append(c[k:] + c[:k])
    if share:
        uniq = sorted({q for r in rings for q in r})
        idx = {q: i for i, q in enumerate(uniq)}
        lab = [[idx[q] for q in r] for r in rings]
        coords = uniq
    else:
        lab, coords = [], []
        for r in rings:
            lab.append(list(range(len(coords), len(coords) + len(r))))
            coords += r
    perm = rng.permutation(len(coords))
    pts = [None] * len(coords)
    for i, q in enumerate(coords):
        pts[int(perm[i])] = q
    facets = []
    for r in lab:
        n = [int(perm[i]) for i in r]
        facets += [(n[i], n[(i + 1) % len(n)]) for i in range(len(n))]
    kind = int(rng.integers(3))
    if kind == 1:
        pts, facets = [list(p) for p in pts], [list(f) for f in facets]
    return pts, facets


def inside(rng, p):
    x0, y0, x1, y1 = p.bounds
    for _ in range(60):
        q = Point(rng.uniform(x0, x1), rng.uniform(y0, y1))
        if p.contains(q) and p.boundary.distance(q) > .01 * math.sqrt(p.area):
            return (float(q.x), float(q.y))
    q = p.representative_point()
    return (float(q.x), float(q.y))


def eps(polys):
    return 2e-12 + 1e-12 * max(abs(v) for p in polys for v in p.bounds)


def region_set(rng, L):
    k = str(rng.choice(["strips", "stack", "stackc", "disjoint_c", "samecut", "pair"]))
    if k == "pair":
        # two rectangles that share a corner vertex / an edge, so that rings can start at a shared vertex
        w = np.round(rng.uniform(.3, 1, 4) * L, 4) + .001
        a = box(0, 0, w[0], w[1])
        b = Polygon([(w[0], 0), (w[0] + w[2], 0), (w[0] + w[2], w[1]), (w[0], w[1])])
        return [(G.rmats(rng, 2)[i], p) for i, p in enumerate([a, b])]
    return G.zoo(rng, k, scale=L, far=float(rng.choice([0, 1]))).regions


def check_regions(ctx, g, regs, cps, key, e=None, cls="shape"):
    got = GC.regions(g)
    if not ctx.check(len(got) == len(regs), key + "/regions", f"{len(got)} regions instead of {len(regs)}", cls="attributes"):
        return
    e = e if e is not None else eps([p for _, p in regs])
    for r, (m, p), cp in zip(got, regs, cps):
        GC.same_shape(ctx, r.geom, p, e, key + "/shape", cls=cls)
        ctx.check(len(r.geom.interiors) == len(p.interiors), key + "/holes", f"{len(r.geom.interiors)} instead of {len(p.interiors)}", cls=cls)
        ctx.check(r.material == m, key + "/material", f"{r.material.name} instead of {m.name}", cls="attributes")
        if cp is not None:
            ctx.check(math.dist(r.control_points[0], cp) <= 1e-12, key + "/control", f"{r.control_points[0]} instead of {cp}", cls="attributes")


def run_points(ctx, rng, kind):
    L = float(10 ** rng.uniform(-1, 2.7))
    if kind in ("single", "holes"):
        sec = G.zoo(rng, "holes" if kind == "holes" else str(rng.choice(["rpoly", "rectil", "quad", "libasym"])), scale=L, far=float(rng.choice([0, 1])))
        p = sec.regions[0][1]
        m = G.rmats(rng, 1)[0]
        pts, fac = describe(rng, [p], share=bool(rng.integers(2)))
        cp = inside(rng, p)
        holes = [inside(rng, Polygon(r)) for r in p.interiors]
        keep = (list(pts), list(fac), [cp], list(holes))
        if rng.integers(2):
            holes = [holes[i] for i in rng.permutation(len(holes))]
        kw = {} if not holes and rng.integers(2) else dict(holes=holes or None)
        if rng.integers(2):
            kw["material"] = m
        else:
            m = DEFAULT_MATERIAL
        g = Geometry.from_points(points=pts, facets=fac, control_points=[cp], **kw)
        ctx.check((list(pts), list(fac)) == keep[:2], "from_points/pure", "the lists were modified", cls="attributes")
        check_regions(ctx, g, [(m, p)], [cp], "from_points")
        GC.compiled(ctx, g, "from_points/compiled")
        # the other documented ways
        if kind == "single":
            check_regions(ctx, Geometry(Polygon(np.asarray(p.exterior.coords)), m), [(m, p)], [None], "constructor")
    elif kind == "compound":
        regs = region_set(rng, L)
        if rng.random() < .35:
            # real holes in the regions
            out = []
            for m, p in regs:
                c = inside(rng, p)
                r = .3 * p.boundary.distance(Point(c))
                h = [(c[0] + r * math.cos(t), c[1] + r * math.sin(t)) for t in np.linspace(0, 2 * math.pi, int(rng.integers(3, 7)), endpoint=False)]
                out.append((m, Polygon(p.exterior.coords, [*[i.coords for i in p.interiors], h]) if rng.integers(2) and r > 1e-3 * L else p))
            regs = out
        polys = [p for _, p in regs]
        pts, fac = describe(rng, polys, share=bool(rng.integers(4)))
        cps = [inside(rng, p) for p in polys]
        holes = [inside(rng, Polygon(r)) for p in polys for r in p.interiors]
        # a ring that holds another region cannot be told from an exterior (assumption)
        for p in polys:
            for r in p.interiors:
                if any(Polygon(r).contains(Point(c)) for c in cps):
                    raise Skip("a hole holds another region")
        mats = [m for m, _ in regs]
        kw = dict(materials=mats)
        if rng.random() < .2:
            kw, mats = {}, [DEFAULT_MATERIAL] * len(regs)
        if holes or rng.integers(2):
            kw["holes"] = [holes[i] for i in rng.permutation(len(holes))]
        g = CompoundGeometry.from_points(points=pts, facets=fac, control_points=cps, **kw)
        check_regions(ctx, g, [(m, p) for m, p in zip(mats, polys)], cps, "compound-from_points")
        GC.compiled(ctx, g, "compound-from_points/compiled")
    elif kind == "export":
        if rng.random() < .4:
            sec = G.zoo(rng, str(rng.choice(["rpoly", "holes", "rectil", "libasym", "lib"])), scale=L)
            m, p = sec.regions[0]
            g = Geometry(p, m)
            h = Geometry.from_points(points=g.points, facets=g.facets, control_points=g.control_points, holes=g.holes, material=g.material)
            check_regions(ctx, h, [(m, p)], [g.control_points[0]], "export")
            h2 = Geometry.from_points(h.points, h.facets, h.control_points, h.holes, h.material)
        else:
            regs = region_set(rng, L)
            g = CompoundGeometry([Geometry(p, m) for m, p in regs])
            if g.holes:
                raise Skip("holes between regions")
            h = CompoundGeometry.from_points(g.points, g.facets, g.control_points, g.holes, [r.material for r in g.geoms])
            check_regions(ctx, h, regs, list(g.control_points), "compound-export")
            h2 = CompoundGeometry.from_points(h.points, h.facets, h.control_points, h.holes, [r.material for r in h.geoms])
        for a, b in zip(GC.regions(h), GC.regions(h2)):
            GC.same_shape(ctx, b.geom, a.geom, eps([a.geom]), "export/twice")
    else:
        regs = region_set(rng, L)
        polys, mats = [p for _, p in regs], [m for m, _ in regs]
        pts, fac = describe(rng, polys)
        cps = [inside(rng, p) for p in polys]
        holes = [inside(rng, Polygon(r)) for p in polys for r in p.interiors]
        C = lambda *a, **k: CompoundGeometry.from_points(*a, **{"holes": holes, **k})  # noqa: E731
        p1, f1 = describe(rng, polys[:1])
        for bad in ([], [cps[0], cps[0]], cps + cps):
            ctx.raises(ValueError, lambda bad=bad: Geometry.from_points(p1, f1, bad), "refusal/single-control-points", f"{len(bad)} control points")
        ctx.raises(ValueError, lambda: C(pts, fac, cps, materials=mats[:-1]), "refusal/materials-fewer")
        ctx.raises(ValueError, lambda: C(pts, fac, cps, materials=mats + mats[:1]), "refusal/materials-more")
        ctx.raises(ValueError, lambda: C(pts, fac, [], materials=mats), "refusal/materials-without-control-points")
        if not any(p.interiors for p in polys):        # (an outline with a hole point and no control point describes a hole)
            ctx.raises(ValueError, lambda: C(pts, fac, cps[:-1], materials=mats[:-1]), "refusal/control-points-fewer")
        ctx.raises(ValueError, lambda: C(pts, fac, cps + [inside(rng, polys[0])], materials=mats + mats[:1]), "refusal/control-points-more")
        # a hole that swallows the control point of its region
        p = polys[0]
        c = inside(rng, p)
        r = .3 * p.boundary.distance(Point(c))
        h = Polygon([(c[0] + r * math.cos(t), c[1] + r * math.sin(t)) for t in np.linspace(0, 2 * math.pi, 5, endpoint=False)])
        q = Polygon(p.exterior.coords, [h.exterior.coords])
        pts, fac = describe(rng, [q])
        ctx.raises((ValueError, RuntimeError), lambda: C(pts, fac, [inside(rng, h)], holes=[c], materials=mats[:1]), "refusal/control-point-in-hole")
        ctx.raises(ValueError, lambda: Geometry(None), "refusal/not-a-polygon")
        ctx.raises(ValueError, lambda: Geometry("POLYGON"), "refusal/not-a-polygon")
        from shapely.geometry import MultiPolygon
        ctx.raises(ValueError, lambda: Geometry(MultiPolygon([box(0, 0, 1, 1), box(2, 2, 3, 3)])), "refusal/multipolygon")
        ctx.raises(ValueError, lambda: Geometry(Point(0, 0)), "refusal/not-a-polygon")
        g = CompoundGeometry(MultiPolygon([box(0, 0, L, L), box(2 * L, 0, 3 * L, L)]))
        check_regions(ctx, g, [(DEFAULT_MATERIAL, box(0, 0, L, L)), (DEFAULT_MATERIAL, box(2 * L, 0, 3 * L, L))], [None, None], "multipolygon")


def run_dxf(ctx, rng, kind, d):
    import ezdxf
    path = os.path.join(d, "x.dxf")
    if kind == "bad":
        ctx.raises(ValueError, lambda: Geometry.from_dxf(os.path.join(d, "nothere.dxf")), "refusal/dxf-missing")
        doc = ezdxf.new()
        doc.saveas(path)
        ctx.raises(Exception, lambda: Geometry.from_dxf(path), "refusal/dxf-empty")
        doc = ezdxf.new()           # lines that enclose nothing
        for a, b in rng.uniform(-9, 9, (int(rng.integers(1, 3)), 2, 2)):
            doc.modelspace().add_line(tuple(a), tuple(b))
        doc.saveas(path)
        for cls in (Geometry, CompoundGeometry):
            ctx.raises(RuntimeError, lambda: cls.from_dxf(path), "refusal/dxf-no-polygon", match="Polygon")
        ctx.saw("dxf", 2)
        return
    L = float(10 ** rng.uniform(0, 2.5))
    doc = ezdxf.new(units=int(rng.choice([0, 1, 4, 6])))
    msp = doc.modelspace()
    chord = 0.0
    if kind == "round":
        deg = float(rng.choice([1.0, 2.0, 5.0, 10.0, round(float(rng.uniform(.4, 20)), 2)]))
        c = rng.uniform(-1, 1, 2) * L
        ro = float(rng.uniform(.5, 1.5)) * L
        rings = [ro]
        if rng.integers(2):
            rings.append(ro * float(rng.uniform(.3, .8)))
        for r in rings:
            msp.add_circle((c[0], c[1]), r)
        want = Point(*c).buffer(ro, quad_segs=2000)
        if len(rings) > 1:
            want = want.difference(Point(*c).buffer(rings[1], quad_segs=2000))
        wants = [want]
        chord = ro * (1 - math.cos(math.radians(deg) / 2 * 1.01)) + 1e-6 * L
        kw = dict(degrees_per_segment=deg)
    else:
        sec = G.zoo(rng, str(rng.choice(["rpoly", "holes", "rectil", "quad"])), scale=L, far=float(rng.choice([0, 1])))
        p = sec.regions[0][1]
        wants = [p]
        if rng.random() < .35:
            q = G.zoo(rng, "rpoly", scale=L, far=0.0).regions[0][1]
            dx = p.bounds[2] - q.bounds[0] + .3 * L
            from shapely import affinity
            wants.append(affinity.translate(q, dx, 0.0))
        for w in wants:
            for r in [w.exterior, *w.interiors]:
                c = [tuple(map(float, v)) for v in np.asarray(r.coords)[:-1, :2]]
                if kind == "lines":
                    segs = [(c[i], c[(i + 1) % len(c)]) for i in range(len(c))]
                    for i in rng.permutation(len(segs)):
                        a, b = segs[int(i)]
                        msp.add_line(a, b) if rng.integers(2) else msp.add_line(b, a)
                else:
                    k = int(rng.integers(len(c)))
                    c = c[k:] + c[:k]
                    msp.add_lwpolyline(c[::-1] if rng.integers(2) else c, close=True)
        kw = {}
    doc.saveas(path)
    import pathlib
    g = Geometry.from_dxf(pathlib.Path(path) if rng.integers(2) else path, **kw)
    got = GC.regions(g)
    ctx.saw("dxf")
    if not ctx.check(len(got) == len(wants), "dxf/regions", f"{len(got)} regions instead of {len(wants)}", cls="dxf"):
        return
    for w in wants:
        r = min(got, key=lambda r: r.geom.symmetric_difference(w).area)
        if chord:
            gap = GC.shape_gap(r.geom, w)
            ctx.check(gap <= chord, "dxf/round-shape", f"area gap {gap:g} > chord error {chord:g} ({kw})", cls="dxf")
            v = np.concatenate(S.ring_arrays(r.geom))
            rad = np.hypot(*(v - c).T)
            off = np.min([np.abs(rad - q) for q in rings], axis=0).max()
            ctx.check(off <= 1e-3 * L, "dxf/round-vertices", f"vertices {off:g} off the circles", cls="dxf")
            for ring in S.ring_arrays(r.geom):
                m = len(ring)
                ctx.check(.6 * 360 / deg - 3 <= m <= 1.1 * 360 / deg + 3, "dxf/round-segments", f"{m} vertices on a circle at {deg} degrees per segment", cls="dxf")
        else:
            GC.same_shape(ctx, r.geom, w, 1e-6 * L, "dxf/shape", cls="dxf")
            ctx.check(len(r.geom.interiors) == len(w.interiors), "dxf/holes", cls="dxf")
        ctx.check(r.material == DEFAULT_MATERIAL, "dxf/material", cls="attributes")
    GC.compiled(ctx, g, "dxf/compiled")


def run_dxf_curves(ctx, rng, kind, d):
    """outlines of straight lines and arcs (or one spline), in random entity order and drawing direction"""
    import ezdxf
    L = float(10 ** rng.uniform(-1, 2.7))
    c0 = rng.uniform(-1, 1, 2) * L
    doc = ezdxf.new()
    msp = doc.modelspace()
    path = os.path.join(d, "c.dxf")
    if kind == "arcs":
        deg = float(rng.choice([1.0, 5.0, round(float(rng.uniform(.5, 18)), 2)]))
        w, h = (float(v) * L for v in rng.uniform(.6, 2, 2))
        rad = min(w, h) * rng.uniform(.08, .45, 4)
        rad[rng.random(4) < .25] = 0.0
        if not rad.any():
            rad[0] = .3 * min(w, h)
        ctr = [(w - rad[0], h - rad[0], 0), (rad[1], h - rad[1], 90), (rad[2], rad[2], 180), (w - rad[3], rad[3], 270)]
        ends, arcs, fine = [], [], []
        for (x, y, a), r in zip(ctr, rad):
            x, y, r = float(x + c0[0]), float(y + c0[1]), float(r)
            if r == 0:
                ends.append(((x, y), (x, y)))
                fine.append((x, y))
                continue
            # the end points of the lines are computed like those of any arc
            e = [(x + r * float(np.cos(math.radians(b))), y + r * float(np.sin(math.radians(b)))) for b in (a, a + 90)]
            if a == 270:
                e[1] = (x + r * float(np.cos(2 * math.pi)), y + r * float(np.sin(2 * math.pi)))
            ends.append(tuple(e))
            arcs.append((x, y, r, a))
            fine += [(x + r * math.cos(math.radians(a + 90 * k / 400)), y + r * math.sin(math.radians(a + 90 * k / 400))) for k in range(401)]
        ents = [("l", ends[k][1], ends[(k + 1) % 4][0]) for k in range(4)] + [("a", *q) for q in arcs]
        for k in rng.permutation(len(ents)):
            e = ents[int(k)]
            if e[0] == "l":
                msp.add_line(*(e[1:] if rng.integers(2) else e[:0:-1]))
            else:
                msp.add_arc((e[1], e[2]), e[3], e[4], (e[4] + 90) % 360)
        kw = dict(degrees_per_segment=deg)
        sag = max(r for *_, r, _ in arcs) * (1 - math.cos(math.radians(min(90, deg * 90 / max(90 - 2 * deg, 1)) / 2 * 1.05)))
        lo = sum(max(90 / deg - 2.01, 1) for _ in arcs)
        hi = sum(90 / deg + 2 for _ in arcs) + 2 * 4
    else:
        delta = float(rng.choice([.1, .05, .02, round(float(rng.uniform(.01, .15)), 3)]))
        n = int(rng.integers(5, 10))
        xs = np.linspace(0, float(rng.uniform(1, 2)) * L, n)
        ys = rng.uniform(.6, 1.2, n) * L
        cps = [(float(x + c0[0]), float(y + c0[1]), 0.0) for x, y in zip(xs, ys)]
        sp = msp.add_open_spline(cps, degree=3)
        sp.dxf.flags = 8
        a, b = (cps[0][0], float(c0[1])), (cps[-1][0], float(c0[1]))
        msp.add_lwpolyline([cps[0][:2], a, b, cps[-1][:2]])
        from scipy.interpolate import BSpline
        kn = np.asarray(sp.knots, float)
        cv = BSpline(kn / kn[-1], np.array(cps)[:, :2], 3)
        fine = [a, b] + [tuple(q) for q in cv(np.linspace(1, 0, 4001))]
        m = 1 / delta
        seg = cv(np.linspace(0, 1, int(m) + 1)[: , None]).reshape(-1, 2)
        # distance between curve and chords, estimated from the chords themselves (twice the number of samples)
        sag = 0.0
        tt = np.linspace(0, 1, max(int(m) - 1, 2))
        for k in range(len(tt) - 1):
            q = cv(np.linspace(tt[k], tt[k + 1], 12))
            e = (q[-1] - q[0]) / max(np.hypot(*(q[-1] - q[0])), 1e-300)
            sag = max(sag, np.abs((q - q[0]) @ np.array([-e[1], e[0]])).max())
        sag *= 1.5
        kw = dict(spline_delta=delta)
        lo, hi = .5 * m, m + 6
    doc.saveas(path)
    g = Geometry.from_dxf(path, **kw)
    ctx.saw("dxf")
    want = Polygon(fine)
    got = GC.regions(g)
    if not ctx.check(len(got) == 1, f"dxf/{kind}-regions", f"{len(got)} regions", cls="dxf"):
        return
    r = got[0].geom
    dev = r.symmetric_difference(want).area
    ctx.check(dev <= 1.1 * sag * want.length + 1e-5 * L * L, f"dxf/{kind}-shape", f"area difference {dev:g}, chord error {sag:g} on {want.length:g} ({kw})", cls="dxf")
    v = np.concatenate(S.ring_arrays(r))
    off = S.boundary_distance(v, [want]).max()
    ctx.check(off <= 1e-4 * L, f"dxf/{kind}-vertices", f"a vertex is {off:g} off the outline ({kw})", cls="dxf")
    ctx.check(lo - 4 <= len(v) <= hi, f"dxf/{kind}-segments", f"{len(v)} vertices, expected {lo:.1f} to {hi:.1f} ({kw})", cls="dxf")
    GC.compiled(ctx, g, "dxf/compiled")


def run_rhino(ctx, rng, kind, d):
    import rhino3dm as rh
    L = float(10 ** rng.uniform(0, 2))

    def poly():
        p = Polygon(G.star_ring(rng, None, L, .5)) if rng.integers(2) else box(0, 0, *(rng.uniform(.3, 1, 2) * L))
        return Polygon(np.round(np.asarray(p.exterior.coords), 6))
    planar = rng.random() < .5
    if planar:
        e1, e2, org = np.array([1.0, 0, 0]), np.array([0, 1.0, 0]), np.zeros(3)
    else:
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        e1, e2 = q[:, 0], q[:, 1]
        org = np.zeros(3)
    wants = [poly()]
    if kind == "file" and rng.random() < .5:
        from shapely import affinity
        for _ in range(int(rng.integers(1, 3))):
            q = poly()
            wants.append(affinity.translate(q, wants[-1].bounds[2] - q.bounds[0] + .2 * L, 0.0))
    breps = []
    for w in wants:
        pl = rh.Polyline(4)
        c = np.asarray(w.exterior.coords)[:-1]
        if rng.integers(2):
            c = c[::-1]
        for x, y in [*c, c[0]]:
            v = org + x * e1 + y * e2
            pl.Add(*map(float, v))
        n = np.cross(e1, e2)
        plane = rh.Plane(rh.Point3d(*org), rh.Vector3d(*e1), rh.Vector3d(*e2)) if not planar else rh.Plane.WorldXY()
        b = rh.Brep.CreateTrimmedPlane(plane, rh.PolylineCurve(pl) if not hasattr(pl, "ToPolylineCurve") else pl.ToPolylineCurve())
        if b is None or not b.IsValid:
            raise Skip("rhino3dm built no brep")
        breps.append(b)
    kw = {} if planar and rng.integers(2) else dict(vec1=e1, vec2=e2)
    if rng.random() < .3:
        kw["refine_num"] = int(rng.integers(1, 4))
    tol = 1e-6 * L
    ctx.saw("rhino")
    if kind == "brep":
        g = Geometry.from_rhino_encoding(breps[0].Encode(), **kw)
        GC.same_shape(ctx, g.geom, wants[0], tol, "rhino/brep-shape", cls="rhino")
        ctx.check(type(g) is Geometry and g.material == DEFAULT_MATERIAL, "rhino/brep-type", cls="rhino")
        if not planar:
            ctx.raises(RuntimeError, lambda: Geometry.from_rhino_encoding(breps[0].Encode(), parallel=True), "refusal/rhino-parallel")
    else:
        f = rh.File3dm()
        for b in breps:
            f.Objects.AddBrep(b)
        path = os.path.join(d, "x.3dm")
        f.Write(path, 7)
        if len(breps) == 1:
            g = Geometry.from_3dm(path, **kw)
            GC.same_shape(ctx, g.geom, wants[0], tol, "rhino/file-shape", cls="rhino")
        else:
            ctx.raises(RuntimeError, lambda: Geometry.from_3dm(path, **kw), "refusal/rhino-many-surfaces")
        g = CompoundGeometry.from_3dm(path, **kw)
        ctx.check(len(g.geoms) == len(wants), "rhino/regions", f"{len(g.geoms)} instead of {len(wants)}", cls="rhino")
        for w in wants:
            r = min(g.geoms, key=lambda r: r.geom.symmetric_difference(w).area)
            GC.same_shape(ctx, r.geom, w, tol, "rhino/compound-shape", cls="rhino")
        if not planar:
            # surfaces that are not parallel to the default plane are filtered out on request
            ctx.raises(RuntimeError, lambda: CompoundGeometry.from_3dm(path, parallel=True), "refusal/rhino-parallel")
    GC.compiled(ctx, g, "rhino/compiled")


def run(ctx, case):
    rng = ctx.rng
    op, kind = case["kind"].split(":")
    if op == "points":
        run_points(ctx, rng, kind)
    else:
        d = tempfile.mkdtemp(prefix="p16_")
        try:
            (run_dxf_curves if kind in ("arcs", "spline") else run_dxf if op == "dxf" else run_rhino)(ctx, rng, kind, d)
        finally:
            shutil.rmtree(d)
    ctx.signature(case["kind"], float(rng.random()))
