"""P14: purity / isometry monitors over random programs of geometry transforms.

Random geometries (library shapes, random polygons with holes, multi-material compounds, assigned control points, several
tolerances) go through random sequences of shift / rotate / mirror / align_to / align_center.  After each step a monitor
compares the new geometry with the harness's own affine image of the previous one (vertex by vertex), checks that the
operands are unchanged, that material, tolerance and control points follow, and that the compiled mesh input describes the
new polygons.  Inverse steps must restore the geometry.
"""
import math

import numpy as np
from shapely.geometry import Point, Polygon

from harness import gens as G
from harness import geomcheck as GC
from harness import oracles as O
from sectionproperties.pre import CompoundGeometry, Geometry

KINDS = ["rpoly", "rectil", "holes", "lib", "libasym", "quad", "strips", "inset", "stack", "conc", "filled", "onemat", "disjoint_c", "samecut"]
CASES = {"quick": {k: 40 for k in KINDS}, "thorough": {k: 1500 for k in KINDS}}
FLOORS = {"shape": 2000, "purity": 2000, "attributes": 2000, "compiled": 5000, "extent": 500, "inverse": 200}
RULE = "random programs of 3-7 transforms over random geometries; each step compared with the harness's affine image"
ASSUMPTIONS = ["vertices are rounded to the geometry's tolerance, 10^-tol"]


def affine_poly(p, M, t):
    def f(r):
        return np.asarray(r.coords)[:-1, :2] @ M.T + t
    return Polygon(f(p.exterior), [f(r) for r in p.interiors])


def decorate(rng, sec, L):
    """Random tolerances and assigned control points on the regions."""
    tol = int(rng.choice([12, 12, 12, 9, 6])) if L >= 1 else 12
    out = []
    for m, p in sec.regions:
        cp = None
        if rng.random() < .6:
            q = p.representative_point()
            x0, y0, x1, y1 = p.bounds
            for _ in range(40):
                c = Point(rng.uniform(x0, x1), rng.uniform(y0, y1))
                if p.buffer(-1e-3 * L).contains(c):
                    q = c
                    break
            cp = (q.x, q.y) if rng.random() < .5 else q
        out.append(Geometry(p, m, cp, tol))
    return (out[0] if len(out) == 1 and rng.random() < .8 else CompoundGeometry(out)), tol


def cp_of(r):
    a = r.assigned_control_point
    return None if a is None else np.array([a.x, a.y])


def bbox(g):
    b = [r.geom.bounds for r in GC.regions(g)]
    return min(q[0] for q in b), min(q[1] for q in b), max(q[2] for q in b), max(q[3] for q in b)


def plain_centroid(g):
    return centroid_of([(1.0, r.geom) for r in GC.regions(g)])


def centroid_of(ws):
    a = sx = sy = 0.0
    for w, p in ws:
        # about the first vertex, to keep digits for shapes far from the origin
        e, hs = O.rings_of(p)
        o = np.asarray(p.exterior.coords[0][:2])
        m = O.poly_moments(np.asarray(e) - o, [np.asarray(h) - o for h in hs])
        ar, qy, qx = m[0], *first(m)
        a += w * ar
        sx += w * (qy + ar * o[0])
        sy += w * (qx + ar * o[1])
    return np.array([sx / a, sy / a])


def first(m):
    return m[IDX[0]], m[IDX[1]]


# index of int x dA and int y dA in poly_moments, determined from a box away from the axes
_b = O.poly_moments(np.array([[10., 1.], [12., 1.], [12., 2.], [10., 2.]]))
IDX = [int(np.argmin(np.abs(np.asarray(_b) - 22.0))), int(np.argmin(np.abs(np.asarray(_b) - 3.0)))]


def step(ctx, g, M, t, h, key, tol, exact=True, msg=""):
    """h must be the image of g."""
    size = max(abs(v) for v in (*bbox(g), *bbox(h))) + float(np.abs(t).max())
    eps = 1.01 * 10.0 ** -tol + 2e-12 * size
    ra, rb = GC.regions(g), GC.regions(h)
    ctx.check(type(h) is type(g), key + "/type", f"{type(g)} -> {type(h)} {msg}", cls="attributes")
    if not ctx.check(len(ra) == len(rb), key + "/regions", f"{len(ra)} -> {len(rb)} regions {msg}", cls="attributes"):
        return
    for a, b in zip(ra, rb):
        want = affine_poly(a.geom, M, t)
        if exact:
            GC.same_vertices(ctx, b.geom, want, eps, key + "/vertices", msg)
        else:
            GC.same_shape(ctx, b.geom, want, 4 * eps, key + "/shape", msg)
        ctx.check(b.material == a.material, key + "/material", f"{a.material} -> {b.material} {msg}", cls="attributes")
        ctx.check(b.tol == a.tol, key + "/tol", f"{a.tol} -> {b.tol} {msg}", cls="attributes")
        ca, cb = cp_of(a), cp_of(b)
        ctx.check((ca is None) == (cb is None), key + "/control", f"assigned control point {ca} -> {cb} {msg}", cls="attributes")
        if ca is not None and cb is not None:
            ctx.check(np.abs(M @ ca + t - cb).max() <= eps, key + "/control-moved", f"{ca} -> {cb}, expected {M @ ca + t} {msg}", cls="attributes")
        ctx.check(a is not b, key + "/new-object", "the same region object is returned " + msg, cls="purity")
    ctx.check(h is not g and h.points is not g.points and h.facets is not g.facets and h.control_points is not g.control_points,
              key + "/new-object", msg, cls="purity")
    GC.compiled(ctx, h, key + "/compiled", msg)


def other_geometry(rng, L):
    k = str(rng.choice(["rpoly", "quad", "stack", "inset", "libasym"]))
    return G.zoo(rng, k, scale=L * float(rng.uniform(.3, 2)), far=float(rng.choice([0, 2, 10]))).geom


def run(ctx, case):
    rng = ctx.rng
    kind = case["kind"]
    sec = G.zoo(rng, kind, scale=float(10 ** rng.uniform(-1, 2.7)), far=float(rng.choice([0, 1, 5, 100])))
    L = math.sqrt(sec.area())
    g, tol = decorate(rng, sec, L)
    comp = isinstance(g, CompoundGeometry)
    for r, (_, p) in zip(GC.regions(g), sec.regions):
        GC.same_vertices(ctx, r.geom, p, 1.01 * 10.0 ** -tol, "construct/vertices")
    GC.compiled(ctx, g, "construct/compiled")
    if rng.random() < .3:
        g.create_mesh([sec.area() / 5], coarse=bool(rng.integers(2)))
    hist = []
    for _ in range(int(rng.integers(3, 8))):
        op = str(rng.choice(["shift", "rotate", "mirror", "align_to", "align_center", "assign"]))
        snap = GC.snapshot(g)
        other = osnap = None
        x0, y0, x1, y1 = bbox(g)
        size = max(abs(x0), abs(y0), abs(x1), abs(y1), L)
        exact = True
        M, t = np.eye(2), np.zeros(2)
        if op == "shift":
            d = rng.uniform(-1, 1, 2) * L * float(rng.choice([.1, 1, 20]))
            which = int(rng.integers(4))
            if which == 0:
                h, t = g.shift_section(x_offset=float(d[0])), np.array([d[0], 0.0])
            elif which == 1:
                h, t = g.shift_section(y_offset=float(d[1])), np.array([0.0, d[1]])
            elif which == 2:
                h, t = g.shift_section(float(d[0]), float(d[1])), d
            else:
                i = rng.integers(-5, 6, 2)
                h, t = g.shift_section(x_offset=int(i[0]), y_offset=int(i[1])), i.astype(float)
            step(ctx, g, M, t, h, "shift", tol, msg=f"{kind}")
            back = h.shift_section(x_offset=-float(t[0]), y_offset=-float(t[1]))
            step_restore(ctx, g, back, "shift", tol, size + np.abs(t).max())
        elif op == "rotate":
            a = float(rng.choice([rng.uniform(-360, 360), 90, 180, -90, 0, 45, 720]))
            pt = "center" if rng.random() < .4 else tuple(float(v) for v in rng.uniform(-2, 2, 2) * L)
            rad = bool(rng.integers(2))
            ang = math.radians(a) if rad else a
            kw = dict(angle=ang)
            if pt != "center" or rng.integers(2):
                kw["rot_point"] = pt
            if rad or rng.integers(2):
                kw["use_radians"] = rad
            h = g.rotate_section(**kw)
            c = np.array([(x0 + x1) / 2, (y0 + y1) / 2]) if pt == "center" else np.array(pt)
            M = O.rot(a)
            t = c - M @ c
            exact = not comp
            step(ctx, g, M, t, h, "rotate", tol, exact=exact, msg=f"{kind} {a} {pt} rad={rad}")
            back = h.rotate_section(angle=-ang, rot_point=tuple(float(v) for v in c), use_radians=rad)
            step_restore(ctx, g, back, "rotate", tol, size + np.abs(c).max(), exact)
        elif op == "mirror":
            ax = str(rng.choice(["x", "y"]))
            pt = "center" if rng.random() < .5 else tuple(float(v) for v in rng.uniform(-2, 2, 2) * L)
            kw = {}
            if ax == "y" or rng.integers(2):
                kw["axis"] = ax
            if pt != "center" or rng.integers(2):
                kw["mirror_point"] = pt
            h = g.mirror_section(**kw)
            c = np.array([(x0 + x1) / 2, (y0 + y1) / 2]) if pt == "center" else np.array(pt)
            M = np.diag([1.0, -1.0]) if ax == "x" else np.diag([-1.0, 1.0])
            t = c - M @ c
            step(ctx, g, M, t, h, "mirror", tol, msg=f"{kind} {ax} {pt}")
            back = h.mirror_section(axis=ax, mirror_point=tuple(float(v) for v in c))
            step_restore(ctx, g, back, "mirror", tol, size + np.abs(c).max())
        elif op == "align_to":
            on = str(rng.choice(["left", "right", "top", "bottom"]))
            inner = bool(rng.integers(2))
            e = dict(left=x0, right=x1, bottom=y0, top=y1)
            opp = dict(left="right", right="left", bottom="top", top="bottom")
            horiz = on in ("left", "right")
            if rng.random() < .4:
                other = tuple(float(v) for v in rng.uniform(-3, 3, 2) * L)
                target = other[0] if horiz else other[1]
                ob = None
            else:
                other = other_geometry(rng, L)
                ob = bbox(other)
                target = dict(left=ob[0], bottom=ob[1], right=ob[2], top=ob[3])[on]
                osnap = GC.snapshot(other)
            h = g.align_to(other, on, inner) if rng.integers(2) else g.align_to(other=other, on=on, inner=inner)
            mine = e[on] if inner else e[opp[on]]
            t = np.array([target - mine, 0.0]) if horiz else np.array([0.0, target - mine])
            eps = 2.02 * 10.0 ** -tol + 4e-12 * (size + abs(target))
            kk = "align_to/" + ("point" if ob is None else "geometry") + ("-inner" if inner else "")
            step(ctx, g, M, t, h, kk, tol, msg=f"{kind} {on}")
            hb = bbox(h)
            he = dict(left=hb[0], bottom=hb[1], right=hb[2], top=hb[3])
            got = he[on] if inner else he[opp[on]]
            ctx.check(abs(got - target) <= eps, kk + "/extent", f"{on}: {got} instead of {target}", cls="extent")
            j = (1, 3) if horiz else (0, 2)
            ctx.check(max(abs(hb[i] - (x0, y0, x1, y1)[i]) for i in j) <= 1.01 * 10.0 ** -tol, kk + "/other-axis", f"{on}", cls="extent")
        elif op == "align_center":
            w = [(r.material.elastic_modulus if comp else 1.0, r.geom) for r in GC.regions(g)]
            c = centroid_of(w)
            u = rng.random()
            if u < .3:
                h, target = (g.align_center() if rng.integers(2) else g.align_center(align_to=None)), np.zeros(2)
            elif u < .6:
                other = tuple(float(v) for v in rng.uniform(-3, 3, 2) * L)
                h, target = g.align_center(align_to=other), np.array(other)
            else:
                other = other_geometry(rng, L)
                osnap = GC.snapshot(other)
                h, target = g.align_center(other), plain_centroid(other)
            # centroid round-off grows with distance / size
            far = (size + np.abs(target).max()) / L
            t = target - c
            loose = 1e-13 * far * far * L + 1e-12 * size
            h2, c2 = h, centroid_of([(ww, r.geom) for (ww, _), r in zip(w, GC.regions(h))])
            ctx.check(np.abs(c2 - target).max() <= 3 * 10.0 ** -tol + 50 * loose, "align_center/centre",
                      f"{kind}: centre {c2} instead of {target}", cls="extent")
            t = real_shift(g, h)
            step(ctx, g, M, t, h, "align_center", tol, msg=kind)
            ctx.check(np.abs(t - (target - c)).max() <= 3 * 10.0 ** -tol + 50 * loose, "align_center/shift", f"{kind}", cls="extent")
            for bad in ("ab", (1.0, 2.0, 3.0), 5.0, (None, 1.0)):
                ctx.raises(ValueError, lambda bad=bad: g.align_center(align_to=bad), "align_center/invalid", f"{bad!r} accepted")
        else:
            if comp:
                continue
            x = g.geom.representative_point()
            p = (float(x.x), float(x.y))
            h = g.assign_control_point(p)
            ctx.check(cp_of(h) is not None and math.dist(cp_of(h), p) == 0 and math.dist(h.control_points[0], p) <= 10.0 ** -tol, "assign/control", f"{p} -> {h.control_points}", cls="attributes")
            GC.same_vertices(ctx, h.geom, g.geom, 0, "assign/vertices")
            ctx.check(h.material == g.material and h.tol == g.tol, "assign/attributes", cls="attributes")
        GC.unchanged(ctx, g, snap, f"{op}/pure", kind)
        if osnap is not None:
            GC.unchanged(ctx, other, osnap, f"{op}/pure-other", kind)
        hist.append(op)
        if abs(max(bbox(h), key=abs)) > 300 * max(L, 1e-3) * 10:
            break
        g = h
    ctx.saw("program")
    ctx.note(ops=",".join(hist))
    ctx.signature(kind, hist, round(L, 9))


def real_shift(g, h):
    """The translation between two geometries (mean over vertices)."""
    a = np.concatenate([np.asarray(r.geom.exterior.coords) for r in GC.regions(g)])
    b = np.concatenate([np.asarray(r.geom.exterior.coords) for r in GC.regions(h)])
    return (b - a).mean(axis=0) if a.shape == b.shape else np.zeros(2)


def step_restore(ctx, g, back, key, tol, size, exact=True):
    eps = 2.1 * 10.0 ** -tol + 8e-12 * size
    ra, rb = GC.regions(g), GC.regions(back)
    ctx.check(len(ra) == len(rb), key + "/inverse-regions", cls="inverse")
    for a, b in zip(ra, rb):
        if exact:
            GC.same_vertices(ctx, b.geom, a.geom, eps, key + "/inverse", cls="inverse")
        else:
            GC.same_shape(ctx, b.geom, a.geom, 4 * eps, key + "/inverse", cls="inverse")
        ca, cb = cp_of(a), cp_of(b)
        if ca is not None and cb is not None:
            ctx.check(np.abs(ca - cb).max() <= eps, key + "/inverse-control", cls="inverse")
