"""Workload generators.  Every generated section carries the harness's own description of its regions."""
from __future__ import annotations

import dataclasses
import math
from dataclasses import dataclass, field

import numpy as np
from shapely import affinity
from shapely.geometry import Polygon, LineString, Point, MultiPolygon, box
from shapely.ops import split as shp_split, unary_union

from sectionproperties.pre import Geometry, CompoundGeometry, Material
from sectionproperties.pre.pre import DEFAULT_MATERIAL
import sectionproperties.pre.library as lib

from harness import oracles as O


def rmat(rng, name=None, k=None):
    """A random structural material; moduli over orders of magnitude."""
    e = float(10 ** rng.uniform(0.5, 5.3))
    return Material(
        name=name or f"m{k if k is not None else int(rng.integers(1e6))}",
        elastic_modulus=float(f"{e:.4g}"), poissons_ratio=float(np.round(rng.uniform(0, 0.45), 3)),
        yield_strength=float(f"{10 ** rng.uniform(0.3, 2.8):.4g}"), density=float(f"{10 ** rng.uniform(-7, 0):.4g}"),
        color=str(rng.choice(["grey", "lightgrey", "burlywood", "r", "b", "#aabbcc"])))


def rmats(rng, n, ratio=None):
    """n distinct materials within a moduli ratio (keeps composites numerically sane)."""
    u = rng.random()                 # moduli and strengths in MPa, ksi or the like; in Pa; or in some large unit
    base, fy = (10 ** rng.uniform(1, 5), 1.0) if u < .7 else (10 ** rng.uniform(5, 11.5), 10 ** rng.uniform(3, 7)) if u < .9 else (10 ** rng.uniform(-4, 1), 10 ** rng.uniform(-5, -1))
    ratio = ratio or (1e3 if rng.random() < .1 else 30.0)
    out = []
    for k in range(n):
        e = float(f"{base * ratio ** rng.uniform(-0.5, 0.5):.5g}")
        out.append(Material(name=f"mat{k}", elastic_modulus=e, poissons_ratio=float(np.round(rng.uniform(0, 0.45), 3)),
                            yield_strength=float(f"{fy * 10 ** rng.uniform(0.5, 2.8):.4g}"),
                            density=float(f"{10 ** rng.uniform(-7, 0):.4g}"), color=["grey", "tan", "r", "b", "g", "y"][k % 6]))
    # materials are told apart by all their fields: sometimes they share a name, or all fields but one
    v = u * 1e3 % 1
    if v < .3:
        out = [dataclasses.replace(m, name="mat") for m in out]
    if v < .2:
        keep = ["elastic_modulus", "poissons_ratio", "yield_strength", "density"][int(v * 20)]
        out = [dataclasses.replace(out[0], **{keep: getattr(m, keep)}) for m in out]
    return out


@dataclass
class Sec:
    name: str
    geom: object
    regions: list                      # [(Material, shapely Polygon)]
    connected: bool = True
    L: float = 1.0                     # characteristic length
    meta: dict = field(default_factory=dict)

    @property
    def composite(self):
        return set(m for m, _ in self.regions) != {DEFAULT_MATERIAL}

    def rings(self, weight=lambda m: 1.0):
        return [(weight(m), *O.rings_of(p)) for m, p in self.regions]

    def moments(self, weight=lambda m: 1.0):
        return sum((weight(m) * O.poly_moments(*O.rings_of(p)) for m, p in self.regions), np.zeros(6))

    def union(self):
        return unary_union([p for _, p in self.regions])

    def area(self):
        return sum(p.area for _, p in self.regions)

    def mesh(self, n_el=120, angle=30, coarse=False, sizes=None):
        a = self.area() / n_el * 1.6
        if sizes is None:
            sizes = [a]
        self.geom.create_mesh(mesh_sizes=sizes, min_angle=angle, coarse=coarse)
        return self


def rnd(pts, digits=6):
    """Round to significant digits relative to the size (well above the library's vertex tolerance)."""
    p = np.asarray(pts, float)
    s = 10 ** (digits - 1 - math.floor(math.log10(max(np.abs(p).max(), 1e-12))))
    return np.round(p * s) / s


def star_ring(rng, n=None, r0=1.0, jag=0.6):
    n = n or int(rng.integers(3, 12))
    for _ in range(100):
        ang = np.sort(rng.uniform(0, 2 * math.pi, n))
        gaps = np.diff(np.append(ang, ang[0] + 2 * math.pi))
        if gaps.min() < 0.15 or gaps.max() > math.pi * 0.95:
            continue
        r = r0 * (1 - jag * rng.uniform(0, 1, n))
        p = np.stack([r * np.cos(ang), r * np.sin(ang)], 1)
        poly = Polygon(p)
        if poly.is_valid and poly.area > 0.25 * r0 * r0:
            return p
    return np.array([[r0, 0], [0, r0], [-r0, 0], [0, -r0 * 0.7]])


def rectilinear(rng, n=None):
    """A connected union of grid rectangles (may have holes), random unequal grid steps."""
    n = n or int(rng.integers(2, 6))
    xs = np.cumsum(rng.uniform(0.3, 1.2, n + 1)).round(3)
    ys = np.cumsum(rng.uniform(0.3, 1.2, n + 1)).round(3)
    cells = {(int(rng.integers(n)), int(rng.integers(n)))}
    for _ in range(int(rng.integers(n, n * n))):
        c = list(cells)[int(rng.integers(len(cells)))]
        d = [(1, 0), (-1, 0), (0, 1), (0, -1)][int(rng.integers(4))]
        q = (c[0] + d[0], c[1] + d[1])
        if 0 <= q[0] < n and 0 <= q[1] < n:
            cells.add(q)
        cells = set(sorted(cells))
    u = unary_union([box(xs[i], ys[j], xs[i + 1], ys[j + 1]) for i, j in sorted(cells)])
    # corner-touching cells make invalid/weak joints: reject
    if not isinstance(u, Polygon) or not u.buffer(-0.05).geom_type == "Polygon" or any(
            Polygon(r).distance(Polygon(s)) < 1e-9 for i, r in enumerate(u.interiors) for s in list(u.interiors)[:i]) or any(
            LineString(r.coords).distance(LineString(u.exterior.coords)) < 1e-9 for r in u.interiors):
        return rectilinear(rng, n)
    return u.simplify(0)


def crook(rng):
    """a thin L or U of unit size in a random direction"""
    t, w, d = (float(v) for v in rng.uniform([.15, .8, 1.2], [.25, 1.6, 2.]))
    if rng.integers(2):
        p = [(0, 0), (w, 0), (w, t), (t, t), (t, d), (0, d)]
    else:
        h = float(rng.uniform(.5, 1)) * d
        p = [(0, 0), (w, 0), (w, h), (w - t, h), (w - t, t), (t, t), (t, d), (0, d)]
    p = np.array(p) - [w / 2, d / 2]
    return p @ O.rot(float(rng.uniform(-180, 180))).T


def poly_with_holes(rng, nh=None):
    nh = nh or int(rng.integers(1, 4))
    ext = Polygon(star_ring(rng, int(rng.integers(5, 10)), 1.0, 0.35))
    holes = []
    for _ in range(200):
        if len(holes) >= nh:
            break
        c = rng.uniform(-0.6, 0.6, 2)
        if rng.random() < 0.3:      # an angle- or channel-shaped cut-out whose centroid lies outside it
            h = Polygon(crook(rng) * float(rng.uniform(0.12, 0.3)) + c)
        else:
            h = Polygon(star_ring(rng, int(rng.integers(3, 8)), float(rng.uniform(0.08, 0.25)), 0.4) + c)
        if h.is_valid and ext.buffer(-0.06).contains(h) and all(h.distance(k) > 0.06 for k in holes):
            holes.append(h)
    return Polygon(ext.exterior.coords, [h.exterior.coords for h in holes])


def place(rng, poly_list, scale=None, far=None, rotate=True):
    """Scale / rotate / shift a list of polygons together, with exactly shared vertices, in random units."""
    s = scale if scale is not None else float(10 ** rng.uniform(-1.5, 2.7))
    far = far if far is not None else float(rng.choice([0, 1, 1, 5, 30]))
    th = float(rng.uniform(-180, 180)) if rotate else 0.0
    off = rng.uniform(-1, 1, 2) * s * far
    R = O.rot(th)
    dig = max(0, min(9, 6 - math.floor(math.log10(s)))) if s > 0 else 6

    def f(coords):
        p = np.asarray(coords, float)[:, :2] @ R.T * s + off
        return np.round(p, dig)
    out = []
    for p in poly_list:
        e, hs = np.asarray(p.exterior.coords)[:-1], [np.asarray(r.coords)[:-1] for r in p.interiors]
        q = Polygon(f(e), [f(h) for h in hs])
        out.append(q)
    return out, s


def from_polys(name, mats, polys, L=1.0, connected=True, **meta):
    geoms = [Geometry(p, m) for m, p in zip(mats, polys)]
    g = geoms[0] if len(geoms) == 1 else CompoundGeometry(geoms)
    return Sec(name, g, list(zip(mats, polys)), connected, L, meta)


# ---------------------------------------------------------------------------------------------------------- library shapes

def lib_shape(rng, which=None, material=DEFAULT_MATERIAL, s=None):
    """A random library section (one region), with its arguments; s is the size."""
    s = s if s is not None else float(10 ** rng.uniform(-1, 2.5))
    u = lambda a, b: float(f"{s * rng.uniform(a, b):.5g}")  # noqa: E731
    kinds = ["rectangular_section", "circular_section", "elliptical_section", "triangular_section", "triangular_radius_section",
             "cruciform_section", "circular_hollow_section", "elliptical_hollow_section", "rectangular_hollow_section",
             "polygon_hollow_section", "i_section", "mono_i_section", "tapered_flange_i_section", "channel_section",
             "tapered_flange_channel", "tee_section", "angle_section", "cee_section", "zed_section", "box_girder_section", "bulb_section"]
    k = which or str(rng.choice(kinds))
    n_r = int(rng.integers(2, 7))
    n = int(rng.integers(8, 33))
    if k == "rectangular_section":
        a = dict(d=u(.3, 2), b=u(.3, 2))
    elif k == "circular_section":
        a = dict(d=u(.3, 2), n=n)
    elif k == "elliptical_section":
        a = dict(d_x=u(.3, 2), d_y=u(.3, 2), n=n)
    elif k == "triangular_section":
        a = dict(b=u(.3, 2), h=u(.3, 2))
    elif k == "triangular_radius_section":
        a = dict(b=u(.3, 2), n_r=int(rng.integers(4, 16)))
    elif k == "cruciform_section":
        a = dict(d=u(1, 2), b=u(1, 2), t=u(.1, .3), r=u(.05, .3), n_r=n_r)
    elif k == "circular_hollow_section":
        a = dict(d=u(.8, 2), t=u(.05, .25), n=n)
    elif k == "elliptical_hollow_section":
        a = dict(d_x=u(.8, 2), d_y=u(.8, 2), t=u(.05, .25), n=n)
    elif k == "rectangular_hollow_section":
        t = u(.05, .15)
        a = dict(d=u(.8, 2), b=u(.8, 2), t=t, r_out=u(.16, .3), n_r=n_r)
    elif k == "polygon_hollow_section":
        a = dict(d=u(1, 2), t=u(.05, .15), n_sides=int(rng.integers(3, 9)), r_in=u(.02, .08), n_r=n_r, rot=float(np.round(rng.uniform(0, 60), 2)))
    elif k == "i_section":
        a = dict(d=u(1, 2), b=u(.6, 1.5), t_f=u(.08, .2), t_w=u(.05, .15), r=u(.03, .12), n_r=n_r)
    elif k == "mono_i_section":
        a = dict(d=u(1, 2), b_t=u(.5, 1), b_b=u(.6, 1.5), t_ft=u(.08, .2), t_fb=u(.08, .2), t_w=u(.05, .15), r=u(.03, .12), n_r=n_r)
    elif k == "tapered_flange_i_section":
        a = dict(d=u(1.2, 2), b=u(.8, 1.2), t_f=u(.1, .14), t_w=u(.08, .12), r_r=u(.05, .1), r_f=u(.02, .04), alpha=float(np.round(rng.uniform(3, 9), 2)), n_r=n_r)
    elif k == "channel_section":
        a = dict(d=u(1, 2), b=u(.6, 1.2), t_f=u(.08, .2), t_w=u(.05, .15), r=u(.03, .12), n_r=n_r)
    elif k == "tapered_flange_channel":
        a = dict(d=u(1.2, 2), b=u(.6, .8), t_f=u(.1, .14), t_w=u(.08, .12), r_r=u(.05, .1), r_f=u(.02, .04), alpha=float(np.round(rng.uniform(3, 9), 2)), n_r=n_r)
    elif k == "tee_section":
        a = dict(d=u(1, 2), b=u(.6, 1.5), t_f=u(.08, .2), t_w=u(.05, .15), r=u(.03, .12), n_r=n_r)
    elif k == "angle_section":
        t = u(.12, .2)
        a = dict(d=u(1, 2), b=u(.6, 1.5), t=t, r_r=u(.03, .12), r_t=t * .5, n_r=n_r)
    elif k == "cee_section":
        t = u(.06, .1)
        a = dict(d=u(1, 2), b=u(.7, 1), l=u(.3, .45), t=t, r_out=t * float(rng.uniform(1.2, 2)), n_r=n_r)
    elif k == "zed_section":
        t = u(.06, .1)
        a = dict(d=u(1, 2), b_l=u(.7, 1), b_r=u(.7, 1), l=u(.3, .45), t=t, r_out=t * float(rng.uniform(1.2, 2)), n_r=n_r)
    elif k == "box_girder_section":
        a = dict(d=u(1, 1.5), b_t=u(1.8, 2.4), b_b=u(.9, 1.4), t_ft=u(.08, .15), t_fb=u(.08, .15), t_w=u(.08, .15))
    elif k == "bulb_section":
        t = u(.1, .15)
        a = dict(d=u(1.5, 2.2), b=u(.3, .5), t=t, r=u(.04, .08), n_r=n_r)
    else:
        raise KeyError(k)
    a = {kk: (float(v) if isinstance(v, (float, np.floating)) else v) for kk, v in a.items()}
    return k, a, getattr(lib, k)(**a, material=material), s


# ---------------------------------------------------------------------------------------------------------- zoo

HOMOG = ["rpoly", "rectil", "holes", "lib", "libasym", "quad"]
COMP = ["strips", "inset", "stack", "conc", "filled", "samecut", "onemat"]
DISJ = ["disjoint", "disjoint_c"]


def zoo(rng, kind, scale=None, far=None, ratio=None) -> Sec:
    sec = _zoo(rng, kind, scale, far, ratio)
    if len(sec.regions) > 1 and rng.random() < .25:
        # the same values held by distinct (equal) material objects
        for q in sec.geom.geoms:
            q.material = dataclasses.replace(q.material)
        sec.regions = [(dataclasses.replace(m), p) for m, p in sec.regions]
    return sec


def _zoo(rng, kind, scale=None, far=None, ratio=None) -> Sec:
    if kind == "quad":
        w, h = rng.uniform(.3, 2, 2)
        polys, s = place(rng, [box(0, 0, w, h)], scale, far)
        return from_polys(kind, [DEFAULT_MATERIAL], polys, s)
    if kind == "rpoly":
        polys, s = place(rng, [Polygon(star_ring(rng))], scale, far)
        p = polys[0]
        return from_polys(kind, [DEFAULT_MATERIAL], [p], s)
    if kind == "rectil":
        polys, s = place(rng, [rectilinear(rng)], scale, far, rotate=bool(rng.integers(2)))
        return from_polys(kind, [DEFAULT_MATERIAL], polys, s)
    if kind == "holes":
        polys, s = place(rng, [poly_with_holes(rng)], scale, far)
        return from_polys(kind, [DEFAULT_MATERIAL], polys, s)
    if kind in ("lib", "libasym"):
        which = None if kind == "lib" else str(rng.choice(["angle_section", "channel_section", "zed_section", "cee_section", "mono_i_section", "tee_section", "bulb_section"]))
        k, a, g, s = lib_shape(rng, which, s=scale)
        if kind == "libasym":
            g = g.rotate_section(float(rng.uniform(-180, 180)))
        f = far if far is not None else float(rng.choice([0, 1, 5]))
        dx, dy = rng.uniform(-1, 1, 2) * s * f
        g = g.shift_section(float(dx), float(dy))
        return Sec(f"{kind}:{k}", g, [(DEFAULT_MATERIAL, p) for p in O.polys_of(g.geom)], True, s, dict(args=a))
    if kind == "onemat":
        base = zoo(rng, str(rng.choice(["rpoly", "holes", "rectil"])), scale, far)
        m = rmats(rng, 1)[0]
        return from_polys(kind, [m], [p for _, p in base.regions], base.L)
    if kind in ("strips", "samecut"):
        base = Polygon(star_ring(rng, int(rng.integers(4, 9)), 1.0, .4)) if rng.integers(2) else poly_with_holes(rng, 1)
        k = int(rng.integers(1, 4))
        cuts = np.sort(rng.uniform(-.5, .5, k))
        polys = [base]
        for c in cuts:
            line = LineString([(-5, c), (5, c)])
            nxt = []
            for p in polys:
                nxt += [q for q in shp_split(p, line).geoms if isinstance(q, Polygon)]
            polys = nxt
        if min(p.area for p in polys) < 0.02 or len(polys) > 7 or len(polys) < 2:
            return zoo(rng, kind, scale, far, ratio)
        if kind == "samecut":
            m = rmats(rng, 1)[0] if rng.integers(2) else DEFAULT_MATERIAL
            mats = [m] * len(polys)
        else:
            pool = rmats(rng, int(rng.integers(2, 4)), ratio)
            mats = [pool[int(rng.integers(len(pool)))] for _ in polys]
            mats[0], mats[-1] = pool[0], pool[1]
        polys, s = place(rng, polys, scale, far)
        if not all(p.is_valid and p.area > 0 for p in polys) or not _conforming(polys):
            return zoo(rng, kind, scale, far, ratio)
        return from_polys(kind, mats, polys, s)
    if kind == "inset":
        base = poly_with_holes(rng, int(rng.integers(1, 4)))
        inner = [Polygon(r) for r in base.interiors]
        if not inner:
            return zoo(rng, kind, scale, far, ratio)
        pool = rmats(rng, 1 + len(inner), ratio)
        polys, mats = [base], [pool[0]]
        for k, q in enumerate(inner):
            if k > 0 and rng.random() < .3:
                continue        # leave a real hole
            polys.append(Polygon(q.exterior.coords[::-1]))
            mats.append(pool[1 + k])
        polys, s = place(rng, polys, scale, far)
        order = rng.permutation(len(polys))
        return from_polys(kind, [mats[i] for i in order], [polys[i] for i in order], s)
    if kind in ("stack", "stackc"):
        k = int(rng.integers(2, 5))
        y, polys = 0.0, []
        for _ in range(k):
            h, w, x0 = rng.uniform(.2, .8), rng.uniform(.5, 1.5), rng.uniform(0, .3)
            y1 = round(y + h, 3)
            polys.append(box(round(x0, 3), y, round(x0 + w, 3), y1))
            y = y1
        if kind == "stackc":          # shared vertices wherever two parts meet
            polys = node_stack(polys)
        polys, s = place(rng, polys, scale, far, rotate=(kind == "stackc"))
        pool = rmats(rng, k, ratio)
        mats = [pool[i] for i in rng.permutation(k)]
        if rng.random() < .4 and k > 2:
            mats[-1] = mats[0]
        return from_polys(kind, mats, polys, s)
    if kind == "conc":
        s = scale if scale is not None else float(10 ** rng.uniform(-1, 2.5))
        pool = rmats(rng, 2, ratio)
        d, b = float(np.round(rng.uniform(.6, 1.5), 3)) * s, float(np.round(rng.uniform(.5, 1), 3)) * s
        g = lib.concrete_rectangular_section(
            d=d, b=b, dia_top=.06 * s, area_top=.003 * s * s, n_top=int(rng.integers(1, 4)), c_top=.05 * s,
            dia_bot=.08 * s, area_bot=.005 * s * s, n_bot=int(rng.integers(2, 5)), c_bot=.06 * s, n_circle=int(rng.integers(4, 9)),
            conc_mat=pool[0], steel_mat=pool[1])
        f = far if far is not None else float(rng.choice([0, 1, 5]))
        dx, dy = rng.uniform(-1, 1, 2) * s * f
        g = g.shift_section(float(dx), float(dy))
        if rng.integers(2):
            g = g.rotate_section(float(rng.uniform(-90, 90)))
        return Sec("conc", g, [(q.material, p) for q in g.geoms for p in O.polys_of(q.geom)], True, s)
    if kind == "filled":
        s = scale if scale is not None else float(10 ** rng.uniform(-1, 2.5))
        w, h, t = rng.uniform(.8, 1.5), rng.uniform(.8, 1.5), rng.uniform(.06, .15)
        outer = box(0, 0, w, h)
        inner = box(t, t * 1.2, w - t * .8, h - t)
        polys, s = place(rng, [Polygon(outer.exterior.coords, [inner.exterior.coords]), inner], s, far)
        return from_polys(kind, rmats(rng, 2, ratio), polys, s)
    if kind in ("disjoint", "disjoint_c"):
        k = int(rng.integers(2, 4))
        polys, x = [], 0.0
        for _ in range(k):
            p = Polygon(star_ring(rng, None, float(rng.uniform(.5, 1))))
            p = affinity.translate(p, x - p.bounds[0], float(rng.uniform(-.5, .5)))
            x = p.bounds[2] + float(rng.uniform(.1, .6))
            polys.append(p)
        polys, s = place(rng, polys, scale, far)
        mats = [DEFAULT_MATERIAL] * k if kind == "disjoint" else rmats(rng, k, ratio)
        return from_polys(kind, mats, polys, s, connected=False)
    raise KeyError(kind)


def node_stack(polys):
    """Insert each other's corner points into touching rectangles (conforming interfaces)."""
    out = []
    for i, p in enumerate(polys):
        x0, y0, x1, y1 = p.bounds
        low = {x0, x1} | ({x for x in (polys[i - 1].bounds[0], polys[i - 1].bounds[2]) if x0 < x < x1} if i else set())
        top = {x0, x1} | ({x for x in (polys[i + 1].bounds[0], polys[i + 1].bounds[2]) if x0 < x < x1} if i + 1 < len(polys) else set())
        out.append(Polygon([(x, y0) for x in sorted(low)] + [(x, y1) for x in sorted(top, reverse=True)]))
    return out


def _conforming(polys):
    """After rounding, no two regions may overlap by more than rounding and shared vertices must coincide."""
    for i, p in enumerate(polys):
        for q in polys[:i]:
            if p.intersection(q).area > 1e-5 * min(p.area, q.area):
                return False
    # T-junctions: vertices of one polygon lying strictly inside another's edge (not at its vertices) break exact fit
    for i, p in enumerate(polys):
        for j, q in enumerate(polys):
            if i == j:
                continue
            vq = {tuple(c) for r in [q.exterior, *q.interiors] for c in r.coords}
            for r in [p.exterior, *p.interiors]:
                for c in r.coords:
                    if tuple(c) not in vq:
                        d = q.boundary.distance(Point(c))
                        if d < 1e-4 * math.sqrt(p.area):
                            return False
    return True


def rload(rng, kinds=None, scale=1.0):
    """A random load case (dict of calculate_stress arguments)."""
    names = ["n", "vx", "vy", "mxx", "myy", "m11", "m22", "mzz"]
    out = {}
    for k in names:
        if rng.random() < .6:
            out[k] = float(f"{rng.uniform(-1, 1) * 10 ** rng.uniform(-1, 2):.4g}") * scale
    if rng.random() < .15:            # equal and opposite actions
        k = float(10.0 ** rng.integers(-1, 3)) * scale
        out = {n: float(np.sign(v) or 1) * k for n, v in out.items()}
    if not out:
        out["mxx"] = 1.0 * scale
    return out


def make_section(sec: Sec, n_el=120, angle=30, coarse=False, time_info=False, sizes=None):
    from sectionproperties.analysis import Section
    sec.mesh(n_el, angle, coarse, sizes)
    return Section(sec.geom, time_info=time_info)
