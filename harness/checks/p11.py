"""P11: plastic neutral axes, plastic centroids, moduli/moments, shape factors vs exact half-plane clipping of the regions."""
import contextlib
import io
import math

import numpy as np
from shapely import affinity

from harness import gens as G
from harness import oracles as O
from harness import props as PR
from sectionproperties.analysis import Section
from sectionproperties.pre import CompoundGeometry, Geometry

KINDS = G.HOMOG + G.COMP + ["stackc"] + G.DISJ
CASES = {"quick": {**{k: 10 for k in KINDS}, "thin": 12, "symmetric": 12}, "thorough": {**{k: 160 for k in KINDS}, "thin": 150, "symmetric": 150}}
FLOORS = {"axis": 500, "modulus": 500, "shape-factor": 700, "position": 300, "unaltered": 500}
RULE = "random sections x strengths; axes found independently by clipping the regions; repeated with another mesh, another position, and verbosely"
ASSUMPTIONS = ["section sizes are at least 0.02 length units (the documented search tolerance is 1e-6 absolute)"]


def symmetric(rng):
    """doubly symmetric I of rectangles: the force is even about the centroid, so the search starts at a root or a plateau"""
    from shapely.geometry import box
    b, h, tf, tw = float(rng.uniform(.5, 1.5)), float(rng.uniform(.6, 2)), float(rng.uniform(.05, .2)), float(rng.uniform(.04, .2))
    v = [(-b / 2, 0), (b / 2, 0), (b / 2, tf), (tw / 2, tf), (tw / 2, h - tf), (b / 2, h - tf), (b / 2, h), (-b / 2, h), (-b / 2, h - tf), (-tw / 2, h - tf), (-tw / 2, tf), (-b / 2, tf)]
    from shapely.geometry import Polygon
    s = float(10 ** rng.uniform(-1, 2.7))
    polys, s = G.place(rng, [Polygon(v)], s, rotate=bool(rng.integers(2)))
    return G.from_polys("symmetric", [G.DEFAULT_MATERIAL], polys, s)


def thin(rng):
    from shapely.geometry import Polygon, LineString
    s = float(10 ** rng.uniform(0, 2.7))
    # an open polyline with thickness
    n = int(rng.integers(3, 6))
    ang = np.cumsum(rng.uniform(-1.1, 1.1, n))
    pts = np.concatenate([[[0, 0]], np.cumsum(np.stack([np.cos(ang), np.sin(ang)], 1) * rng.uniform(.4, 1, (n, 1)), axis=0)])
    p = LineString(pts).buffer(float(rng.uniform(.01, .03)), cap_style="flat", join_style="mitre")
    if p.geom_type != "Polygon" or len(p.interiors):
        p = LineString(pts[:3]).buffer(.02, cap_style="flat", join_style="mitre")
    polys, s = G.place(rng, [p], s)
    return G.from_polys("thin", [G.DEFAULT_MATERIAL], polys, s)


def analysed(sec, n_el, plastic=True, verbose=False):
    sec.mesh(n_el)
    s = Section(sec.geom)
    s.calculate_geometric_properties()
    if plastic:
        s.calculate_plastic_properties(verbose=verbose)
    return s


def moved(sec, d):
    regs = [(m, affinity.translate(p, float(d[0]), float(d[1]))) for m, p in sec.regions]
    gg = [Geometry(p, m) for m, p in regs]
    return G.Sec(sec.name, gg[0] if len(gg) == 1 else CompoundGeometry(gg), regs, sec.connected, sec.L)


def state(sec, s):
    gs = getattr(sec.geom, "geoms", [sec.geom])
    return ([q.geom.wkb_hex for q in gs], [q.material for q in gs], [list(q.points) for q in gs], list(sec.geom.points), list(sec.geom.facets), list(sec.geom.holes),
            list(sec.geom.control_points), s.mesh_nodes.tobytes(), s.mesh_elements.tobytes(), tuple(sorted(PR.geo(s).items())), [e.coords.tobytes() for e in s.elements])


def run(ctx, case):
    rng = ctx.rng
    k = case["kind"]
    sec = thin(rng) if k == "thin" else symmetric(rng) if k == "symmetric" else G.zoo(rng, k, ratio=None)
    s = analysed(sec, int(rng.choice([20, 60])), plastic=False)
    before = state(sec, s)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        s.calculate_plastic_properties(verbose=bool(case["i"] % 3 == 0))
    after = state(sec, s)
    for nm, a, b in zip(("polygons", "materials", "points", "all-points", "facets", "holes", "control-points", "nodes", "elements", "results", "coords"), before, after):
        ctx.check(a == b, f"unaltered/{nm}", f"{sec.name}: plastic analysis changed the section's {nm}", cls="unaltered")
    comp = sec.composite
    regs = [(m.yield_strength if comp else 1.0, ext, holes) for (m, _), (_, ext, holes) in zip(sec.regions, sec.rings())]
    o = np.array(s.get_c())
    regs = [(w, np.asarray(e) - o, [np.asarray(h) - o for h in hs]) for w, e, hs in regs]
    p = PR.plas(s)
    phi = s.get_phi()
    z = PR.geo(s)
    L = max(np.ptp(np.concatenate([e for _, e, _ in regs]), axis=0))
    atol = 4e-6 + 5e-6 * L
    exp = {}
    pcs = {"x": (p["x_pc"], p["y_pc"]), "p": (p["x11_pc"], p["y22_pc"])}
    for ax, th, key, names in (("xx", 0.0, "x", "sxx"), ("yy", -math.pi / 2, "x", "syy"), ("11", math.radians(phi), "p", "s11"), ("22", math.radians(phi) - math.pi / 2, "p", "s22")):
        c, lo, hi, nrm = O.plastic_axis(regs, th)
        m, top, bot = O.plastic_moment(regs, nrm, c)
        got = float(nrm @ (np.array(pcs[key]) - o))
        ctx.check(lo - atol <= got <= hi + atol, f"axis/{ax}", lambda: f"{sec.name}: {ax} axis offset {got} from the centroid, the equal-force axis is at [{lo}, {hi}] (tol {atol:.2g})", cls="axis")
        # the reported axis itself: equal forces on both sides, to what the position tolerance can change
        t = O.side_moments(regs, nrm, got)[0]
        total = sum(w * O.poly_moments(e, h)[0] for w, e, h in regs)
        slack = abs(O.side_moments(regs, nrm, got + atol)[0] - O.side_moments(regs, nrm, got - atol)[0]) + 1e-7 * total
        ctx.check(abs(2 * t - total) <= 2 * slack, f"axis/equal-force-{ax}", lambda: f"{sec.name}: forces {t} and {total - t} on the two sides of the {ax} axis", cls="axis")
        ctx.close(p[names], m, f"modulus/{names}", 3e-6, cls="modulus", msg=f"{sec.name}: {names}")
        exp[names] = m
    # shape factors
    if comp:
        q = {a: z[b] for a, b in (("xx_plus", "my_xx"), ("xx_minus", "my_xx"), ("yy_plus", "my_yy"), ("yy_minus", "my_yy"), ("11_plus", "my_11"), ("11_minus", "my_11"), ("22_plus", "my_22"), ("22_minus", "my_22"))}
    else:
        q = {f"{a}_{sg}": z[f"z{a}_{sg}"] for a in ("xx", "yy", "11", "22") for sg in ("plus", "minus")}
    for a, zz in q.items():
        ctx.close(p[f"sf_{a}"], p["s" + a.split("_")[0]] / zz, f"shape-factor/{a}", 1e-12, cls="shape-factor", msg=f"{sec.name}: shape factor {a}")
    if not comp:
        # the elastic distribution reaching yield at the governing (smaller-modulus) fibre is admissible, so S >= min(z); the other side's quotient may be below one
        for a in ("xx", "yy", "11", "22"):
            f = max(p[f"sf_{a}_plus"], p[f"sf_{a}_minus"])
            ctx.check(f >= 1 - 1e-6, "shape-factor/one", f"{sec.name}: governing shape factor {a} = {f} < 1", cls="shape-factor")
    # another mesh, verbosely; and another position
    with contextlib.redirect_stdout(io.StringIO()):
        s2 = analysed(sec, 140, verbose=bool(rng.integers(2)))
        d = rng.uniform(-10, 10, 2) * sec.L
        s3 = analysed(moved(sec, d), 30)
    p2, p3 = PR.plas(s2), PR.plas(s3)
    for nm in ("sxx", "syy", "s11", "s22"):
        ctx.close(p2[nm], p[nm], f"position/mesh-{nm}", 1e-5, cls="position", msg=f"{sec.name}: {nm} with another mesh")
    if abs(z["i11_c"] - z["i22_c"]) > 1e-5 * z["i11_c"] and abs((s3.get_phi() - phi + 90) % 180 - 90) < 1e-6:
        names = ("sxx", "syy", "s11", "s22")
    else:
        names = ("sxx", "syy")
    for nm in names:
        ctx.close(p3[nm], p[nm], f"position/moved-{nm}", 1e-5, cls="position", msg=f"{sec.name}: {nm} after moving by {d}")
    ctx.signature(sec.name, tuple(round(v, 9) for v in exp.values()))
    ctx.note(section=sec.name, composite=comp, expected=exp, pc=pcs)
