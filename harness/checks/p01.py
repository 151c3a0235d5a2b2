"""P01: geometric integrals are exact (Green's theorem oracle) and mesh independent."""
import math

import numpy as np

from harness import gens as G
from harness import oracles as O
from harness import props as R

CASES = {"quick": {k: 28 for k in G.HOMOG + G.COMP + G.DISJ}, "thorough": {k: 500 for k in G.HOMOG + G.COMP + G.DISJ}}
FLOORS = {"integral": 3000, "mesh-independence": 3000, "perimeter": 300}
RULE = ("random polygonal sections (library shapes, star/rectilinear polygons, holes, composite partitions, disjoint parts) in random units and "
        "positions, each meshed three ways; non-trivial = analysed and compared with exact integrals of the generating rings")
ASSUMPTIONS = ["straight-sided region boundaries", "the library's 12-decimal vertex rounding is within tolerance"]


def expected(sec):
    comp = sec.composite
    e = (lambda m: m.elastic_modulus) if comp else (lambda m: 1.0)
    m1, me = sec.moments(), sec.moments(e)
    d = dict(area=m1[0], ea=me[0], qx=me[1], qy=me[2], ixx_g=me[3], iyy_g=me[4], ixy_g=me[5])
    if comp:
        d["mass"] = sec.moments(lambda m: m.density)[0]
    pts = np.concatenate([np.concatenate([r for r in [ext, *h]]) for _, ext, h in sec.rings()])
    r = np.abs(pts).max()
    ea = me[0]
    scale = dict(area=m1[0], ea=ea, qx=ea * r, qy=ea * r, ixx_g=ea * r * r, iyy_g=ea * r * r, ixy_g=ea * r * r)
    if comp:
        scale["mass"] = d["mass"]
    return d, scale, r


def run(ctx, case):
    rng = ctx.rng
    sec = G.zoo(rng, case["kind"], far=None if rng.random() < .85 else 300.0)
    exp, scale, r = expected(sec)
    size = math.sqrt(exp["area"])
    # vertex rounding (1e-12 absolute) and coordinate rounding of far-away sections
    rel = 1e-10 + 40 * (1e-12 + 1e-15 * r) / size
    got_all = []
    confs = [dict(n_el=int(rng.integers(20, 200)), angle=30, coarse=False), dict(n_el=int(rng.integers(1, 15)), angle=float(rng.choice([0, 10, 20])), coarse=True),
             dict(n_el=int(rng.integers(200, 400)), angle=float(rng.choice([25, 33])), coarse=False)]
    for cf in confs:
        if cf["n_el"] > 199 and len(sec.regions) > 1 and rng.random() < .5:
            a = sec.area() / 100
            cf["sizes"] = [float(a * rng.uniform(.2, 3)) for _ in sec.regions]
        s = G.make_section(sec, **cf)
        s.calculate_geometric_properties()
        got = R.geo(s)
        got_all.append(got)
        if sec.composite and rng.random() < .5:
            eref = float(rng.uniform(.5, 1e3))
            ctx.close(s.get_ea(e_ref=eref), got["ea"] / eref, "eref/ea", 1e-12)
            ctx.close(s.get_eq(e_ref=eref), np.array([got["qx"], got["qy"]]) / eref, "eref/eq", 1e-12)
            m = sec.regions[0][0]
            ctx.close(s.get_eig(e_ref=m), np.array([got["ixx_g"], got["iyy_g"], got["ixy_g"]]) / m.elastic_modulus, "eref/eig", 1e-12)
        for k in exp:
            ctx.close(got[k], exp[k], f"integral/{k}", rel, scale=scale[k], cls="integral", msg=f"{sec.name} {cf}")
        # perimeter: exterior outline of the union
        u = sec.union()
        if u.geom_type == "Polygon":
            ctx.close(got["perimeter"], u.exterior.length, "perimeter/outline", 1e-7, cls="perimeter", msg=sec.name)
        elif not sec.connected:
            ctx.check(got["perimeter"] == -1, "perimeter/disjoint", lambda: f"perimeter of disjoint section {got['perimeter']}", cls="perimeter")
    for other in got_all[1:]:
        for k in exp:
            ctx.close(other[k], got_all[0][k], f"mesh-independence/{k}", 1e-10 + 4e-15 * r / size, scale=scale[k], cls="mesh-independence", msg=sec.name)
    ctx.signature(case["kind"], round(exp["area"], 12), round(exp["ixy_g"], 12), len(sec.regions))
    ctx.note(section=sec.name, regions=len(sec.regions), area=exp["area"], size=size, offset=r)
