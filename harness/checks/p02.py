"""P02: derived geometric properties are the standard functions of the integrals and the outline."""
import math

import numpy as np
from shapely.geometry import box, Polygon

from harness import gens as G
from harness import oracles as O
from harness import props as R
from sectionproperties.pre.pre import DEFAULT_MATERIAL

KINDS = G.HOMOG + G.COMP + G.DISJ + ["ties", "plates"]
CASES = {"quick": {k: 30 for k in KINDS} | {"plates": 60}, "thorough": {k: 700 for k in KINDS} | {"plates": 900}}
FLOORS = {"centroid": 700, "central": 1000, "principal": 1500, "modulus": 3000, "radius": 1500, "eref": 500}
RULE = ("random sections of every kind plus sections with coinciding/tied/axis-swapped principal axes; every derived result recomputed "
        "exactly from the generating rings and from the reported integrals")
ASSUMPTIONS = ["extreme fibres are those of the straight-sided outline"]


def ties(rng):
    k = int(rng.integers(6))
    s = float(10 ** rng.uniform(-1, 2.5))
    a = float(rng.uniform(.3, 2))
    if k == 0:
        p = box(0, 0, a, a)
    elif k == 1:
        p = box(0, 0, a, a * float(rng.uniform(.2, .9)))      # major axis vertical-free: iyy > ixx, ixy = 0
    elif k == 2:
        n = int(rng.integers(3, 9))
        p = Polygon([(a * math.cos(2 * math.pi * i / n), a * math.sin(2 * math.pi * i / n)) for i in range(n)])
    elif k == 3:                                                # equal angle: 45 degrees
        t = a * .15
        p = Polygon([(0, 0), (a, 0), (a, t), (t, t), (t, a), (0, a)])
    elif k == 4:                                                # square with a slight defect: nearly tied
        p = Polygon([(0, 0), (a, 0), (a, a * (1 + 10 ** float(rng.uniform(-5, -2)))), (0, a)])
    else:                                                       # rectangle turned by a multiple of 15 degrees
        p = box(0, 0, a, a * float(rng.uniform(.2, 3)))
        from shapely import affinity
        p = affinity.rotate(p, 15 * int(rng.integers(-12, 13)))
    polys, s = G.place(rng, [p], s, float(rng.choice([0, 1])), rotate=False)
    mat = DEFAULT_MATERIAL if rng.integers(2) else G.rmats(rng, 1)[0]
    return G.from_polys(f"ties{k}", [mat], polys, s)


def plates(rng):
    """layers of very unequal thickness, width and modulus: the centroid may lie very close to one side"""
    n = int(rng.integers(2, 5))
    t = 10 ** rng.uniform(-1.7, 0, n)
    w = 10 ** rng.uniform(-1.2, .3, n)
    y, polys, x = 0.0, [], 0.0
    for k in range(n):
        x0 = float(np.round(x - w[k] / 2 + (rng.uniform(-.3, .3) * w[k] if k else 0), 4))
        polys.append(box(x0, round(y, 4), x0 + round(float(w[k]), 4), round(y + float(t[k]), 4)))
        y = round(y + float(t[k]), 4)
    polys, s = G.place(rng, G.node_stack(polys), float(10 ** rng.uniform(-1, 2.7)), float(rng.choice([0, 1])), rotate=bool(rng.integers(2)))
    mats = G.rmats(rng, n, 1e4)
    if rng.integers(2):                      # the thinnest layer is the stiffest
        stiff = max(mats, key=lambda m: m.elastic_modulus)
        mats.remove(stiff)
        mats.insert(int(np.argmin(t)), stiff)
    return G.from_polys("plates", mats, polys, s)


def run(ctx, case):
    rng = ctx.rng
    sec = ties(rng) if case["kind"] == "ties" else plates(rng) if case["kind"] == "plates" else G.zoo(rng, case["kind"])
    comp = sec.composite
    s = G.make_section(sec, *((int(rng.integers(10, 120)),) if rng.random() < .75 else (1, 0, True)))
    s.calculate_geometric_properties()
    g = R.geo(s)
    E = (lambda m: m.elastic_modulus) if comp else (lambda m: 1.0)
    # move the exact integrals to a local origin: the oracle must not lose digits far from the origin
    pts = np.concatenate([np.concatenate([r for r in [ext, *h]]) for _, ext, h in sec.rings()])
    o = pts.mean(axis=0)
    m = sum((E(mat) * O.poly_moments(*[x if not isinstance(x, list) else [y - o for y in x] for x in (O.rings_of(p)[0] - o, O.rings_of(p)[1])])
             for mat, p in sec.regions), np.zeros(6))
    ea, cx, cy, ixx, iyy, ixy = O.centroidal(m)
    cx, cy = cx + o[0], cy + o[1]
    r = np.abs(pts).max()
    size = math.sqrt(sec.area())
    D = np.ptp(pts, axis=0).max()
    vtx = 40 * 1e-12 / size                                  # library vertex rounding
    loss = 1e-13 * (r / size) ** 2                           # parallel-axis cancellation
    rel = 1e-9 + vtx + 20 * loss
    name = sec.name
    ctx.close([g["cx"], g["cy"]], [cx, cy], "centroid/exact", rel, scale=r, cls="centroid", msg=name)
    ctx.close([g["cx"], g["cy"]], [g["qy"] / g["ea"], g["qx"] / g["ea"]], "centroid/quotient", 1e-12, scale=r, cls="centroid", msg=name)
    imax = ixx + iyy
    ctx.close([g["ixx_c"], g["iyy_c"], g["ixy_c"]], [ixx, iyy, ixy], "central/exact", rel, scale=imax, cls="central", msg=name)
    par = [g["ixx_g"] - g["qx"] ** 2 / g["ea"], g["iyy_g"] - g["qy"] ** 2 / g["ea"], g["ixy_g"] - g["qx"] * g["qy"] / g["ea"]]
    ctx.close([g["ixx_c"], g["iyy_c"], g["ixy_c"]], par, "central/parallel-axis", 1e-10 + 1e2 * loss, scale=imax, cls="central", msg=name)
    # principal axes
    i11, i22 = O.principal(ixx, iyy, ixy)
    ctx.close([g["i11_c"], g["i22_c"]], [i11, i22], "principal/values", rel * 2, scale=imax, cls="principal", msg=name)
    ctx.check(g["i11_c"] >= g["i22_c"] * (1 - 1e-12), "principal/order", lambda: f"{name}: i11 {g['i11_c']} < i22 {g['i22_c']}", cls="principal")
    t = math.radians(g["phi"])
    c, sn = math.cos(t), math.sin(t)
    I11 = ixx * c * c + iyy * sn * sn - 2 * ixy * sn * c
    I22 = ixx * sn * sn + iyy * c * c + 2 * ixy * sn * c
    I12 = (ixx - iyy) * sn * c + ixy * (c * c - sn * sn)
    tol_axis = 3e-6 if abs(ixy) < 1e-4 * imax else 1e-8 + rel
    ctx.close([I11, I22, I12], [i11, i22, 0.0], "principal/angle-diagonalises", tol_axis + 2 * rel, scale=imax, cls="principal", msg=f"{name} phi={g['phi']}")
    # moduli: extreme fibres of the outline
    y, x = pts[:, 1] - cy, pts[:, 0] - cx
    x11, y22 = x * c + y * sn, -x * sn + y * c
    relz = rel * 4 + 1e-10 * (r / size)
    want = dict(zxx_plus=ixx / y.max(), zxx_minus=ixx / -y.min(), zyy_plus=iyy / x.max(), zyy_minus=iyy / -x.min(),
                z11_plus=i11 / y22.max(), z11_minus=i11 / -y22.min(), z22_plus=i22 / x11.max(), z22_minus=i22 / -x11.min())
    near = abs(i11 - i22) < 1e-3 * imax
    for k, w in want.items():
        slack = 1e-5 if (near and k[1:3] in ("11", "22")) else 0.0
        # a thin section: relative error of the smaller second moment
        small = imax / max(min(ixx, iyy, i22), 1e-300)
        ctx.close(g[k], w, f"modulus/{k}", relz * small + slack, cls="modulus", msg=name)
    want = dict(rx=math.sqrt(ixx / ea), ry=math.sqrt(iyy / ea), r11=math.sqrt(i11 / ea), r22=math.sqrt(i22 / ea))
    for k, w in want.items():
        ctx.close(g[k], w, f"radius/{k}", rel * imax / i22, cls="radius", msg=name)
    if comp:
        a = sec.moments()[0]
        ga = sum(m_.elastic_modulus / (2 * (1 + m_.poissons_ratio)) * p.area for m_, p in sec.regions)
        ctx.close([g["e_eff"], g["g_eff"], g["nu_eff"]], [ea / a, ga / a, ea / (2 * ga) - 1], "effective", 1e-9 + vtx * 10, scale=[ea / a, ga / a, 1], msg=name)
        eref = G.rmat(rng) if rng.integers(2) else float(rng.uniform(.3, 2e5))
        k = eref if isinstance(eref, float) else eref.elastic_modulus
        ctx.close(s.get_eic(e_ref=eref), np.array([g["ixx_c"], g["iyy_c"], g["ixy_c"]]) / k, "eref/eic", 1e-12)
        ctx.close(s.get_eip(e_ref=eref), np.array([g["i11_c"], g["i22_c"]]) / k, "eref/eip", 1e-12)
        ctx.close(s.get_ez(e_ref=eref), np.array([g[z] for z in ("zxx_plus", "zxx_minus", "zyy_plus", "zyy_minus")]) / k, "eref/ez", 1e-12)
        ctx.close(s.get_ezp(e_ref=eref), np.array([g[z] for z in ("z11_plus", "z11_minus", "z22_plus", "z22_minus")]) / k, "eref/ezp", 1e-12)
    ctx.signature(case["kind"], round(ixy / imax, 12), round(i11 / imax, 12))
    ctx.note(section=name, phi=g["phi"], i11=i11, i22=i22, offset_over_size=r / size)
