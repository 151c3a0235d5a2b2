"""P06: shear centres, shear areas, monosymmetry constants vs an independent solve on the same mesh; symmetry consequences."""
import math

import numpy as np
from shapely import affinity
from shapely.geometry import box
from shapely.ops import unary_union

from harness import fe as F
from harness import gens as G
from harness import oracles as O
from harness import props as PR
from harness.common import Skip
from sectionproperties.analysis import Section
from sectionproperties.pre import Geometry, CompoundGeometry

KINDS = G.HOMOG + ["strips", "inset", "stackc", "conc", "filled", "samecut", "onemat"]
SYM = ["sym1", "sym2", "sym1c", "sym2c"]
CASES = {"quick": {**{k: 14 for k in KINDS}, **{k: 12 for k in SYM}, "closed": 12},
         "thorough": {**{k: 260 for k in KINDS}, **{k: 150 for k in SYM}, "closed": 120}}
FLOORS = {"sc": 900, "as": 900, "beta": 2500, "symmetry": 200, "bound": 500, "closed": 20}
RULE = "random meshes of zoo sections: reported shear centres/areas/monosymmetry constants vs an independent P2 solve; symmetric shapes"


def expected(ref, phi):
    """All P06 results from the reference solve; phi = reported principal angle (deg)."""
    ex, q4 = ref.ints_exact, ref.ints_4
    c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    rotp = lambda x, y: (x * c + y * s, -x * s + y * c)   # noqa: E731
    out, tol = {}, {}
    L = math.sqrt(ref.area)
    out["x_se"], out["y_se"] = ref.x_se, ref.y_se
    out["x11_se"], out["y22_se"] = rotp(ref.x_se, ref.y_se)
    tsc = 1e-9 * max(L, ref.sc_scale)
    for k in ("x_se", "y_se", "x11_se", "y22_se"):
        tol[k] = tsc
    out["x_st"], out["y_st"] = ex["x_t"], ex["y_t"]
    st = max(abs(ex["i_xomega"]), abs(ex["i_yomega"]))
    tol["x_st"] = tol["y_st"] = 1e-9 * max(L, ref.sc_scale)
    k2 = {}
    for nm, d in (("ex", ex), ("q4", q4)):
        K = np.array([[d["kx"], d["kxy"]], [d["kxy"], d["ky"]]])
        R = np.array([[c, s], [-s, c]])
        Kp = R @ K @ R.T
        # the shear area of a composite section is modulus weighted: V^2 / (2U) in the same units as EA
        k2[nm] = (ref.delta_s ** 2 / K[0, 0], ref.delta_s ** 2 / K[1, 1], ref.delta_s ** 2 / Kp[0, 0], ref.delta_s ** 2 / Kp[1, 1])
    # the coupling term is only exposed as section_props.a_sxy; its reciprocal is compared, the area itself may be infinite
    sc = ref.delta_s ** -2 * math.sqrt(ex["kx"] * ex["ky"])
    out["1/a_sxy"] = ex["kxy"] / ref.delta_s ** 2
    tol["1/a_sxy"] = 3 * max(abs(ex[k] - q4[k]) for k in ("kx", "ky", "kxy")) / ref.delta_s ** 2 + 1e-9 * sc
    for i, k in enumerate(("a_sx", "a_sy", "a_s11", "a_s22")):
        out[k] = k2["ex"][i]
        tol[k] = 3 * abs(k2["ex"][i] - k2["q4"][i]) + 1e-9 * abs(k2["ex"][i])
    # monosymmetry: third moments about centroid
    xq, W, _, _ = ref.m.quad(O.tri_rule(4), origin=ref.c)
    We = W * ref.e[:, None]
    x, y = xq[:, :, 0], xq[:, :, 1]
    u, v = rotp(x, y)

    def beta(a, b, i, sc):
        """a: coordinate along the bending axis, b: normal to it"""
        return -(We * (a * a * b + b ** 3)).sum() / i + 2 * sc
    i11 = (We * v * v).sum()
    i22 = (We * u * u).sum()
    bx, by = beta(x, y, ref.ixx, ref.y_se), beta(y, x, ref.iyy, ref.x_se)
    b1, b2 = beta(u, v, i11, out["y22_se"]), beta(v, u, i22, out["x11_se"])
    for n, b, i in (("x", bx, ref.ixx), ("y", by, ref.iyy), ("11", b1, i11), ("22", b2, i22)):
        out[f"beta_{n}_plus"], out[f"beta_{n}_minus"] = b, -b
        t = 1e-9 * (max(L, ref.sc_scale) + ex["sabs"] / i)
        tol[f"beta_{n}_plus"] = tol[f"beta_{n}_minus"] = t
    return out, tol


def monitor(ctx, sec, s, ref, w):
    name = sec.name
    exp, tol = expected(ref, s.get_phi())
    # the user-axes results of get_sc / get_sc_t are in global coordinates
    for k in ("x_se", "x_st"):
        exp[k] += ref.c[0]
    for k in ("y_se", "y_st"):
        exp[k] += ref.c[1]
    fuzz = 1e-14 * (abs(ref.c[0]) + abs(ref.c[1]))
    # for (nearly) equal principal moments the principal directions are numerically free, but the reported angle is used throughout
    sxy = s.section_props.a_sxy
    w = {**w, "1/a_sxy": 1 / sxy if sxy else math.inf}
    for k, v in exp.items():
        cls = "beta" if k.startswith("beta") else "as" if "a_" in k[:4] else "sc"
        ctx.close(w[k], v, f"{cls}/{k}", 0.0, atol=tol[k] + fuzz * (3 if cls != "as" else 0), cls=cls, msg=f"{name}: {k}")
    full = ref.ea
    for k in ("a_sx", "a_sy", "a_s11", "a_s22"):
        ctx.check(0 < w[k] <= full * (1 + 1e-6), "bound/shear-area", lambda: f"{name}: {k} = {w[k]} > total {full}", cls="bound")
    for a in ("x", "y", "11", "22"):
        ctx.check(w[f"beta_{a}_plus"] == -w[f"beta_{a}_minus"], "beta/opposite", f"{name}: beta_{a}", cls="beta")
    if not sec.composite:
        # at zero Poisson's ratio the two shear centres coincide, on any mesh
        t = 1e-8 * max(math.sqrt(ref.area), ref.sc_scale) + fuzz
        ctx.close([w["x_se"], w["y_se"]], [w["x_st"], w["y_st"]], "sc/coincide", 0, atol=t, cls="sc", msg=f"{name}: elasticity vs Trefftz")


def analysed(sec):
    s = Section(sec.geom)
    s.calculate_geometric_properties()
    s.calculate_warping_properties()
    return s


def symmetric(ctx, kind):
    """Shapes symmetric about the x axis (and y axis), placed with a general rotation; the mesh is not symmetric."""
    rng = ctx.rng
    comp = kind.endswith("c")
    half = []
    y = 0.0
    for _ in range(int(rng.integers(2, 5))):
        h = float(round(rng.uniform(.1, .6), 3))
        x1 = float(round(rng.uniform(.2, 1.2), 3))
        x0 = -x1 if kind.startswith("sym2") else float(round(-rng.uniform(.05, 1.0), 3))
        half.append(box(x0, y, x1, y + h))
        y += h
    if rng.random() < .4:
        # a hole symmetric about the axis
        half[0] = half[0].difference(box(-.04, 0, .04, min(.05, half[0].bounds[3] * .5)))
    full = unary_union(half + [affinity.scale(p, 1, -1, origin=(0, 0)) for p in half])
    if full.geom_type != "Polygon":
        raise Skip("not one polygon")
    if comp:
        # an outer band (whole width of the top and bottom flats) of another material, symmetric too
        cut = y * .5
        core = full.intersection(box(-5, -cut, 5, cut))
        caps = [full.intersection(box(-5, cut, 5, 5)), full.intersection(box(-5, -5, 5, -cut))]
        parts = [core, *caps]
        if any(p.geom_type != "Polygon" for p in parts):
            raise Skip("split")
        mm = G.rmats(rng, 2, ratio=8)
        mats = [mm[0], mm[1], mm[1]]
    else:
        parts, mats = [full], [G.DEFAULT_MATERIAL]
    th = float(rng.uniform(-180, 180))
    s0 = float(10 ** rng.uniform(-1, 2.5))
    off = rng.uniform(-3, 3, 2) * s0
    R = O.rot(th)
    tr = lambda p: affinity.affine_transform(p, [s0 * R[0, 0], s0 * R[0, 1], s0 * R[1, 0], s0 * R[1, 1], off[0], off[1]])   # noqa: E731
    sec = G.from_polys(kind, mats, [tr(p) for p in parts], s0)
    sec.mesh(int(rng.choice([300, 600])))
    s = analysed(sec)
    ref = F.reference(sec)
    w = PR.warp(s)
    monitor(ctx, sec, s, ref, w)
    # discretisation error bound: how much the result moves is measured against a symmetric expectation
    L = math.sqrt(ref.area)
    tol = 0.02 * L
    cx, cy = s.get_c()
    inv = np.linalg.inv(R)
    for nm, p in (("se", (w["x_se"], w["y_se"])), ("st", (w["x_st"], w["y_st"]))):
        d = inv @ (np.array(p) - off)      # symmetric about local x axis (through off)
        ctx.check(abs(d[1]) < tol, f"symmetry/{nm}", lambda: f"{sec.name}: shear centre {d} off the axis of symmetry (L={L:.3g})", cls="symmetry")
        if kind.startswith("sym2"):
            ctx.check(np.hypot(*(np.array(p) - [cx, cy])) < tol, f"symmetry/{nm}-double", lambda: f"{sec.name}: shear centre {p} vs centroid {(cx, cy)}", cls="symmetry")
    # local axes are principal: monosymmetry about the axis normal to the symmetry axis vanishes
    e1 = R @ np.array([1.0, 0])            # direction of the symmetry axis
    phi = math.radians(s.get_phi())
    along11 = abs(math.cos(phi) * e1[0] + math.sin(phi) * e1[1]) > .7071
    # bending about the symmetry axis itself: beta vanishes there
    z = "11" if along11 else "22"
    if abs(s.section_props.i11_c - s.section_props.i22_c) > 1e-3 * s.section_props.i11_c:
        ctx.check(abs(w[f"beta_{z}_plus"]) < tol * 4, "symmetry/beta", lambda: f"{sec.name}: beta_{z} = {w[f'beta_{z}_plus']} for symmetry about that axis, L={L:.3g}", cls="symmetry")
        if kind.startswith("sym2"):
            o = "22" if along11 else "11"
            ctx.check(abs(w[f"beta_{o}_plus"]) < tol * 4, "symmetry/beta", lambda: f"{sec.name}: beta_{o} = {w[f'beta_{o}_plus']}", cls="symmetry")
    ctx.signature(kind, round(ref.ixx, 9), len(ref.m.tris))
    ctx.note(section=sec.name, sc=[w["x_se"] - cx, w["y_se"] - cy], L=L)


def closed(ctx, i):
    """Closed forms: shear area 5/6 A for rectangles, 6/7 A for circles (nu = 0), thin channel/angle shear centre."""
    from sectionproperties.pre.library import rectangular_section, circular_section, channel_section, angle_section, circular_hollow_section
    rng = ctx.rng
    s0 = float(10 ** rng.uniform(-1, 2.5))
    u = lambda a, b: float(rng.uniform(a, b)) * s0   # noqa: E731
    k = i % 5
    if k == 0:
        b, d = u(.3, 2), u(.3, 2)
        g, area = rectangular_section(d=d, b=b), None
        want = (5 / 6, 5 / 6)
    elif k == 1:
        g, want = circular_section(d=u(.3, 2), n=96), (6 / 7, 6 / 7)
    elif k == 2:
        d = u(.5, 2)
        g, want = circular_hollow_section(d=d, t=d * .01, n=96), (.5, .5)
    elif k == 3:
        d, b = u(1, 2), u(.5, 1)
        t = .01 * b
        g, want = channel_section(d=d, b=b, t_f=t, t_w=t, r=0, n_r=1), None
    else:
        d, b = u(1, 2), u(.5, 1.9)
        t = .01 * b
        g, want = angle_section(d=d, b=b, t=t, r_r=0, r_t=0, n_r=1), None
    a = g.geom.area
    g.create_mesh([a / 700])
    s = Section(g)
    s.calculate_geometric_properties()
    s.calculate_warping_properties()
    ax, ay = s.get_as()
    if want:
        ctx.close([ax / a, ay / a], want, f"closed/shear-area-{k}", 6e-3, cls="closed", msg=f"shape {k}: shear area / area")
    xs, ys = s.get_sc()
    cx, cy = s.get_c()
    if k <= 2:
        ctx.close([xs, ys], [cx, cy], f"closed/sc-{k}", 0, atol=2e-3 * math.sqrt(a), cls="closed", msg="shear centre of a doubly symmetric shape")
    elif k == 3:
        h, bb = d - t, b - t / 2
        e = 3 * bb * bb / (h + 6 * bb)          # from the web centreline, away from the flanges
        x0, _, _, _ = g.geom.bounds
        ctx.close([xs, ys], [x0 + t / 2 - e, cy], "closed/sc-channel", 0, atol=.03 * b, cls="closed", msg="shear centre of a thin channel")
    else:
        x0, y0, _, _ = g.geom.bounds
        ctx.close([xs, ys], [x0 + t / 2, y0 + t / 2], "closed/sc-angle", 0, atol=.03 * b, cls="closed", msg="shear centre of a thin angle")
    ctx.signature("closed", k, round(a, 10))
    ctx.note(shape=k, as_ratio=[ax / a, ay / a], sc=[xs - cx, ys - cy])


def run(ctx, case):
    k = case["kind"]
    rng = ctx.rng
    if k == "closed":
        return closed(ctx, case["i"])
    if k in SYM:
        return symmetric(ctx, k)
    sec = G.zoo(rng, k)
    if not sec.connected:
        raise Skip("disjoint")
    sec.mesh(int(rng.choice([12, 40, 90, 160, 250])), float(rng.choice([20, 30])), bool(rng.random() < .15))
    s = analysed(sec)
    ref = F.reference(sec)
    w = PR.warp(s)
    monitor(ctx, sec, s, ref, w)
    ctx.signature(sec.name, len(ref.m.tris), round(w["a_sx"], 10))
    ctx.note(section=sec.name, composite=sec.composite, nu=ref.nu, a_sx_ratio=w["a_sx"] / ref.ea)
