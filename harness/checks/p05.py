"""P05: torsion constant, warping function, warping constant vs an independent solve on the same mesh, and vs closed forms."""
import math

import numpy as np
from shapely.geometry import box

from harness import fe as F
from harness import gens as G
from harness import props as PR
from harness.common import Skip
from sectionproperties.analysis import Section
from sectionproperties.pre import Geometry, CompoundGeometry
from sectionproperties.pre.library import (circular_section, circular_hollow_section, elliptical_section, rectangular_section,
                                           triangular_section, i_section, rectangular_hollow_section)

KINDS = G.HOMOG + ["strips", "inset", "stackc", "conc", "filled", "samecut", "onemat"]
CLOSED = ["c_circle", "c_tube", "c_ellipse", "c_rect", "c_triangle", "c_isec", "c_box", "c_composite", "c_ring2"]
CASES = {"quick": {**{k: 14 for k in KINDS}, **{k: 4 for k in CLOSED}},
         "thorough": {**{k: 260 for k in KINDS}, **{k: 40 for k in CLOSED}}}
FLOORS = {"omega": 20000, "j": 300, "gamma": 150, "bound": 400, "closed": 60, "frame": 80, "residual": 20000}
RULE = "random meshes of zoo sections: reported J, omega, gamma vs an independent P2 finite-element solve; closed-form shapes refined"


def field_checks(ctx, sec, solver):
    s = Section(sec.geom)
    s.calculate_geometric_properties()
    s.calculate_warping_properties(solver_type=solver)
    ref = F.reference(sec)
    w = PR.warp(s)
    name = sec.name
    om = np.asarray(s.section_props.omega, float)
    ip = ref.ixx + ref.iyy
    cond = 1e-9 if solver == "direct" else 3e-6
    osc = max(np.abs(ref.omega).max(), 1e-9 * ip / ref.ea, 1e-6 * math.sqrt(ip * ref.area / ref.ea))
    ctx.close(om, ref.omega, f"omega/{solver}", cond * 10, scale=osc, cls="omega", msg=f"{name}: warping function")
    # it satisfies the discrete problem itself: K omega = f + lambda C, with zero mean
    r = ref.Kg @ om - ref.f_t
    r0 = np.abs(ref.Kg) @ np.abs(om) + np.abs(ref.f_t)
    ctx.close(r, np.zeros_like(r), f"residual/{solver}", 1e-9 if solver == "direct" else 1e-4, scale=np.maximum(r0, max(r0.max() * .01, np.abs(ref.Kg.diagonal()).max() * ip / ref.ea * .01)), cls="residual", msg=f"{name}: discrete warping equation")
    ctx.close(ref.C @ om, 0.0, f"residual/mean-{solver}", cond * 10, scale=np.abs(ref.C) @ np.full(len(om), osc), cls="residual", msg=f"{name}: mean of the warping function")
    ctx.close(w["j"], ref.j, f"j/{solver}", cond, scale=max(ref.j, 1e-3 * ip), cls="j", msg=f"{name}: torsion constant")
    if solver == "direct":
        ctx.close(w["j"], ref.j, "j/direct-rel", 1e-6, scale=max(ref.j, 1e-7 * ip), cls="j", msg=f"{name}: torsion constant")
    ctx.check(w["j"] > 0, "bound/j-positive", f"{name}: J = {w['j']}", cls="bound")
    ctx.check(w["j"] <= ip * (1 + 1e-9), "bound/j-polar", f"{name}: J = {w['j']} > Ip = {ip}", cls="bound")
    ex, q4 = ref.ints_exact, ref.ints_4
    gs = ref.area ** 3 * 1e-4 * ref.ea / ref.area
    sc = max(ex["i_omega"], 1e-9 * gs)
    tol = 3 * abs(ex["gamma"] - q4["gamma"]) + (1e-8 if solver == "direct" else 3e-5) * max(sc, abs(ref.y_se * ex["i_xomega"]), abs(ref.x_se * ex["i_yomega"]))
    # the integrand is of fourth degree: any quadrature between third-degree exactness and exactness is accepted
    mid = (ex["gamma"] + q4["gamma"]) / 2
    ctx.close(w["gamma"], mid, f"gamma/{solver}", 0.0, atol=abs(ex["gamma"] - q4["gamma"]) * .6 + tol - 3 * abs(ex["gamma"] - q4["gamma"]), cls="gamma", msg=f"{name}: warping constant")
    ctx.check(w["gamma"] >= -tol, "bound/gamma-negative", f"{name}: gamma = {w['gamma']}", cls="bound")
    ctx.note(j=w["j"], gamma=w["gamma"], gauss=abs(ex["gamma"] - q4["gamma"]) / max(abs(ex["gamma"]), 1e-300), n=len(om))
    return s, ref, w


def rect_j(b, d):
    a, c = max(b, d), min(b, d)
    t = sum(math.tanh(k * math.pi * a / (2 * c)) / k ** 5 for k in range(1, 60, 2))
    return a * c ** 3 / 3 * (1 - 192 / math.pi ** 5 * c / a * t)


def closed(ctx, kind):
    rng = ctx.rng
    s = float(10 ** rng.uniform(-1, 2.5))
    u = lambda a, b: float(rng.uniform(a, b)) * s   # noqa: E731
    comp = None
    tol = 0.01
    jex = gex = None
    gtol = 0.0
    exact_lower = True
    if kind == "c_circle":
        d, n = u(.5, 2), int(rng.integers(48, 128))
        g = circular_section(d=d, n=n)
        jex, exact_lower = math.pi * d ** 4 / 32, False
        gex, gtol = 0.0, 1e-4 * d ** 6
    elif kind == "c_tube":
        d = u(.5, 2)
        t, n = d * float(rng.uniform(.02, .3)), int(rng.integers(48, 96))
        g = circular_hollow_section(d=d, t=t, n=n)
        jex, exact_lower = math.pi * (d ** 4 - (d - 2 * t) ** 4) / 32, False
        gex, gtol = 0.0, 1e-4 * d ** 6
    elif kind == "c_ellipse":
        a, b, n = u(.5, 2), u(.5, 2), int(rng.integers(64, 128))
        g = elliptical_section(d_x=2 * a, d_y=2 * b, n=n)
        jex, exact_lower = math.pi * a ** 3 * b ** 3 / (a * a + b * b), False
        k = (a * a - b * b) / (a * a + b * b)
        gex, gtol = math.pi * a ** 3 * b ** 3 * k * k / 24, 2e-2 * math.pi * a ** 3 * b ** 3 * (k * k + .02) / 24
        # int (kxy)^2 over the ellipse = k^2 pi a^3 b^3 / 24
    elif kind == "c_rect":
        b, d = u(.3, 2), u(.3, 2)
        g = rectangular_section(d=d, b=b)
        jex = rect_j(b, d)
    elif kind == "c_triangle":
        a = u(.5, 2)
        g = triangular_section(b=a, h=a * math.sqrt(3) / 2)
        # right triangle of the library: use an equilateral one instead
        from shapely.geometry import Polygon
        g = Geometry(Polygon([(0, 0), (a, 0), (a / 2, a * math.sqrt(3) / 2)]))
        jex = math.sqrt(3) * a ** 4 / 80
    elif kind == "c_isec":
        d, b = u(1, 2), u(.6, 1.2)
        tf, tw = b * .02, b * .015
        g = i_section(d=d, b=b, t_f=tf, t_w=tw, r=0, n_r=1)
        jex, tol, exact_lower = (2 * b * tf ** 3 + (d - tf) * tw ** 3) / 3, .06, False
        h = d - tf
        gex = tf * b ** 3 / 12 * 2 * h * h / 4
        gtol = .02 * gex
    elif kind == "c_box":
        d, b = u(1, 2), u(.6, 1.2)
        t = b * .02
        g = rectangular_hollow_section(d=d, b=b, t=t, r_out=0, n_r=1)
        am, per = (d - t) * (b - t), 2 * (d + b - 2 * t)
        jex, tol, exact_lower = 4 * am * am * t / per, .05, False
    elif kind == "c_composite":
        # concentric circles of two materials: no warping, E-weighted polar moments add up
        m = G.rmats(rng, 2)
        d = u(.5, 2)
        n = 64
        outer = circular_section(d=d, n=n, material=m[0])
        inner = circular_section(d=d * float(rng.uniform(.3, .8)), n=n, material=m[1])
        g = (outer - inner) + inner
        comp = m
        jex = sum(q.material.elastic_modulus * v for q, v in zip(g.geoms, [0, 0]))
        di = inner.geom.bounds[2] - inner.geom.bounds[0]
        jex = math.pi / 32 * (m[0].elastic_modulus * (d ** 4 - di ** 4) + m[1].elastic_modulus * di ** 4)
        exact_lower = False
    else:   # two equal halves of a rectangle, the same material described as two distinct objects
        from sectionproperties.pre import Material
        b, d = u(.3, 2), u(.3, 2)
        e = float(10 ** rng.uniform(0, 5))
        ms = [Material("a", e, .3, 1, 1e-3, "r"), Material("b", e, .3, 1, 1e-3, "g")]
        g = rectangular_section(d=d, b=b, material=ms[0]) + rectangular_section(d=d, b=b, material=ms[1]).shift_section(b, 0)
        jex = e * rect_j(2 * b, d)
        comp = ms
    if rng.integers(2):
        g = g.rotate_section(float(rng.uniform(-180, 180)))
    g = g.shift_section(float(rng.uniform(-5, 5)) * s, float(rng.uniform(-5, 5)) * s)
    js = []
    area = sum(q.geom.area for q in getattr(g, "geoms", [g]))
    for n_el in (60, 900):
        g.create_mesh([area / n_el])
        sec = Section(g)
        sec.calculate_geometric_properties()
        sec.calculate_warping_properties()
        j = sec.get_ej() if comp else sec.get_j()
        gm = sec.get_egamma() if comp else sec.get_gamma()
        js.append((j, gm))
    ctx.close(js[1][0], jex, f"closed/j-{kind}", tol, cls="closed", msg=f"{kind}: converged torsion constant")
    if exact_lower:
        ctx.check(js[1][0] >= jex * (1 - 1e-9) and js[0][0] >= jex * (1 - 1e-9), f"closed/j-from-above-{kind}", f"{js} below exact {jex}", cls="closed")
        ctx.check(abs(js[1][0] - jex) <= abs(js[0][0] - jex) + 1e-9 * jex, f"closed/j-converges-{kind}", f"{js} vs {jex}", cls="closed")
    if gex is not None:
        ctx.close(js[1][1], gex, f"closed/gamma-{kind}", 0, atol=gtol, cls="closed", msg=f"{kind}: converged warping constant")
    ctx.signature(kind, round(jex, 9))
    ctx.note(kind=kind, j=js[1][0], exact=jex, err=js[1][0] / jex - 1, gamma=js[1][1])


def run(ctx, case):
    k = case["kind"]
    if k.startswith("c_"):
        return closed(ctx, k)
    rng = ctx.rng
    sec = G.zoo(rng, k)
    if not sec.connected:
        raise Skip("disjoint")
    sec.mesh(int(rng.choice([12, 40, 90, 160, 250])), float(rng.choice([20, 30])), bool(rng.random() < .15))
    s, ref, w = field_checks(ctx, sec, "direct")
    if case["i"] % 2 == 0:
        f = Section(sec.geom)
        f.calculate_frame_properties()
        ctx.close(PR.frame(f)["j"], ref.j, "frame/j", 1e-8, scale=max(ref.j, 1e-3 * (ref.ixx + ref.iyy)), cls="frame", msg=f"{sec.name}: frame-analysis torsion constant")
        ctx.close(f.section_props.omega, ref.omega, "frame/omega", 1e-8, scale=max(np.abs(ref.omega).max(), 1e-6 * math.sqrt((ref.ixx + ref.iyy) * ref.area / ref.ea)), cls="frame",
                  msg=f"{sec.name}: frame-analysis warping function") if getattr(f.section_props, "omega", None) is not None else None
    ctx.signature(sec.name, len(ref.m.tris), round(w["j"], 10))
    ctx.note(section=sec.name, composite=sec.composite)
