"""P12: one physical section, many descriptions - split, reordered, relabelled, rescaled - must give one set of results."""
import dataclasses
import inspect
import math

import numpy as np
from shapely.geometry import LineString, Polygon
from shapely.ops import split as shp_split

from harness import compare as C
from harness import fe as F
from harness import gens as G
from harness import oracles as O
from harness import props as R
from harness.common import HarnessError, Skip
from sectionproperties.analysis import Section
from sectionproperties.pre import CompoundGeometry, Geometry, Material
from sectionproperties.pre.pre import DEFAULT_MATERIAL

BASE = ["strips", "inset", "stackc", "conc", "filled"]
SINGLE = ["rpoly", "holes", "rectil", "libasym", "onemat"]
CASES = {"quick": {**{f"order:{k}": 8 for k in BASE}, **{f"moduli:{k}": 6 for k in BASE}, **{f"split:{k}": 7 for k in SINGLE}, **{f"splitc:{k}": 6 for k in BASE},
                   **{f"single:{k}": 6 for k in SINGLE}, **{f"eref:{k}": 5 for k in BASE + ["onemat"]}, **{f"remesh:{k}": 4 for k in ["strips", "inset", "holes", "rpoly"]}}}
CASES["thorough"] = {k: v * 14 for k, v in CASES["quick"].items()}
FLOORS = {"order": 4000, "moduli": 1500, "split": 1500, "single": 1000, "eref": 400, "stress": 20000, "remesh": 300}
RULE = "random composite and homogeneous sections in two equivalent descriptions on one and the same triangulation (and on separate ones)"
ASSUMPTIONS = ["results of two descriptions on one triangulation differ by rounding only; on separate triangulations only mesh-independent results are compared tightly"]


def geom_of(regs):
    gs = [Geometry(p, m) for m, p in regs]
    return gs[0] if len(gs) == 1 else CompoundGeometry(gs)


def sec_of(base, regs):
    return G.Sec(base.name, geom_of(regs), list(regs), base.connected, base.L)


def on_mesh(sec, mesh):
    """analyse the description `sec` on the given triangulation (region numbers by location)"""
    attr = F.region_of(sec, mesh["vertices"], mesh["triangles"])
    if (attr < 0).any():
        raise HarnessError("an element of the shared mesh lies in no region")
    if len(set(attr)) != len(sec.regions):
        raise Skip
    C.inject(mesh, sec.geom, attr)
    return full(sec)


def full(sec):
    s = Section(sec.geom)
    s.calculate_geometric_properties()
    s.calculate_warping_properties()
    s.calculate_plastic_properties()
    return s


def match_stress(ctx, s1, s2, loads, ef=1.0, rep=lambda m: m, msg="", only_same=None, tol=1e-6, skip=()):
    for ld in loads:
        t1, t2 = C.stress_tables(s1.calculate_stress(**ld)), C.stress_tables(s2.calculate_stress(**ld))
        want = {rep(m): v for m, v in t1.items()}
        if not ctx.check(set(want) == set(t2), "stress/materials", f"{msg}: stress reported for {[m.name for m in t2]}, expected {[m.name for m in want]}", cls="stress"):
            continue
        big = max(np.abs(v[k]).max() for v in t1.values() for k in v)
        for m, v in want.items():
            for k, a in v.items():
                if k in skip:
                    continue
                ctx.close(t2[m][k], a, f"stress/{k}", tol, scale=big, cls="stress", msg=f"{msg}: {k} in {m.name} under {ld}")


def distinct(regs):
    return [(dataclasses.replace(m), p) for m, p in regs]


def cut(rng, p, n=1):
    """split a polygon by random lines through it; parts share the cut vertices exactly"""
    parts = [p]
    for _ in range(n):
        a = float(rng.uniform(0, math.pi))
        c = np.array(parts[int(rng.integers(len(parts)))].representative_point().coords[0])
        d = np.array([math.cos(a), math.sin(a)]) * 10 * math.sqrt(p.area) * 5
        line = LineString([c - d, c + d])
        parts = [q for r in parts for q in shp_split(r, line).geoms]
    return parts


def region_set(rng, regs, which):
    """split some regions into parts (conforming: all parts are cut by one and the same infinite line)"""
    allp = [p for _, p in regs]
    minx, miny, maxx, maxy = np.array([p.bounds for p in allp]).min(0)[0], np.array([p.bounds for p in allp]).min(0)[1], np.array([p.bounds for p in allp]).max(0)[2], np.array([p.bounds for p in allp]).max(0)[3]
    c = np.array([minx, miny]) + rng.uniform(.3, .7, 2) * np.array([maxx - minx, maxy - miny])
    a = float(rng.uniform(0, math.pi))
    d = np.array([math.cos(a), math.sin(a)]) * 10 * (maxx - minx + maxy - miny)
    line = LineString([c - d, c + d])
    return [(m, q) for m, p in regs for q in (shp_split(p, line).geoms if which else [p])]


def run(ctx, case):
    rng = ctx.rng
    op, kind = case["kind"].split(":")
    base = G.zoo(rng, kind, scale=float(10 ** rng.uniform(-.3, 2.3)), far=float(rng.choice([0, 1, 4])))
    n_el = int(rng.integers(40, 110))
    loads = [G.rload(rng) for _ in range(2)]
    nm = base.name
    if op == "order":
        base.mesh(n_el)
        mesh = base.geom.mesh
        s1 = full(base)
        a = C.results(s1)
        perm = rng.permutation(len(base.regions))
        regs = [base.regions[i] for i in perm]
        if rng.integers(2):
            regs = distinct(regs)
        other = sec_of(base, regs)
        s2 = on_mesh(other, mesh)
        C.compare(ctx, "order", a, C.results(s2), 2e-9, msg=f"{nm}: regions in order {perm.tolist()}")
        match_stress(ctx, s1, s2, loads, msg=f"{nm}: regions in order {perm.tolist()}", tol=1e-6)
        # one region more than once re-labelled: a material with other name/colour but the same numbers
        ren = [(dataclasses.replace(m, name=m.name + f"_{i}", color="k"), p) for i, (m, p) in enumerate(base.regions)]
        s3 = on_mesh(sec_of(base, ren), mesh)
        C.compare(ctx, "order/renamed", a, C.results(s3), 2e-9, msg=f"{nm}: every region its own material name", cls="order")
        ctx.signature(nm, perm.tolist(), a["geo"]["ea"])
    elif op == "moduli":
        base.mesh(n_el)
        mesh = base.geom.mesh
        s1 = full(base)
        a = C.results(s1)
        ef = float(rng.choice([1e3, 1e-3, 6.894757, 1e6, .037]))
        rep = {m: dataclasses.replace(m, elastic_modulus=m.elastic_modulus * ef) for m, _ in base.regions}
        s2 = on_mesh(sec_of(base, [(rep[m], p) for m, p in base.regions]), mesh)
        b = C.results(s2)
        C.compare(ctx, "moduli", a, b, 2e-9, ef=C.factors([n for g in a.values() for n in g], 1.0, ef), msg=f"{nm}: moduli x {ef}")
        match_stress(ctx, s1, s2, loads, rep=lambda m: rep[m], msg=f"{nm}: moduli x {ef}", tol=1e-6)
        ctx.signature(nm, ef, a["geo"]["ea"])
    elif op in ("split", "splitc"):
        # the split description is meshed; the unsplit one is analysed on that same triangulation
        regs = region_set(rng, base.regions, True)
        if min(p.area for _, p in regs) < 1e-3 * base.area() or len(regs) == len(base.regions) or any(len(p.interiors) and not p.is_valid for _, p in regs):
            raise Skip
        if rng.integers(2):
            regs = [regs[i] for i in rng.permutation(len(regs))]
        if rng.integers(2):
            regs = distinct(regs)
        parts = sec_of(base, regs)
        if min(p.minimum_clearance for _, p in regs) < 1e-3 * math.sqrt(base.area()):
            raise Skip
        parts.mesh(n_el)
        mesh = parts.geom.mesh
        s2 = full(parts)
        s1 = on_mesh(sec_of(base, base.regions), mesh)
        a = C.results(s1)
        C.compare(ctx, "split", a, C.results(s2), 5e-9 if op == "split" else 2e-7, msg=f"{nm}: {len(base.regions)} regions described as {len(regs)}")
        match_stress(ctx, s1, s2, loads, msg=f"{nm}: split into {len(regs)}", tol=1e-6)
        ctx.signature(nm, len(regs), a["geo"]["ea"], a["geo"]["ixx_g"])
    elif op == "single":
        # homogeneous results times the constants of the one material
        polys = [p for _, p in base.regions]
        hom = sec_of(base, [(DEFAULT_MATERIAL, p) for p in polys])
        hom.mesh(n_el)
        mesh = hom.geom.mesh
        s1 = full(hom)
        a = C.results(s1)
        for nu in (0.0, float(np.round(rng.uniform(.05, .45), 3))):
            m = Material("one", float(f"{10 ** rng.uniform(0, 5.3):.4g}"), nu, float(f"{10 ** rng.uniform(0, 2.8):.4g}"), float(f"{10 ** rng.uniform(-7, 0):.4g}"), "grey")
            s2 = on_mesh(sec_of(base, [(m, p) for p in polys]), mesh)
            b = C.results(s2)
            E, fy = m.elastic_modulus, m.yield_strength
            f = C.factors([n for g in a.values() for n in g], 1.0, E)
            for n in ("sxx", "syy", "s11", "s22"):
                f[n] = fy
            skip = {"sf_xx_plus", "sf_xx_minus", "sf_yy_plus", "sf_yy_minus", "sf_11_plus", "sf_11_minus", "sf_22_plus", "sf_22_minus"}
            if nu:
                skip |= {n for n in a["warp"] if n not in ("j",)} - {"x_st", "y_st"}
            C.compare(ctx, "single", a, b, 2e-9, ef=f, skip=skip, msg=f"{nm} of {m}")
            g, h = b["geo"], a["geo"]
            ctx.close([g["mass"], g["e_eff"], g["g_eff"]], [h["area"] * m.density, E, m.shear_modulus], "single/effective", 1e-9, cls="single", msg=f"{nm} of {m}: mass, E_eff, G_eff")
            ctx.close(g["nu_eff"], nu, "single/nu", 0, atol=1e-9, cls="single", msg=nm)
            # first-yield moments are the governing modulus times the strength (bending about a principal axis)
            tied, flip, sep = C.axes_relation(h, g)
            if not tied:
                for ax in ("11", "22"):
                    ctx.close(g[f"my_{ax}"], fy * min(h[f"z{ax}_plus"], h[f"z{ax}_minus"]), f"single/my_{ax}", 1e-6 + 1e-8 / sep, cls="single", msg=nm)
                    ctx.close([b["plas"][f"sf_{ax}_plus"], b["plas"][f"sf_{ax}_minus"]], [max(a["plas"][f"sf_{ax}_plus"], a["plas"][f"sf_{ax}_minus"])] * 2, f"single/sf_{ax}", 2e-5 + 1e-8 / sep, cls="single", msg=nm)
            st = {"sig_zx_vx", "sig_zy_vx", "sig_zxy_vx", "sig_zx_vy", "sig_zy_vy", "sig_zxy_vy", "sig_zx_v", "sig_zy_v", "sig_zxy_v", "sig_zx", "sig_zy", "sig_zxy", "sig_vm", "sig_11", "sig_33"} if nu else ()
            ld = [{k: v for k, v in l.items()} for l in loads[:1]]
            if not tied:
                match_stress(ctx, s1, s2, ld, rep=lambda _m: m, msg=f"{nm} of {m}", skip=st)
        ctx.signature(nm, a["geo"]["area"], a["geo"]["ixx_g"])
    elif op == "eref":
        base.mesh(n_el)
        s = full(base)
        e = float(f"{10 ** rng.uniform(-1, 5.5):.4g}")
        m = base.regions[int(rng.integers(len(base.regions)))][0]
        seen = 0
        for name in sorted(dir(s)):
            if not name.startswith("get_") or name == "get_e_ref":
                continue
            fn = getattr(s, name)
            if "e_ref" not in inspect.signature(fn).parameters:
                continue
            seen += 1
            raw = np.asarray(fn(), float)
            ctx.close(np.asarray(fn(e_ref=e), float), raw / e, f"eref/{name}", 1e-14, cls="eref", msg=f"{nm}: {name}(e_ref={e})")
            ctx.close(np.asarray(fn(m), float), raw / m.elastic_modulus, f"eref/{name}", 1e-14, cls="eref", msg=f"{nm}: {name}(e_ref={m})")
            ctx.close(np.asarray(fn(e_ref=dataclasses.replace(m, name="other")), float), raw / m.elastic_modulus, f"eref/{name}", 1e-14, cls="eref", msg=nm)
            ctx.close(np.asarray(fn(), float), raw, f"eref/{name}-again", 0, cls="eref", msg=f"{nm}: {name} after the referenced query")
        ctx.check(seen >= 11, "eref/getters", f"only {seen} modulus-weighted getters accept a reference modulus", cls="eref")
        # the modulus-weighted results themselves are those of the integrals
        mo = base.moments(lambda q: q.elastic_modulus)
        ctx.close(s.get_ea(e_ref=m), mo[0] / m.elastic_modulus, "eref/ea-exact", 1e-8, cls="eref", msg=nm)
        # transformed-section theorem: moduli/E_ref as an "area multiplier" gives the same numbers
        rep = {q: dataclasses.replace(q, elastic_modulus=q.elastic_modulus / e) for q, _ in base.regions}
        s2 = on_mesh(sec_of(base, [(rep[q], p) for q, p in base.regions]), base.geom.mesh)
        for name, sc in (("get_ea", 1), ("get_eq", 1), ("get_eig", 1), ("get_eic", 1), ("get_ez", 1), ("get_eip", 1), ("get_ej", 1), ("get_eas", 1)):
            v = np.atleast_1d(np.asarray(getattr(s, name)(e_ref=e), float))
            ctx.close(np.atleast_1d(np.asarray(getattr(s2, name)(), float)), v, f"eref/transformed-{name}", 1e-6, scale=np.abs(v).max(), cls="eref", msg=nm)
        ctx.signature(nm, e, s.get_ea())
    else:                                   # separately meshed descriptions
        regs = region_set(rng, base.regions, True)
        if min(p.area for _, p in regs) < 1e-2 * base.area() or len(regs) == len(base.regions) or min(p.minimum_clearance for _, p in regs) < 1e-2 * math.sqrt(base.area()):
            raise Skip
        regs = distinct([regs[i] for i in rng.permutation(len(regs))])
        parts = sec_of(base, regs)
        base.mesh(350)
        parts.mesh(350)
        s1, s2 = full(base), full(parts)
        a, b = C.results(s1), C.results(s2)
        C.compare(ctx, "remesh", {k: a[k] for k in ("geo", "plas")}, {k: b[k] for k in ("geo", "plas")}, 1e-7, msg=f"{nm}: separately meshed", ptol=2e-5, flat_pc=True)
        ip = a["geo"]["ixx_c"] + a["geo"]["iyy_c"]
        ctx.close(b["warp"]["j"], a["warp"]["j"], "remesh/j", .08, cls="remesh", msg=nm)
        D = math.sqrt(ip / a["geo"]["ea"])
        ctx.close([b["warp"]["x_se"], b["warp"]["y_se"]], [a["warp"]["x_se"], a["warp"]["y_se"]], "remesh/sc", .05, scale=D, cls="remesh", msg=nm)
        ctx.close([b["warp"]["a_sx"], b["warp"]["a_sy"]], [a["warp"]["a_sx"], a["warp"]["a_sy"]], "remesh/as", .05, cls="remesh", msg=nm)
        ctx.signature(nm, a["geo"]["ea"], len(regs))
    ctx.note(section=nm, op=op)
