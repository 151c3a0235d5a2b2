"""P03: metamorphic pairs - translate / rotate / mirror / change units; every result must transform accordingly.

The section is analysed, transformed with the library's own geometry operation, its mesh carried along (so both runs see
the same triangulation) and analysed again.  All geometric, warping, plastic and stress results are compared after mapping
by the exact transformation law.  A remeshed variant compares the mesh-independent results.
"""
import math

import numpy as np

from harness import carry
from harness import gens as G
from harness import oracles as O
from harness import props as R
from sectionproperties.analysis import Section
from sectionproperties.pre import Material

CONN = ["rpoly", "rectil", "holes", "lib", "libasym", "quad", "strips", "inset", "stack", "conc", "filled", "onemat"]
OPS = ["shift", "rotate", "quarter", "mirror", "scale", "modulus"]
CASES = {"quick": {f"{o}:{k}": 5 for o in OPS for k in CONN}, "thorough": {f"{o}:{k}": 80 for o in OPS for k in CONN}}
FLOORS = {"geometric": 5000, "warping": 3000, "plastic": 1500, "stress": 5000}
RULE = "pairs of executions related by a random rigid motion, reflection or change of length/modulus unit, on random sections and loads"
ASSUMPTIONS = ["section sizes are at least 0.01 length units (the plastic search uses an absolute tolerance of 1e-6)"]
LOADS = ["n", "vx", "vy", "mxx", "myy", "mzz", "m11", "m22"]


def analyse(s, loads):
    s.calculate_geometric_properties()
    s.calculate_warping_properties()
    s.calculate_plastic_properties()
    d = dict(geo=R.geo(s), warp=R.warp(s), plas=R.plas(s))
    d["stress"] = [s.calculate_stress(**ld).get_stress() for ld in loads]
    return d


def stress_rows(st):
    keys = ["sig_zz_n", "sig_zz_mxx", "sig_zz_myy", "sig_zz_m11", "sig_zz_m22", "sig_zz_m", "sig_zx_mzz", "sig_zy_mzz", "sig_zxy_mzz",
            "sig_zx_vx", "sig_zy_vx", "sig_zx_vy", "sig_zy_vy", "sig_zx_v", "sig_zy_v", "sig_zx", "sig_zy", "sig_zxy", "sig_zz", "sig_vm", "sig_11", "sig_33"]
    return [{k: np.asarray(m[k], float) for k in keys} for m in st]


def run(ctx, case):
    op, kind = case["kind"].split(":")
    rng = ctx.rng
    scale = float(10 ** rng.uniform(-0.5, 2.3))
    if op == "rotate" and kind == "stack":
        kind = "stackc"        # T-junction interfaces under general rotation: see the known finding of P04
    sec = G.zoo(rng, kind, scale=scale, far=float(rng.choice([0, 1, 3])))
    L = math.sqrt(sec.area())
    s0 = G.make_section(sec, int(rng.integers(50, 130)))
    comp = s0.is_composite()
    n_loads = 2
    loads = [G.rload(rng) for _ in range(n_loads)]
    M, t, k, ef, mapped = np.eye(2), np.zeros(2), 1.0, 1.0, loads
    g = sec.geom
    fe_tol = 2e-6
    if op == "shift":
        t = rng.uniform(-1, 1, 2) * L * float(rng.choice([.3, 3, 30]))
        g2 = g.shift_section(x_offset=float(t[0]), y_offset=float(t[1]))
        carry.carry_mesh(g, g2, M, t)
    elif op in ("rotate", "quarter"):
        a = float(rng.uniform(-180, 180)) if op == "rotate" else float(rng.choice([90, 180, 270, -90]))
        p = rng.uniform(-1, 1, 2) * L
        rad = bool(rng.integers(2))
        g2 = g.rotate_section(angle=math.radians(a) if rad else a, rot_point=(float(p[0]), float(p[1])), use_radians=rad)
        M = O.rot(a)
        if op == "quarter":
            M = np.round(M)
        t = p - M @ p
        carry.carry_mesh(g, g2, M, t)
    elif op == "mirror":
        ax = str(rng.choice(["x", "y"]))
        p = rng.uniform(-1, 1, 2) * L
        g2 = g.mirror_section(axis=ax, mirror_point=(float(p[0]), float(p[1])))
        M = np.diag([1.0, -1.0]) if ax == "x" else np.diag([-1.0, 1.0])
        t = p - M @ p
        carry.carry_mesh(g, g2, M, t)
    elif op == "scale":
        k = float(rng.choice([1e-3, 1e3, 25.4, 1 / 25.4, .1, 10]))
        if L * k < 0.02:
            k = 1 / k
        from shapely import affinity
        polys = [affinity.scale(p, k, k, origin=(0, 0)) for _, p in sec.regions]
        g2 = G.from_polys("scaled", [m for m, _ in sec.regions], polys).geom
        M = np.eye(2) * k
        carry.carry_mesh(g, g2, M, t)
        # forces scale with k^2 and moments with k^3 to keep stresses
        mapped = [{q: v * (k ** 2 if q in ("n", "vx", "vy") else k ** 3) for q, v in ld.items()} for ld in loads]
    else:
        if not comp:
            # give it one material: same geometry with a modulus must be the modulus times the geometric results
            from sectionproperties.pre.pre import DEFAULT_MATERIAL
        ef = float(rng.choice([1e3, 1e-3, 6.895, .5, 1e6]))
        rep = {}
        for m, _ in sec.regions:
            rep.setdefault(m, Material(m.name + "*", m.elastic_modulus * ef, m.poissons_ratio, m.yield_strength * ef, m.density * ef, m.color))
        g2 = G.from_polys("scaled", [rep[m] for m, _ in sec.regions], [p for _, p in sec.regions]).geom
        carry.carry_mesh(g, g2, M, t)
        if set(m for m, _ in sec.regions) != set(x.material for x in getattr(g, "geoms", [g])):
            ctx.violate("harness", "region bookkeeping")
        mapped = [{q: v * ef for q, v in ld.items()} for ld in loads]

    lin = M / k                                                  # orthogonal part
    d0 = analyse(s0, loads)
    # loads in the mapped frame
    if op in ("rotate", "quarter", "mirror"):
        mapped = []
        for ld in loads:
            new = {}
            if "n" in ld:
                new["n"] = ld["n"]
            V = lin @ np.array([ld.get("vx", 0.0), ld.get("vy", 0.0)])
            q = lin @ np.array([-ld.get("myy", 0.0), ld.get("mxx", 0.0)])
            new.update(vx=V[0], vy=V[1], mxx=q[1], myy=-q[0])
            if "mzz" in ld:
                new["mzz"] = ld["mzz"] * np.linalg.det(lin)
            new["_m11"], new["_m22"] = ld.get("m11", 0.0), ld.get("m22", 0.0)
            mapped.append(new)
    s1 = Section(g2)
    s1.calculate_geometric_properties()
    g0, g1 = d0["geo"], R.geo(s1)
    # signs of the principal axes after mapping
    f0, f1 = math.radians(g0["phi"]), math.radians(g1["phi"])
    e1, e2 = np.array([math.cos(f0), math.sin(f0)]), np.array([-math.sin(f0), math.cos(f0)])
    E1, E2 = np.array([math.cos(f1), math.sin(f1)]), np.array([-math.sin(f1), math.cos(f1)])
    sep = (g0["i11_c"] - g0["i22_c"]) / (g0["i11_c"] + g0["i22_c"])
    tied = sep < 1e-4
    a1, a2 = float(E1 @ lin @ e1), float(E2 @ lin @ e2)
    axtol = 1e-9 / max(sep, 1e-4) + 1e-4 * (sep < 1e-2) + 2e-6
    if not tied:
        ctx.close([abs(a1), abs(a2)], [1, 1], "geometric/principal-direction", axtol, msg=sec.name, cls="geometric")
    sg1, sg2 = (1 if a1 > 0 else -1), (1 if a2 > 0 else -1)
    for ld in mapped:
        if "_m11" in ld:
            ld["m11"], ld["m22"] = ld.pop("_m11") * sg2, ld.pop("_m22") * sg1
    s1.calculate_warping_properties()
    s1.calculate_plastic_properties()
    w0, w1, p0, p1 = d0["warp"], R.warp(s1), d0["plas"], R.plas(s1)

    # ---- map expected values
    perm_diag = abs(lin[0, 1]) < 1e-12
    perm_swap = abs(lin[0, 0]) < 1e-12
    sx, sy = (lin[0, 0], lin[1, 1]) if perm_diag else (lin[0, 1], lin[1, 0])
    det = round(float(np.linalg.det(lin)))

    def dim(name):
        a, b = R.DIMS[name]
        q = k ** a
        if comp or op == "modulus":
            q *= ef ** b
            if op == "modulus" and name in ("my_xx", "my_yy", "my_11", "my_22", "sxx", "syy", "s11", "s22", "mass"):
                q *= ef
        return q

    rel = 2e-9 + 1e-13 * (np.abs(np.asarray(s1.mesh["vertices"])).max() / (L * k)) ** 2 + 1e-13 * (np.abs(np.asarray(s0.mesh["vertices"])).max() / L) ** 2
    rel = rel + 1e-10 / (L * min(k, 1))
    # the modulus op changes homogeneous default sections into composite ones: compare by name only where both exist
    nm = sec.name
    slack_p = 3e-4 if tied else 2e-6 + rel * 10

    def cmp(group, name, got, want, tol, scale):
        ctx.close(got, want, f"{group}/{op}/{name}", tol, scale=scale, cls=group, msg=f"{nm}")

    Imax = (g0["i11_c"] + g0["i22_c"])
    for n in ("area", "perimeter", "ea"):
        tol = rel if n != "perimeter" else 1e-7
        if n == "perimeter" and (g0[n] < 0 or g1[n] < 0):
            # a rotated compound with T-junctions may not union exactly; see P01/P25
            continue
        cmp("geometric", n, g1[n], g0[n] * dim(n), tol, g0[n] * dim(n))
    for n in ("i11_c", "i22_c", "r11", "r22"):
        cmp("geometric", n, g1[n], g0[n] * dim(n), rel * Imax / g0["i22_c"], g0[n] * dim(n))
    for n in ("mass", "nu_eff", "e_eff", "g_eff"):
        if n in g0 and n in g1:
            cmp("geometric", n, g1[n], g0[n] * dim(n), rel * 3, max(abs(g0[n]), 1e-3 if n == "nu_eff" else 0) * dim(n))
    c0, c1 = np.array([g0["cx"], g0["cy"]]), np.array([g1["cx"], g1["cy"]])
    cmp("geometric", "c", c1, M @ c0 + t, rel, L * k)
    T0, T1 = O.tensor_of(g0["ixx_c"], g0["iyy_c"], g0["ixy_c"]), O.tensor_of(g1["ixx_c"], g1["iyy_c"], g1["ixy_c"])
    cmp("geometric", "tensor", T1, lin @ T0 @ lin.T * dim("ixx_c"), rel, Imax * dim("ixx_c"))
    # global second moments and first moments
    q1 = np.array([g1["qy"], g1["qx"]])
    off = np.abs(np.asarray(s1.mesh["vertices"])).max()
    ea1 = g0["ea"] * dim("ea")
    cmp("geometric", "q", q1, ea1 * (M @ c0 + t), rel, ea1 * off)
    G1 = O.tensor_of(g1["ixx_g"], g1["iyy_g"], g1["ixy_g"])
    cn = M @ c0 + t
    cmp("geometric", "ig", G1, lin @ T0 @ lin.T * dim("ixx_c") + ea1 * np.outer(cn, cn), rel, ea1 * off * off)
    # moduli (principal): swap sides with the axis signs
    if not tied:
        def side(n, sgn):
            return n if sgn > 0 else n.replace("plus", "TMP").replace("minus", "plus").replace("TMP", "minus")
        for n in ("z11_plus", "z11_minus"):
            cmp("geometric", n, g1[n], g0[side(n, sg2)] * dim(n), slack_p * 30 / max(sep, .03), g0[n] * dim(n))
        for n in ("z22_plus", "z22_minus"):
            cmp("geometric", n, g1[n], g0[side(n, sg1)] * dim(n), slack_p * 30 / max(sep, .03), g0[n] * dim(n))
        if "my_11" in g0 and "my_11" in g1:
            for n in ("my_11", "my_22"):
                cmp("geometric", n, g1[n], g0[n] * dim(n), slack_p * 30 / max(sep, .03), g0[n] * dim(n))
    small = Imax / min(g0["ixx_c"], g0["iyy_c"], g0["i22_c"])

    def swap(n):
        n = n.replace("xx", "@").replace("yy", "xx").replace("@", "yy")
        return n

    def side2(n, sgn):
        return n if sgn > 0 else n.replace("plus", "TMP").replace("minus", "plus").replace("TMP", "minus")
    if perm_diag or perm_swap:
        for n in ("zxx_plus", "zxx_minus", "zyy_plus", "zyy_minus"):
            sgn = sy if "xx" in n else sx
            src = side2(n if perm_diag else swap(n), sgn)
            cmp("geometric", n, g1[n], g0[src] * dim(n), rel * small * 10, g0[src] * dim(n))
        for n in ("my_xx", "my_yy"):
            if n in g0 and n in g1:
                src = n if perm_diag else swap(n)
                cmp("geometric", n, g1[n], g0[src] * dim(n), rel * small * 20, g0[src] * dim(n))
        for n, m in (("rx", "ry"), ("ry", "rx")):
            src = n if perm_diag else m
            cmp("geometric", n, g1[n], g0[src] * dim(n), rel * small, g0[src] * dim(n))
    # ---- warping
    cmp("warping", "j", w1["j"], w0["j"] * dim("j"), fe_tol, (w0["j"] + 1e-4 * Imax) * dim("j"))
    gam_scale = max(abs(w0["gamma"]), 1e-5 * Imax * L * L)
    cmp("warping", "gamma", w1["gamma"], w0["gamma"] * dim("gamma"), 1e-4, gam_scale * dim("gamma"))
    D = math.sqrt(Imax / g0["ea"])
    for a, b in (("x_se", "y_se"), ("x_st", "y_st")):
        v0 = np.array([w0[a], w0[b]])
        cmp("warping", a[0:1] + "y" + a[1:], [w1[a], w1[b]], M @ v0 + t, 1e-6, (D + np.abs(v0 - c0).max()) * k)
    if not tied:
        tolp = 1e-6 + 3 * axtol / max(sep, 1e-3) * 1e-3
        v0 = np.array([w0["x11_se"] * sg1, w0["y22_se"] * sg2])
        cmp("warping", "sc_p", [w1["x11_se"], w1["y22_se"]], v0 * k, 1e-5 + slack_p * 10 / sep, (D + np.abs(v0).max()) * k)
        for n in ("a_s11", "a_s22"):
            cmp("warping", n, w1[n], w0[n] * dim(n), 1e-5 + slack_p * 10 / sep, w0[n] * dim(n))
        for n, sg in (("beta_11_plus", sg2), ("beta_11_minus", sg2), ("beta_22_plus", sg1), ("beta_22_minus", sg1)):
            sc = (abs(w0[n]) + D * Imax / g0["i22_c"] + abs(w0["y22_se"]) + abs(w0["x11_se"])) * k
            cmp("warping", n, w1[n], w0[side2(n, sg)] * dim(n), 1e-5 + slack_p * 10 / sep, sc)
    cmp("warping", "a_s-trace", 1 / w1["a_sx"] + 1 / w1["a_sy"], (1 / w0["a_sx"] + 1 / w0["a_sy"]) / dim("a_sx"), 1e-5, (1 / w0["a_sx"] + 1 / w0["a_sy"]) / dim("a_sx"))
    if perm_diag or perm_swap:
        for n, m in (("a_sx", "a_sy"), ("a_sy", "a_sx")):
            src = n if perm_diag else m
            cmp("warping", n, w1[n], w0[src] * dim(n), 1e-5, w0[src] * dim(n))
        for n, m, sg in (("beta_x_plus", "beta_y_plus", sy), ("beta_x_minus", "beta_y_minus", sy), ("beta_y_plus", "beta_x_plus", sx), ("beta_y_minus", "beta_x_minus", sx)):
            src = side2(n if perm_diag else m, sg)
            sc = (abs(w0[src]) + D * small) * k
            cmp("warping", n, w1[n], w0[src] * dim(n), 1e-5, sc)
    # ---- plastic
    ptol = 4e-6 / (L * min(1, k)) + 2e-5
    if not tied and slack_p < 1e-3:
        for n in ("s11", "s22"):
            cmp("plastic", n, p1[n], p0[n] * dim(n), 1e-5 + ptol + slack_p * 30 / max(sep, .03), p0[n] * dim(n))
        for n in ("sf_11_plus", "sf_11_minus", "sf_22_plus", "sf_22_minus"):
            src = side2(n, sg2 if "11" in n else sg1)
            want = p0[src] if comp or op != "modulus" else max(p0[n], p0[side2(n, -1)])
            cmp("plastic", n, p1[n], want, 1e-5 + ptol + slack_p * 60 / max(sep, .03), p0[src])
    if perm_diag or perm_swap:
        for n in ("sxx", "syy"):
            src = n if perm_diag else swap(n)
            cmp("plastic", n, p1[n], p0[src] * dim(n), 1e-5 + ptol, p0[src] * dim(n))
        for n in ("sf_xx_plus", "sf_xx_minus", "sf_yy_plus", "sf_yy_minus"):
            src = side2(n if perm_diag else swap(n), sy if "xx" in n else sx)
            if op == "modulus" and not comp:
                continue      # a yield moment includes the coupling through Ixy, an elastic modulus does not
            cmp("plastic", n, p1[n], p0[src], 2e-5 + ptol, p0[src])
        rings = sec.rings((lambda m: m.yield_strength) if comp else (lambda m: 1.0))
        cx_, lo, hi, _ = O.plastic_axis(rings, math.pi / 2)
        cy_, lo2, hi2, _ = O.plastic_axis(rings, 0.0)
        if max(hi - lo, hi2 - lo2) < 1e-5 * L:
            cmp("plastic", "pc", [p1["x_pc"], p1["y_pc"]], M @ np.array([p0["x_pc"], p0["y_pc"]]) + t, 1e-4 + ptol, L * k)
    # ---- stresses, node by node on the carried mesh
    for ld0, st0, ld1 in zip(loads, d0["stress"], mapped):
        if (("m11" in ld0) or ("m22" in ld0)) and (tied or sep < .02):
            continue
        r0, r1 = stress_rows(st0), stress_rows(s1.calculate_stress(**ld1).get_stress())
        if not ctx.check(len(r0) == len(r1), f"stress/{op}/groups", f"{nm}: {len(r0)} vs {len(r1)} material groups", cls="stress"):
            continue
        f = ef if op == "modulus" else 1.0
        big = max(np.abs(m[kk]).max() for m in r0 for kk in ("sig_vm", "sig_zz_m", "sig_zz_n", "sig_zxy_mzz", "sig_zxy")) * f
        big = max(big, max(np.abs(m[kk]).max() for m in r0 for kk in ("sig_zz_mxx", "sig_zz_myy", "sig_zz_m11", "sig_zz_m22")) * f)
        tol = 1e-6 + slack_p * 3 / max(sep, .03)
        if r0[0]["sig_zz"].shape != r1[0]["sig_zz"].shape:
            ctx.violate(f"stress/{op}/shape", nm)
            continue
        for m0, m1 in zip(r0, r1):
            for kk in ("sig_zz_n", "sig_zz_m11", "sig_zz_m22", "sig_zz_m", "sig_zz", "sig_zxy_mzz", "sig_zxy", "sig_vm", "sig_11", "sig_33"):
                cmp("stress", kk, m1[kk], m0[kk] * f, tol, big)
            for a, b in (("sig_zx_mzz", "sig_zy_mzz"), ("sig_zx_v", "sig_zy_v"), ("sig_zx", "sig_zy")):
                v0 = np.stack([m0[a], m0[b]])
                cmp("stress", a, np.stack([m1[a], m1[b]]), lin @ v0 * f, tol, big)
    # ---- remeshed: mesh-independent results only
    if case["i"] % 2 == 0 and op != "modulus":
        g3 = g2
        area = g3.calculate_area() if not hasattr(g3, "geoms") else sum(q.calculate_area() for q in g3.geoms)
        g3.create_mesh([float(area / 70)])
        s3 = Section(g3)
        s3.calculate_geometric_properties()
        g3r = R.geo(s3)
        for n in ("area", "ea", "i11_c", "i22_c"):
            cmp("geometric", "remesh-" + n, g3r[n], g0[n] * dim(n), rel * 5 * Imax / g0["i22_c"] + 1e-8, g0[n] * dim(n))
        s3.calculate_plastic_properties()
        p3 = R.plas(s3)
        if perm_diag or perm_swap:
            for n in ("sxx", "syy"):
                src = n if perm_diag else swap(n)
                cmp("plastic", "remesh-" + n, p3[n], p0[src] * dim(n), 1e-5 + ptol, p0[src] * dim(n))
        s3.calculate_warping_properties()
        w3 = R.warp(s3)
        cmp("warping", "remesh-j", w3["j"], w0["j"] * dim("j"), 0.15, (w0["j"]) * dim("j"))
    ctx.signature(op, kind, round(g0["phi"], 9), t.tolist(), k, ef)
    ctx.note(section=nm, op=op, M=M, t=t, load=loads[0])
