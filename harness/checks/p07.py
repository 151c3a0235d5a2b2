"""P07: every nodal stress equals the exact elastic field; stress fields integrate back to the applied actions."""
import math

import numpy as np

from harness import fe as F
from harness import gens as G
from harness import oracles as O
from harness import stress as S
from sectionproperties.analysis import Section

KINDS = G.HOMOG + G.COMP + ["stackc"] + G.DISJ
CASES = {"quick": {k: 14 for k in KINDS}, "thorough": {k: 220 for k in KINDS}}
FLOORS = {"normal": 300000, "shear": 300000, "resultant": 3000, "absent": 20000, "point-resultant": 100}
RULE = "random loads on random meshes; every nodal component of every material vs exact beam theory / the reference shear solution; equilibrium by quadrature"


def resultants(nodes_c, tri, area, vals):
    """integrals of (s, s x, s y) over elements from six nodal values (quadratic field x linear): exact by a 12-point-class rule"""
    L, w = O.tri_rule(4)
    N = O.p2_shapes(L)
    X = nodes_c[tri[:, :3]]
    xq = np.einsum("ql,eld->eqd", L, X)
    f = np.einsum("qn,en->eq", N, vals) * w[None, :] * 2 * area[:, None]
    return np.array([f.sum(), (f * xq[:, :, 0]).sum(), (f * xq[:, :, 1]).sum()]), np.array([np.abs(f).sum(), np.abs(f * xq[:, :, 0]).sum(), np.abs(f * xq[:, :, 1]).sum()])


def run(ctx, case):
    rng = ctx.rng
    k = case["kind"]
    sec = G.zoo(rng, k)
    sec.mesh(int(rng.choice([15, 50, 120])), float(rng.choice([20, 30])), bool(rng.random() < .15))
    s = Section(sec.geom)
    s.calculate_geometric_properties()
    warp = sec.connected
    if warp:
        s.calculate_warping_properties()
    I = S.Integrals(sec)
    L = math.sqrt(sec.area())
    ref = F.reference(sec)
    phi = s.get_phi()
    load = {a: float(f"{rng.uniform(.2, 1) * rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 6):.4g}") for a in S.ACTIONS}
    if not warp:
        load = {a: v for a, v in load.items() if a not in ("vx", "vy", "mzz")}
    if rng.random() < .4:      # only some of the actions
        load = {a: (v if rng.random() < .6 else 0.0) for a, v in load.items()}
    st = s.calculate_stress(**load)
    res = st.get_stress()
    grp = S.groups(sec)
    nodes = ref.m.nodes
    ctx.check(len(res) == len(grp), "absent/groups", lambda: f"{sec.name}: {len(res)} stress groups for {len(grp)} distinct materials", cls="absent")
    ctx.check([r["material"] for r in res] == [g.material.name for g in st.material_groups], "absent/names", lambda: f"{sec.name}: stresses listed for {[r['material'] for r in res]}, materials are {[m.name for m, _ in grp]}", cls="absent")
    byname = S.rows(st)
    esh = S.element_shear(ref) if warp else {}
    sums = {a: np.zeros(3) for a in ("n", "mxx", "myy", "m11", "m22")}
    sabs = {a: np.zeros(3) for a in sums}
    for m, regs in grp:
        if m not in byname:
            ctx.violate("absent/material", f"{sec.name}: no stresses for material {m.name}")
            continue
        r = byname[m]
        sel = np.isin(ref.region, regs)
        E = m.elastic_modulus if sec.composite else 1.0
        ids = np.unique(ref.m.tris[sel])
        out = np.setdiff1d(np.arange(len(nodes)), ids)
        for a in sums:
            f = load.get(a, 0.0)
            want = E * f * I.normal(nodes[:, 0], nodes[:, 1], a, phi)
            want[out] = 0.0
            got = np.asarray(r[f"sig_zz_{a}"], float)
            sc = E * abs(f) * np.abs(I.normal(nodes[:, 0], nodes[:, 1], a, phi)).max()
            ctx.close(got, want, f"normal/{a}", 1e-8, scale=max(sc, 1e-300), cls="normal", msg=f"{sec.name}/{m.name}: normal stress due to {a}")
            v, va = resultants(nodes - I.c, ref.m.tris[sel], ref.m.area[sel], got[ref.m.tris[sel]])
            sums[a] += v
            sabs[a] += va
        if warp:
            for a in ("mzz", "vx", "vy"):
                f = load.get(a, 0.0)
                for d, nm in enumerate(("zx", "zy")):
                    want, has = S.nodal_mean(ref, sel, f * esh[a][:, :, d])
                    sc = abs(f) * np.abs(esh[a][sel]).max()
                    ctx.close(np.asarray(r[f"sig_{nm}_{a}"], float), want, f"shear/{nm}_{a}", 3e-7, scale=max(sc, 1e-300), cls="shear",
                              msg=f"{sec.name}/{m.name}: shear stress {nm} due to {a}")
        for c in ("sig_zz", "sig_zx", "sig_zy", "sig_vm"):
            ctx.check(not np.any(np.asarray(r[c], float)[out]), "absent/zero", f"{sec.name}/{m.name}: {c} nonzero where the material is absent", cls="absent", n=len(out))
    # equilibrium of the normal stresses
    c, si = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    e11, e22 = np.array([c, si]), np.array([-si, c])
    for a in sums:
        f = load.get(a, 0.0)
        want = {"n": [f, 0, 0], "mxx": [0, 0, f], "myy": [0, -f, 0], "m11": [0, *(f * e22)], "m22": [0, *(-f * e11)]}[a]
        atol = 1e-8 * np.maximum(sabs[a], [sabs[a][0], sabs[a][0] * L, sabs[a][0] * L])
        ctx.close(sums[a], want, f"resultant/{a}", 0, atol=atol + 1e-300, cls="resultant", msg=f"{sec.name}: resultants (N, int s x, int s y) of {a}={f}")
    # equilibrium of the shear stresses: element fields read through point queries at interior quadrature points
    if warp and len(ref.m.tris) <= 160 and case["i"] % 2 == 0:
        Lq, w = O.tri_rule(3)
        sub = np.arange(len(ref.m.tris))
        X = nodes[ref.m.tris[:, :3]]
        xq = np.einsum("ql,eld->eqd", Lq, X)
        W = w[None, :] * ref.m.det[:, None]
        for a in ("vx", "vy", "mzz"):
            f = float(rng.uniform(.5, 2) * rng.choice([-1, 1]))
            sp = s.get_stress_at_points([tuple(p) for p in xq.reshape(-1, 2)], **{a: f})
            if any(q is None for q in sp):
                ctx.violate("point-resultant/none", f"{sec.name}: an interior point was reported to be outside")
                break
            q = np.array(sp).reshape(len(sub), -1, 3)
            tx, ty = (W * q[:, :, 1]).sum(), (W * q[:, :, 2]).sum()
            # moment about the reported shear centre (shear acts through it) or any point (torsion)
            xs, ys = s.get_sc()
            arm = (xq[:, :, 0] - xs) * q[:, :, 2] - (xq[:, :, 1] - ys) * q[:, :, 1]
            mz = (W * arm).sum()
            ab = (W * np.hypot(q[:, :, 1], q[:, :, 2])).sum()
            abm = (W * np.abs(arm)).sum() + ab * (L + np.hypot(*(np.array([xs, ys]) - ref.c)))
            want = {"vx": (f, 0, 0), "vy": (0, f, 0), "mzz": (0, 0, f)}[a]
            ctx.close([tx, ty, mz], want, f"point-resultant/{a}", 0, atol=1e-7 * np.array([ab, ab, abm]), cls="point-resultant", msg=f"{sec.name}: resultants (Vx, Vy, T) of {a}={f}")
            ctx.check(not np.any(np.abs(q[:, :, 0]) > 1e-9 * np.abs(q[:, :, 1:]).max()), "point-resultant/normal", f"{sec.name}: {a} causes normal stress", cls="point-resultant")
    ctx.signature(sec.name, len(ref.m.tris), tuple(sorted(load.items())))
    ctx.note(section=sec.name, composite=sec.composite, materials=len(grp), nodes=len(nodes), load=load)
