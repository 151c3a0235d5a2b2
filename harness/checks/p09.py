"""P09: stress at arbitrary points vs the exact/element field; aggregation; order and number of points; outside points."""
import itertools
import math

import numpy as np
from shapely import Point

from harness import fe as F
from harness import gens as G
from harness import oracles as O
from harness import stress as S
from sectionproperties.analysis import Section

KINDS = G.HOMOG + G.COMP + ["stackc"] + G.DISJ
CASES = {"quick": {k: 10 for k in KINDS}, "thorough": {k: 150 for k in KINDS}}
FLOORS = {"interior": 20000, "vertex": 3000, "edge": 1500, "outside": 3000, "order": 1000, "agreement": 1500}
RULE = "points inside elements, at nodes, on edges, on and outside the outline; random loads and aggregation functions; repeated before and after other analyses"

AGGS = [("average", np.average), ("max", max), ("min", min), ("absmax", lambda v: max(v, key=abs)), ("len", lambda v: float(len(v))), ("median", np.median)]


def run(ctx, case):
    rng = ctx.rng
    sec = G.zoo(rng, case["kind"])
    sec.mesh(int(rng.choice([15, 40, 80])))
    s = Section(sec.geom)
    s.calculate_geometric_properties()
    warp = sec.connected
    acts = [a for a in S.ACTIONS if warp or a not in ("vx", "vy", "mzz")]
    load = {a: float(f"{rng.uniform(.1, 1) * rng.choice([-1, 1]) * 10.0 ** rng.uniform(-1, 4):.4g}") for a in acts if rng.random() < .7}
    if not load:
        load = {"n": 3.5}
    shear = any(a in load for a in ("vx", "vy", "mzz"))
    if warp and (shear or rng.integers(2)):
        s.calculate_warping_properties()
    I, ref, phi = S.Integrals(sec), F.reference(sec), s.get_phi()
    ne = len(ref.m.tris)
    nodes = ref.m.nodes
    L = math.sqrt(sec.area())
    E = np.array([sec.regions[r][0].elastic_modulus if sec.composite else 1.0 for r in ref.region])
    sc_n = sum(abs(f) * E.max() * np.abs(I.normal(nodes[:, 0], nodes[:, 1], a, phi)).max() for a, f in load.items() if a in ("n", "mxx", "myy", "m11", "m22")) or 0.0

    def field(el, bary):
        """(szz, szx, szy) of one element at a barycentric point"""
        p = bary @ nodes[ref.m.tris[el, :3]]
        szz = sum(f * E[el] * I.normal(p[:1], p[1:2], a, phi)[0] for a, f in load.items() if a in ("n", "mxx", "myy", "m11", "m22"))
        return p, szz

    Bq = rng.dirichlet([1.5, 1.5, 1.5], 6)
    Bq = Bq[Bq.min(axis=1) > .02]
    if len(Bq) == 0:
        Bq = np.array([[.3, .3, .4]])
    # corners, mid-edges
    Lall = np.concatenate([Bq, np.eye(3), [[.5, .5, 0], [0, .5, .5], [.5, 0, .5]]])
    shv = np.zeros((ne, len(Lall), 2))
    if shear:
        es = S.element_shear(ref, Lall)
        for a in ("vx", "vy", "mzz"):
            shv = shv + load.get(a, 0.0) * es[a]
    sc_s = max(np.abs(shv).max(), 1e-300)
    tol = np.array([1e-8 * sc_n + 1e-300 + (1e-9 * sc_s if shear else 0), 3e-7 * sc_s, 3e-7 * sc_s])

    # ---------------- interior points
    els = rng.choice(ne, min(ne, 40), replace=False)
    pts, want = [], []
    for el in els:
        for q, b in enumerate(Bq):
            p, szz = field(el, b)
            pts.append((float(p[0]), float(p[1])))
            want.append((szz, *shv[el, q]))
    got = s.get_stress_at_points(pts, **load)
    ctx.check(isinstance(got, list) and len(got) == len(pts), "interior/length", "wrong number of results", cls="interior")
    for p, g, w in zip(pts, got, want):
        if g is None:
            ctx.violate("interior/none", f"{sec.name}: interior point {p} reported outside")
            continue
        ctx.check(np.all(np.abs(np.subtract(g, w)) <= tol), "interior/stress", lambda: f"{sec.name}: at {p} got {g}, expected {w} (tol {tol.tolist()})", cls="interior", n=3)

    # ---------------- vertices: every element sharing the vertex takes part
    owners = {}
    for el in range(ne):
        for c in range(3):
            owners.setdefault(int(ref.m.tris[el, c]), []).append((el, c))
    vids = rng.choice(list(owners), min(len(owners), 25), replace=False)
    for name, fn in [AGGS[i] for i in rng.choice(len(AGGS), 3, replace=False)]:
        vp = [(float(nodes[v][0]), float(nodes[v][1])) for v in vids]
        got = s.get_stress_at_points(vp, agg_func=fn, **load)
        for v, p, g in zip(vids, vp, got):
            vals = np.array([(field(el, np.eye(3)[c])[1], *shv[el, len(Bq) + c]) for el, c in owners[int(v)]])
            one = len(vals) == 1
            w = vals[0] if one else [float(fn(list(vals[:, i]))) for i in range(3)]
            if g is None:
                ctx.violate("vertex/none", f"{sec.name}: mesh vertex {p} reported outside")
                continue
            if name == "absmax" and not one:
                # nearly equal magnitudes of opposite sign: either is a correct answer
                ok = all(abs(abs(g[i]) - abs(w[i])) <= tol[i] and min(abs(g[i] - vals[:, i])) <= tol[i] for i in range(3))
            else:
                ok = np.all(np.abs(np.subtract(g, w)) <= tol)
            ctx.check(ok, f"vertex/{name}", lambda: f"{sec.name}: vertex {p} shared by {len(vals)} elements, {name}: got {g}, expected {w}", cls="vertex", n=3)

    # ---------------- points on edges (rounding may put them in either or both neighbours)
    edges = {}
    for el in range(ne):
        for c, (a, b) in enumerate(((0, 1), (1, 2), (2, 0))):
            edges.setdefault(tuple(sorted((int(ref.m.tris[el, a]), int(ref.m.tris[el, b])))), []).append((el, c))
    keys = list(edges)
    pick = [keys[i] for i in rng.choice(len(keys), min(len(keys), 25), replace=False)]
    ep = []
    for (a, b) in pick:
        p = (nodes[a] + nodes[b]) / 2
        ep.append((float(p[0]), float(p[1])))
    for (a, b), p, g in zip(pick, ep, s.get_stress_at_points(ep, **load)):
        own = edges[(a, b)]
        vals = [np.array((field(el, Lall[len(Bq) + 3 + c])[1], *shv[el, len(Bq) + 3 + c])) for el, c in own]
        if g is None:
            # only on a boundary edge can rounding put the point outside
            ctx.check(len(own) == 1, "edge/none", f"{sec.name}: {p} on an interior edge reported outside", cls="edge")
            continue
        cand = [np.mean(c, axis=0) for r in range(1, len(vals) + 1) for c in itertools.combinations(vals, r)]
        ctx.check(any(np.all(np.abs(g - c) <= tol) for c in cand), "edge/stress", lambda: f"{sec.name}: edge point {p} got {g}, neighbours {vals}", cls="edge", n=3)

    # ---------------- outside points
    u = sec.union()
    x0, y0, x1, y1 = u.bounds
    outp = []
    while len(outp) < 25:
        p = (float(rng.uniform(x0 - .3 * L, x1 + .3 * L)), float(rng.uniform(y0 - .3 * L, y1 + .3 * L)))
        if u.distance(Point(p)) > 1e-6 * L:
            outp.append(p)
    for h in [r for _, e, hs in sec.rings() for r in hs][:3]:
        from shapely.geometry import Polygon
        q = Polygon(h).representative_point()
        if u.distance(q) > 1e-6 * L:
            outp.append((q.x, q.y))
    for p, g in zip(outp, s.get_stress_at_points(outp, **load)):
        ctx.check(g is None, "outside/none", lambda: f"{sec.name}: outside point {p} got {g}", cls="outside")
    # ---------------- order, number, mixing, repetition, and other analyses in between
    mix = pts[:12] + [tuple(map(float, nodes[v])) for v in vids[:6]] + outp[:6]
    base = s.get_stress_at_points(mix, **load)
    perm = rng.permutation(len(mix))
    again = s.get_stress_at_points([mix[i] for i in perm], **load)
    ctx.check(all(again[k] == base[i] for k, i in enumerate(perm)), "order/permutation", f"{sec.name}: results depend on the order of points", cls="order", n=len(mix))
    singles = [s.get_stress_at_points([p], **load)[0] for p in mix]
    ctx.check(singles == base, "order/singles", f"{sec.name}: one-at-a-time results differ", cls="order", n=len(mix))
    dup = s.get_stress_at_points([mix[0]] * 3 + [mix[-1]] + [mix[0]], **load)
    ctx.check(dup[0] == dup[1] == dup[2] == dup[4] == base[0], "order/duplicates", f"{sec.name}: repeated point differs", cls="order", n=5)
    ctx.check(s.get_stress_at_points([], **load) == [], "order/empty", "no points", cls="order")
    s.calculate_stress(n=1.0, mxx=2.0)
    if rng.integers(2) and warp:
        s.calculate_plastic_properties()
    s.get_stress_at_points(pts[:3], n=2.0)
    ctx.check(s.get_stress_at_points(mix, **load) == base, "order/after", f"{sec.name}: results differ after other analyses", cls="order", n=len(mix))
    arr = s.get_stress_at_points([np.array(p) for p in mix], **load)
    ctx.check(arr == base, "order/array-points", f"{sec.name}: numpy points give different results", cls="order", n=len(mix))

    # ---------------- agreement with the nodal field of calculate_stress
    res = S.rows(s.calculate_stress(**load))
    avg = s.get_stress_at_points([tuple(map(float, nodes[v])) for v in vids], **load)
    for v, g in zip(vids, avg):
        mats = {sec.regions[ref.region[el]][0] for el, _ in owners[int(v)]}
        if len(mats) == 1 and g is not None:
            r = res.get(mats.pop())
            if not ctx.check(r is not None, "agreement/material", f"{sec.name}: a material has no nodal stresses", cls="agreement"):
                continue
            w = [float(r[k][v]) for k in ("sig_zz", "sig_zx", "sig_zy")]
            ctx.check(np.all(np.abs(np.subtract(g, w)) <= tol), "agreement/nodal", lambda: f"{sec.name}: vertex {v}: point query {g}, nodal stress {w}", cls="agreement", n=3)
    ctx.signature(sec.name, ne, tuple(sorted(load.items())))
    ctx.note(section=sec.name, elements=ne, load=load, interior=len(pts), vertices=len(vids), edges=len(ep), outside=len(outp))
