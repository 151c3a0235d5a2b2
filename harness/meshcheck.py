"""Monitors over a generated mesh (used by P04 and P16)."""
from __future__ import annotations

import numpy as np
from scipy.spatial import cKDTree
from shapely import STRtree, points as shp_points, prepare, contains_xy

from harness import oracles as O


def edge_lengths(nodes, tri):
    """vertex edges (as sorted pairs) per element side and their mid node."""
    e = np.stack([tri[:, [0, 1]], tri[:, [1, 2]], tri[:, [2, 0]]], axis=1)          # ne,3,2
    return np.sort(e, axis=2)


def triangle_angle(geom, sizes, min_angle):
    """smallest angle of the mesh that Triangle makes for the same points and facets when asked directly."""
    import cytriangle
    d = dict(vertices=list(geom.points), segments=list(geom.facets), regions=[[c[0], c[1], i, a] for i, (c, a) in enumerate(zip(geom.control_points, sizes))])
    if geom.holes:
        d["holes"] = list(geom.holes)
    m = cytriangle.triangulate(d, f"pq{min_angle:.1f}Aao2")
    X = np.asarray(m["vertices"], float)[np.asarray(m["triangles"], int)[:, :3]]
    low = 90.0
    for i in range(3):
        v, w = X[:, (i + 1) % 3] - X[:, i], X[:, (i + 2) % 3] - X[:, i]
        low = min(low, np.degrees(np.arctan2(np.abs(v[:, 0] * w[:, 1] - v[:, 1] * w[:, 0]), (v * w).sum(axis=1))).min())
    return low


def check_mesh(ctx, sec, geom, sizes=None, min_angle=None, coarse=False, right_angles=False, key="mesh", size_tol=1e-6):
    """sec.regions are in the order of the mesh attributes."""
    m = geom.mesh
    nodes = np.asarray(m["vertices"], float)
    tri = np.asarray(m["triangles"], int)
    att = np.asarray(m["triangle_attributes"]).T[0].astype(int)
    L = np.sqrt(sec.area())
    nm = sec.name
    off = np.abs(nodes).max()
    eps = 1e-9 * L + 1e-14 * off
    ref = O.RefMesh(nodes, tri)
    ctx.check(tri.shape[1] == 6, f"{key}/six-node", lambda: f"{nm}: {tri.shape}")
    ctx.check(np.all(ref.det > 0), f"{key}/orientation", lambda: f"{nm}: {np.sum(ref.det <= 0)} inverted elements", n=len(tri))
    ctx.check(np.all(ref.mid_perm_ok) and ref.mid_error.max() < eps, f"{key}/midside", lambda: f"{nm}: max midside error {ref.mid_error.max():.3g}", n=len(tri))
    used = np.unique(tri)
    ctx.check(len(used) == len(nodes), f"{key}/unused-nodes", lambda: f"{nm}: {len(nodes) - len(used)} nodes belong to no element")
    # region attribution and coverage
    T = ref.tris
    cen = nodes[T[:, :3]].mean(axis=1)
    ctx.check(set(att) == set(range(len(sec.regions))), f"{key}/region-ids", lambda: f"{nm}: attributes {sorted(set(att))} for {len(sec.regions)} regions")
    for k, (mat, p) in enumerate(sec.regions):
        sel = att == k
        a = ref.area[sel].sum()
        ctx.close(a, p.area, f"{key}/region-area", 1e-8 + 1e-13 * (off / L) ** 2 + 1e-11 / L, scale=sec.area(), cls="region", msg=f"{nm} region {k}")
        inside = contains_xy(p.buffer(eps), cen[sel, 0], cen[sel, 1])
        ctx.check(np.all(inside), f"{key}/region-containment", lambda: f"{nm}: {np.sum(~inside)} elements of region {k} lie outside it", cls="region", n=len(inside))
    # conformity: shared edges share their mid node; no duplicated nodes
    e = edge_lengths(nodes, T).reshape(-1, 2)
    mids = T[:, 3:].reshape(-1)
    uniq, inv, cnt = np.unique(e, axis=0, return_inverse=True, return_counts=True)
    inv = inv.ravel()
    ctx.check(cnt.max() <= 2, f"{key}/edge-multiplicity", lambda: f"{nm}: an edge belongs to {cnt.max()} elements", n=len(uniq))
    mid_of = np.full(len(uniq), -1)
    mid_of[inv] = mids
    ctx.check(np.all(mid_of[inv] == mids), f"{key}/shared-midside", lambda: f"{nm}: neighbouring elements have different mid nodes", n=len(uniq))
    d, _ = cKDTree(nodes).query(nodes, k=2)
    ctx.check(d[:, 1].min() > eps * 0.01, f"{key}/coincident-nodes", lambda: f"{nm}: two nodes only {d[:, 1].min():.3g} apart", n=len(nodes))
    lens = np.linalg.norm(nodes[uniq[:, 0]] - nodes[uniq[:, 1]], axis=1)
    u = sec.union()
    if u.geom_type in ("Polygon", "MultiPolygon"):
        # rounding can leave hairline slits in the reference union: close them
        uu = u.buffer(eps * 5, join_style="mitre").buffer(-eps * 5, join_style="mitre")
        ctx.close(lens[cnt == 1].sum(), uu.length, f"{key}/outer-boundary", 1e-6, cls="conformity", msg=f"{nm}: total length of unshared edges vs outline")
    for k, (mat, p) in enumerate(sec.regions):
        sel = np.repeat(att == k, 3)
        ids, c = np.unique(inv[sel], return_counts=True)
        ctx.close(lens[ids[c == 1]].sum(), p.length, f"{key}/region-boundary", 1e-6, cls="conformity", msg=f"{nm} region {k}")
    # given points appear
    pts = np.concatenate([np.concatenate([r for r in [ext, *h]]) for _, ext, h in sec.rings()])
    d, _ = cKDTree(nodes[np.unique(T[:, :3])]).query(pts)
    ctx.check(d.max() < eps + 2e-12, f"{key}/points-present", lambda: f"{nm}: a given vertex is {d.max():.3g} away from any mesh vertex", n=len(pts))
    if coarse:
        ctx.check(len(np.unique(T[:, :3])) <= len(np.unique(np.round(pts / (eps + 1e-11)), axis=0)) + 0, f"{key}/coarse", lambda: f"{nm}: a coarse mesh added {len(np.unique(T[:, :3]))} vertices for {len(pts)} points", cls="coarse")
    elif sizes is not None:
        sz = np.asarray([sizes] * len(sec.regions) if np.isscalar(sizes) else (list(sizes) * len(sec.regions) if len(sizes) == 1 else list(sizes)), float)
        over = ref.area > sz[att] * (1 + size_tol)
        ctx.check(not over.any(), f"{key}/max-area", lambda: f"{nm}: {over.sum()} elements larger than their region's size, worst factor {(ref.area / sz[att]).max():.3g}", cls="size", n=len(tri))
        if min_angle and right_angles:
            X = nodes[T[:, :3]]
            ang = []
            for i in range(3):
                a, b, c = X[:, i], X[:, (i + 1) % 3], X[:, (i + 2) % 3]
                v, w = b - a, c - a
                ang.append(np.degrees(np.arctan2(np.abs(v[:, 0] * w[:, 1] - v[:, 1] * w[:, 0]), (v * w).sum(axis=1))))
            low = np.min(ang)
            if low < min_angle - 0.06:
                # Triangle leaves a few worse elements next to input corners; the same request made directly must do no better
                low = max(low, min_angle) if low >= triangle_angle(geom, sz, min_angle) - 1e-6 else low
            ctx.check(low >= min_angle - 0.06, f"{key}/min-angle", lambda: f"{nm}: smallest angle {np.min(ang):.3f} < {min_angle}", cls="angle", n=len(tri))
    return ref, att
