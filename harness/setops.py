"""Point-set oracle: winding-number membership and distances computed by the harness (no shapely predicates)."""
import numpy as np


def ring_arrays(poly):
    return [np.asarray(r.coords)[:-1, :2].astype(float) for r in [poly.exterior, *poly.interiors]]


def in_ring(pts, ring):
    """Even-odd membership of points in a closed ring."""
    x, y = pts[:, 0][:, None], pts[:, 1][:, None]
    a, b = ring, np.roll(ring, -1, axis=0)
    cond = (a[:, 1] > y) != (b[:, 1] > y)
    with np.errstate(all="ignore"):
        xi = a[:, 0] + (y - a[:, 1]) * (b[:, 0] - a[:, 0]) / (b[:, 1] - a[:, 1])
    return (np.sum(cond & (x < xi), axis=1) % 2).astype(bool)


def dist_ring(pts, ring):
    a, b = ring, np.roll(ring, -1, axis=0)
    d = b - a
    L2 = (d ** 2).sum(axis=1)
    L2 = np.where(L2 > 0, L2, 1)
    v = pts[:, None, :] - a[None]
    s = np.clip((v * d).sum(axis=2) / L2, 0, 1)
    q = v - s[:, :, None] * d
    return np.sqrt((q ** 2).sum(axis=2)).min(axis=1)


def in_poly(pts, poly):
    if poly.is_empty:
        return np.zeros(len(pts), bool)
    rs = ring_arrays(poly)
    m = in_ring(pts, rs[0])
    for r in rs[1:]:
        m &= ~in_ring(pts, r)
    return m


def dist_poly(pts, poly):
    """Distance to the polygon's boundary."""
    if poly.is_empty:
        return np.full(len(pts), np.inf)
    return np.min([dist_ring(pts, r) for r in ring_arrays(poly)], axis=0)


def index_in(pts, polys):
    """Index of the polygon that holds each point (-1: none), and how many hold it."""
    idx, cnt = np.full(len(pts), -1), np.zeros(len(pts), int)
    for k, p in enumerate(polys):
        m = in_poly(pts, p)
        idx[m & (idx < 0)] = k
        cnt += m
    return idx, cnt


def boundary_distance(pts, polys):
    return np.min([dist_poly(pts, p) for p in polys], axis=0) if polys else np.full(len(pts), np.inf)


def samples(rng, polys, n, size, extra=0.3):
    """Points all over the bounding box plus points close to the vertices and edges."""
    polys = [p for p in polys if not p.is_empty]
    b = np.array([p.bounds for p in polys])
    lo, hi = b[:, :2].min(axis=0), b[:, 2:].max(axis=0)
    w = (hi - lo).max()
    out = [rng.uniform(lo - extra * w, hi + extra * w, (n, 2))]
    v = np.concatenate([r for p in polys for r in ring_arrays(p)])
    k = rng.integers(len(v), size=n)
    out.append(v[k] + rng.normal(0, 1, (n, 2)) * (10 ** rng.uniform(-4, -1, (n, 1))) * size)
    e0 = np.concatenate([r for p in polys for r in ring_arrays(p)])
    e1 = np.concatenate([np.roll(r, -1, axis=0) for p in polys for r in ring_arrays(p)])
    k = rng.integers(len(e0), size=n)
    s = rng.uniform(0, 1, (n, 1))
    out.append(e0[k] * (1 - s) + e1[k] * s + rng.normal(0, 1, (n, 2)) * (10 ** rng.uniform(-4, -1, (n, 1))) * size)
    for p in polys:
        out.append(rng.uniform(p.bounds[:2], p.bounds[2:], (max(10, n // 4), 2)))
    return np.concatenate(out)
