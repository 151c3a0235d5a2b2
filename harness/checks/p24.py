"""P24: every plot draws the data of the section it is called on and changes nothing."""
import dataclasses
import os
import tempfile

import matplotlib.colors as mc
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.collections import PathCollection, PolyCollection
from matplotlib.contour import ContourSet
from matplotlib.quiver import Quiver

from harness import gens as G
from harness import props as R
from sectionproperties.analysis import Section

KINDS = G.HOMOG + G.COMP + ["stackc"] + G.DISJ
CASES = {"quick": {**{k: 5 for k in KINDS}, "context": 6}}
CASES["thorough"] = {k: v * 30 for k, v in CASES["quick"].items()}
FLOORS = {"geometry": 2000, "mesh": 4000, "centroids": 250, "contour": 3000, "vector": 10000, "unchanged": 250, "context": 400, "levels": 250, "warping": 300}
RULE = "random sections, stress components, material subsets, masks, limits, scalings and axes arguments; the artists found on the axes compared with the computed data; state of the section compared before and after each plot"
ASSUMPTIONS = ["the artists matplotlib reports on the axes (lines, collections, contour bands, quivers, annotations, legends) are what is drawn",
               "contour plots are judged at sampled interior points of elements by linear interpolation over corner nodes, as drawn"]
STRESSES = dict(n_zz="sig_zz_n", mxx_zz="sig_zz_mxx", myy_zz="sig_zz_myy", m11_zz="sig_zz_m11", m22_zz="sig_zz_m22", m_zz="sig_zz_m",
                mzz_zx="sig_zx_mzz", mzz_zy="sig_zy_mzz", mzz_zxy="sig_zxy_mzz", vx_zx="sig_zx_vx", vx_zy="sig_zy_vx", vx_zxy="sig_zxy_vx",
                vy_zx="sig_zx_vy", vy_zy="sig_zy_vy", vy_zxy="sig_zxy_vy", v_zx="sig_zx_v", v_zy="sig_zy_v", v_zxy="sig_zxy_v",
                zz="sig_zz", zx="sig_zx", zy="sig_zy", zxy="sig_zxy", vm="sig_vm")
STRESSES.update({"11": "sig_11", "33": "sig_33"})
VECTORS = dict(mzz_zxy="mzz", vx_zxy="vx", vy_zxy="vy", v_zxy="v", zxy="")


# ------------------------------------------------------------------------------------------------ reading artists
def segments(ax):
    """all straight segments drawn with a solid line (Line2D), as {frozenset of end points: count}"""
    out = []
    for ln in ax.lines:
        if ln.get_linestyle() in ("None", " ", ""):
            continue
        xy = np.asarray(ln.get_xydata(), float)
        for a, b in zip(xy[:-1], xy[1:]):
            if np.isfinite(a).all() and np.isfinite(b).all():
                out.append((tuple(a), tuple(b)))
    return out


def keys(segs):
    return sorted(tuple(sorted([tuple(float(v) for v in a), tuple(float(v) for v in b)])) for a, b in segs)


def markers(ax, marker):
    return sorted(tuple(float(v) for v in p) for ln in ax.lines if ln.get_marker() == marker and ln.get_linestyle() in ("None", " ", "") for p in ln.get_xydata())


def legend_labels(ax):
    lg = ax.get_legend()
    return None if lg is None else [t.get_text() for t in lg.get_texts()]


def rings(path):
    """closed rings of a path, without any simplification"""
    v, c = path.vertices, path.codes
    if c is None:
        return [v]
    out, cur = [], []
    for p, k in zip(v, c):
        if k == 1 and cur:
            out.append(np.array(cur))
            cur = []
        if k in (1, 2):
            cur.append(p)
    if cur:
        out.append(np.array(cur))
    return [r for r in out if len(r) >= 3]


def inside(rgs, p):
    """even-odd rule"""
    n = 0
    for r in rgs:
        x, y = r[:, 0], r[:, 1]
        x2, y2 = np.roll(x, -1), np.roll(y, -1)
        s = (y > p[1]) != (y2 > p[1])
        with np.errstate(divide="ignore", invalid="ignore"):
            t = x + (p[1] - y) * (x2 - x) / (y2 - y)
        n += int(np.count_nonzero(s & (p[0] < t)))
    return n % 2 == 1


def colour(c):
    return tuple(round(v, 6) for v in mc.to_rgba(c))


# ------------------------------------------------------------------------------------------------ state
def state(s, posts=()):
    g = s.geometry
    d = [s.mesh_nodes.tobytes(), s.mesh_elements.tobytes(), [m.name for m in s.materials], repr(g.geom.wkt), repr(g.points), repr(g.facets), repr(g.holes), repr(g.control_points),
         [(e.node_ids, e.material.name, e.coords.tobytes()) for e in s.elements],
         {k: (v.tobytes() if isinstance(v, np.ndarray) else v) for k, v in vars(s.section_props).items()}]
    for p in posts:
        d.append([{k: (v.tobytes() if isinstance(v, np.ndarray) else v) for k, v in r.items()} for r in p.get_stress()])
    return repr(d)


# ------------------------------------------------------------------------------------------------ plots
def plot_args(rng, title):
    kw = dict(render=False)
    if rng.random() < .4:
        kw["title"] = str(rng.choice(["A title", "x", title or "Stress"]))
    return kw


def common(ctx, ax, kw, title, key, m):
    ctx.check(ax is not None and ax.get_title() == kw.get("title", title), f"{key}/title", f"{m}: title {ax.get_title()!r}, expected {kw.get('title', title)!r}", cls="context")
    if "ax" in kw:
        ctx.check(ax is kw["ax"], f"{key}/axes", f"{m}: the axes supplied were not the ones returned", cls="context")


def close(rng, ax):
    plt.close(ax.figure)


def maybe_ax(rng, kw):
    if rng.random() < .3:
        kw["ax"] = plt.subplots()[1]


def geometry(ctx, rng, g, m, g_has_interior=False):
    kw = plot_args(rng, "Cross-Section Geometry")
    maybe_ax(rng, kw)
    labels = tuple(str(x) for x in rng.choice(["points", "facets", "control_points", "holes"], int(rng.integers(0, 4)), replace=False)) if rng.random() < .8 else None
    cp, legend = bool(rng.random() < .7), bool(rng.random() < .7)
    if labels is not None:
        kw["labels"] = labels
    else:
        labels = ("control_points",)
    ax = g.plot_geometry(cp=cp, legend=legend, **kw)
    common(ctx, ax, kw, "Cross-Section Geometry", "geometry", m)
    P = [tuple(map(float, p)) for p in g.points]
    want = keys([(P[a], P[b]) for a, b in g.facets])
    got = keys(segments(ax))
    ctx.check(got == want, "geometry/facets", lambda: f"{m}: {len(got)} segments drawn, {len(want)} facets", cls="geometry", n=len(want))
    drawn = set(got)
    missing = []
    for poly in getattr(g.geom, "geoms", [g.geom]):
        for r in [poly.exterior, *poly.interiors]:
            xy = list(r.coords)
            for a, b in zip(xy[:-1], xy[1:]):
                missing.append((a, b))
    H = sorted(tuple(map(float, h)) for h in g.holes)
    C = sorted(tuple(map(float, c)) for c in g.control_points)
    ctx.check(markers(ax, "x") == H, "geometry/holes", lambda: f"{m}: holes drawn at {markers(ax, 'x')}, expected {H}", cls="geometry", n=max(len(H), 1))
    ctx.check(markers(ax, "o") == (C if cp else []), "geometry/control-points", lambda: f"{m}: control points drawn at {markers(ax, 'o')}, expected {C if cp else []} (cp={cp})", cls="geometry", n=len(C))
    lab = []
    F = [((P[a][0] + P[b][0]) / 2, (P[a][1] + P[b][1]) / 2) for a, b in g.facets]
    for name, pts in (("points", P), ("facets", F), ("control_points", g.control_points), ("holes", g.holes)):
        if name in labels:
            lab += [(str(i), round(float(p[0]), 12), round(float(p[1]), 12)) for i, p in enumerate(pts)]
    texts = sorted((t.get_text(), round(float(t.xy[0]), 12), round(float(t.xy[1]), 12)) for t in ax.texts)
    ctx.check(texts == sorted(lab), "geometry/labels", lambda: f"{m}: labels {labels}: drawn {texts[:6]}..., expected {sorted(lab)[:6]}...", cls="geometry", n=max(len(lab), 1))
    lg = legend_labels(ax)
    want = ["Points & Facets"] + (["Holes"] if H else []) + (["Control Points"] if cp else [])
    ctx.check(lg == (want if legend else None), "geometry/legend", f"{m}: legend {lg}, expected {want if legend else None}", cls="geometry")
    close(rng, ax)


def tri_edges(s, mask=None):
    e = set()
    for i, el in enumerate(s.elements):
        if mask is not None and mask[i]:
            continue
        a = [int(x) for x in el.node_ids[:3]]
        for u, v in ((0, 1), (1, 2), (2, 0)):
            e.add((min(a[u], a[v]), max(a[u], a[v])))
    return e


def drawn_edges(ctx, ax, s, mask, key, m, alpha=None):
    idx = {(float(x), float(y)): i for i, (x, y) in enumerate(s.mesh_nodes)}
    want = tri_edges(s, mask)
    got = set()
    lines = [ln for ln in ax.lines if len(ln.get_xdata()) > 2 and ln.get_linestyle() not in ("None", " ", "")]
    for ln in lines:
        xy = np.asarray(ln.get_xydata(), float)
        for a, b in zip(xy[:-1], xy[1:]):
            if np.isfinite(a).all() and np.isfinite(b).all():
                ia, ib = idx.get((a[0], a[1]), -1), idx.get((b[0], b[1]), -1)
                got.add((min(ia, ib), max(ia, ib)))
    ctx.check(got == want, f"{key}/edges", lambda: f"{m}: drawn mesh edges differ: {len(got - want)} extra, {len(want - got)} missing of {len(want)}", cls="mesh", n=len(want))
    if alpha is not None and lines:
        ctx.check(any(ln.get_alpha() == alpha for ln in lines), f"{key}/alpha", f"{m}: alpha {[ln.get_alpha() for ln in lines]} expected {alpha}", cls="mesh")


def mat_colours(ctx, ax, s, mask, key, m):
    polys = [c for c in ax.collections if isinstance(c, PolyCollection) and not isinstance(c, (ContourSet, Quiver))]
    n = 0
    where = {tuple(np.round(s.mesh_nodes[[int(i) for i in el.node_ids[:3]]].mean(0), 9)): el for el in s.elements}
    for c in polys:
        c.update_scalarmappable()
        fc = c.get_facecolor()
        for i, p in enumerate(c.get_paths()):
            el = where.get(tuple(np.round(p.vertices[:3].mean(0), 9)))
            ok = el is not None and colour(fc[i % len(fc)]) == colour(el.material.color)
            n += 1
            if not ctx.check(ok, f"{key}/colour", lambda: f"{m}: an element of {el.material.name if el else None} ({el.material.color if el else None}) is drawn with colour {fc[i % len(fc)]}", cls="mesh"):
                return
    live = len(s.elements) if mask is None else int(np.count_nonzero(~np.asarray(mask)))
    ctx.check(n == live, f"{key}/faces", f"{m}: {n} coloured elements, expected {live}", cls="mesh")
    want = {}
    for mt in s.materials:
        want.setdefault((mt.name, colour(mt.color)), 0)
    lg = ax.get_legend()
    got = [] if lg is None else [(t.get_text(), colour(h.get_facecolor())) for t, h in zip(lg.get_texts(), lg.get_patches())]
    ctx.check(len(set(got)) >= 1 and set(got) == set(want) and len(got) == len({id(x): 0 for x in distinct(s.materials)}), f"{key}/legend", f"{m}: legend {got}, expected {list(want)}", cls="mesh")


def distinct(mats):
    out = []
    for x in mats:
        if not any(x == y for y in out):
            out.append(x)
    return out


def mesh(ctx, rng, s, m):
    kw = plot_args(rng, "Finite Element Mesh")
    maybe_ax(rng, kw)
    mask = None
    if rng.random() < .6 and len(s.elements) > 1:
        how = rng.integers(3)
        if how == 0:
            mask = rng.random(len(s.elements)) < rng.uniform(.1, .9)
        elif how == 1:
            k = s.materials[int(rng.integers(len(s.materials)))]
            mask = np.array([e.material == k for e in s.elements])
        else:
            mask = np.zeros(len(s.elements), bool)
            mask[:int(rng.integers(1, len(s.elements)))] = True
        if mask.all():
            mask[int(rng.integers(len(mask)))] = False
        kw["mask"] = [bool(x) for x in mask]
    mats = bool(rng.random() < .8)
    alpha = float(rng.uniform(.05, 1))
    ax = s.plot_mesh(alpha=alpha, materials=mats, **kw)
    common(ctx, ax, kw, "Finite Element Mesh", "mesh", m)
    drawn_edges(ctx, ax, s, mask, "mesh", m, alpha)
    if mats:
        mat_colours(ctx, ax, s, mask, "mesh", m)
    else:
        ctx.check(not [c for c in ax.collections if isinstance(c, PolyCollection)], "mesh/uncoloured", f"{m}: coloured elements although materials=False", cls="mesh")
    close(rng, ax)


def centroids(ctx, rng, s, m):
    kw = plot_args(rng, "Centroids")
    maybe_ax(rng, kw)
    alpha = float(rng.uniform(.05, 1))
    ax = s.plot_centroids(alpha=alpha, **kw)
    common(ctx, ax, kw, "Centroids", "centroids", m)
    got = {c.get_label(): tuple(map(float, c.get_offsets()[0])) for c in ax.collections if isinstance(c, PathCollection) and len(c.get_offsets()) == 1}
    want = {}
    for lab, fn in (("Elastic centroid", "get_c"), ("Shear centre", "get_sc"), ("Global plastic centroid", "get_pc"), ("Principal plastic centroid", "get_pc_p")):
        try:
            want[lab] = tuple(map(float, getattr(s, fn)()))
        except RuntimeError:
            pass
    ctx.check(got == want, "centroids/points", f"{m}: points drawn {got}, expected {want}", cls="centroids", n=max(len(want), 1))
    lines = {ln.get_label(): np.asarray(ln.get_xydata(), float) for ln in ax.lines if ln.get_label() in ("11-axis", "22-axis")}
    try:
        phi = np.radians(s.get_phi())
        c = np.array(s.get_c())
    except RuntimeError:
        phi = None
    ctx.check(set(lines) == (set() if phi is None else {"11-axis", "22-axis"}), "centroids/axes-present", f"{m}: principal axes {list(lines)}", cls="centroids")
    if phi is not None and len(lines) == 2:
        D = np.linalg.norm(np.ptp(s.mesh_nodes, axis=0))
        for lab, a in (("11-axis", phi), ("22-axis", phi + np.pi / 2)):
            xy = lines[lab]
            d = np.array([np.cos(a), np.sin(a)])
            off = np.abs((xy - c) @ np.array([-d[1], d[0]])).max()
            along = (xy - c) @ d
            far = np.abs(s.mesh_nodes).max() + D
            ctx.check(len(xy) == 2 and off <= 1e-9 * far and np.ptp(along) > .3 * D and along.min() < 0 < along.max(), f"centroids/{lab}",
                      f"{m}: {lab} drawn along {xy.tolist()}; centroid {c}, angle {np.degrees(a)}", cls="centroids")
    lg = legend_labels(ax) or []
    ctx.check(set(want) | set(lines) == set(lg), "centroids/legend", f"{m}: legend {lg}, expected {sorted(want) + sorted(lines)}", cls="centroids")
    mat_colours_only(ctx, ax, s, m)
    close(rng, ax)


def mat_colours_only(ctx, ax, s, m):
    where = {tuple(np.round(s.mesh_nodes[[int(i) for i in el.node_ids[:3]]].mean(0), 9)): el for el in s.elements}
    for c in ax.collections:
        if type(c).__name__ == "PolyCollection":
            c.update_scalarmappable()
            fc = c.get_facecolor()
            for i, p in enumerate(c.get_paths()):
                el = where.get(tuple(np.round(p.vertices[:3].mean(0), 9)))
                if not ctx.check(el is not None and colour(fc[i % len(fc)]) == colour(el.material.color), "centroids/mesh-colour", f"{m}: mesh below the centroids has wrong material colours", cls="mesh"):
                    return


def bands(cs):
    out = []
    lv = cs.levels
    for i, p in enumerate(cs.get_paths()):
        rr = rings(p)
        if rr:
            out.append((lv[i], lv[i + 1], rr))
    return out


def sample(rng, s, els, n):
    pts = []
    for i in rng.choice(els, min(n, len(els)), replace=False):
        el = s.elements[int(i)]
        w = rng.dirichlet([3, 3, 3])
        nid = [int(k) for k in el.node_ids[:3]]
        pts.append((int(i), w @ s.mesh_nodes[nid], nid, w))
    return pts


def judge(ctx, rng, s, cs, vals, els, limits, key, m, cls, n=14):
    """band found at sampled points of elements `els` must hold the interpolated value"""
    B = bands(cs)
    lo, hi = float(np.min(vals)), float(np.max(vals))
    tol = 1e-9 * max(abs(lo), abs(hi)) + 2e-12
    drawn = 0
    for i, p, nid, w in sample(rng, s, els, n):
        v = float(w @ vals[nid])
        hit = [(a, b) for a, b, rr in B if inside(rr, p)]
        drawn += bool(hit)
        if limits is not None and not limits[0] + tol < v < limits[1] - tol:
            ok = all(a - tol <= v <= b + tol for a, b in hit)       # white outside the limits
        else:
            ok = len(hit) >= 1 and any(a - tol <= v <= b + tol for a, b in hit)
            if not ok and min(abs(v - x) for x in cs.levels) <= 1e-6 * (hi - lo) + tol:
                continue                                             # within rounding of a band limit
        if not ctx.check(ok, f"{key}/band", lambda: f"{m}: value {v} at {p} is drawn in band(s) {hit}; levels {cs.levels[0]}..{cs.levels[-1]}", cls=cls):
            return
    return drawn


def contour(ctx, rng, s, post, m):
    name = str(rng.choice(list(STRESSES)))
    kw = plot_args(rng, "")
    maybe_ax(rng, kw)
    R0 = post.get_stress()
    groups = list(post.material_groups)
    R = [np.asarray(r[STRESSES[name]], float) for r in R0]
    chosen = list(range(len(groups)))
    if rng.random() < .5:
        k = int(rng.integers(1, len(groups) + 1))
        chosen = sorted(int(x) for x in rng.choice(len(groups), k, replace=False))
        lst = [groups[i].material for i in chosen]
        if rng.random() < .3:
            lst = [dataclasses.replace(x) for x in lst]
        rng.shuffle(lst)
        kw["material_list"] = lst
    vmin, vmax = min(float(R[i].min()) for i in chosen), max(float(R[i].max()) for i in chosen)
    limits = None
    if rng.random() < .4 and vmax - vmin > 1e-9 * max(abs(vmin), abs(vmax)) and vmax - vmin > 1e-9:
        a, b = sorted(rng.uniform(-.3, 1.3, 2))
        if b - a > .05:
            limits = (vmin + a * (vmax - vmin), vmin + b * (vmax - vmin))
            kw["stress_limits"] = limits
    nz = bool(rng.random() < .5)
    label = "Stress" if rng.random() < .5 else "MPa"
    ax = post.plot_stress(stress=name, normalize=nz, colorbar_label=label, **({"fmt": "{x:.2f}"} if rng.random() < .3 else {}), **kw)
    m = f"{m}: plot_stress({name!r}, materials {[groups[i].material.name for i in chosen]}, limits {limits}, normalize {nz})"
    if "ax" in kw:
        ctx.check(ax is kw["ax"], "contour/axes", m, cls="context")
    if "title" in kw:
        ctx.check(ax.get_title() == kw["title"], "contour/title", f"{m}: title {ax.get_title()!r}", cls="context")
    else:
        comp = name.rsplit("_", 1)
        ctx.check(f"_{{{'vM' if name == 'vm' else comp[-1]}" in ax.get_title(), "contour/title", f"{m}: title {ax.get_title()!r} does not name the component", cls="context")
    sets = [c for c in ax.collections if isinstance(c, ContourSet)]
    if ctx.check(len(sets) == len(chosen), "contour/groups", f"{m}: {len(sets)} contour sets drawn", cls="levels"):
        for cs, i in zip(sets, chosen):
            els = [k for k, e in enumerate(s.elements) if e.material == groups[i].material]
            judge(ctx, rng, s, cs, R[i], els, limits, "contour", m + f" {groups[i].material.name}", "contour")
            other = [k for k, e in enumerate(s.elements) if e.material != groups[i].material]
            B = bands(cs)
            for _, p, _, _ in sample(rng, s, other, 6) if other else []:
                ctx.check(not any(inside(rr, p) for _, _, rr in B), "contour/outside", lambda: f"{m}: the stress of {groups[i].material.name} is drawn at {p}, outside its regions", cls="contour")
        c0 = sets[0]
        ctx.check(all(c.get_clim() == c0.get_clim() and np.array_equal(c.levels, c0.levels) for c in sets) or vmax - vmin < 1e-11 + 2e-5 * abs(vmax), "contour/shared-range", lambda: f"{m}: materials drawn with different colour ranges {[c.get_clim() for c in sets]}", cls="levels")
        lv = c0.levels
        if limits is not None:
            ctx.close([lv[0], lv[-1]], limits, "contour/limits", 1e-9, scale=abs(limits[1] - limits[0]), cls="levels", msg=f"{m}: levels")
        else:
            ctx.check(lv[0] <= vmin and lv[-1] >= vmax, "contour/range", f"{m}: levels {lv[0]}..{lv[-1]} do not cover the stresses {vmin}..{vmax}", cls="levels")
            if vmax - vmin > 1e-9 + 1e-4 * max(abs(vmin), abs(vmax)):
                ctx.close([lv[0], lv[-1]], [vmin, vmax], "contour/range-tight", 1e-9, scale=abs(vmax) + abs(vmin) + 1e-2, cls="levels", msg=f"{m}: levels")
        a, b = c0.get_clim()
        if nz:
            ctx.close(a, -b, "contour/centred", 1e-9, scale=abs(b) + 1e-300, cls="levels", msg=f"{m}: colour range not centred at zero {a, b}")
        bars = [x for x in ax.figure.axes if x is not ax]
        ctx.check(len(bars) == 1 and bars[0].get_ylabel() == label, "contour/colourbar", f"{m}: colourbar label {[x.get_ylabel() for x in bars]}", cls="levels")
    drawn_edges(ctx, ax, s, None, "contour", m)
    close(rng, ax)


def vector(ctx, rng, s, post, m):
    name = str(rng.choice(list(VECTORS)))
    kw = plot_args(rng, "")
    maybe_ax(rng, kw)
    nz = bool(rng.random() < .5)
    ax = post.plot_stress_vector(stress=name, normalize=nz, **kw)
    m = f"{m}: plot_stress_vector({name!r}, normalize={nz})"
    if "ax" in kw:
        ctx.check(ax is kw["ax"], "vector/axes", m, cls="context")
    R = post.get_stress()
    sfx = ("_" + VECTORS[name]) if VECTORS[name] else ""
    Q = [c for c in ax.collections if isinstance(c, Quiver)]
    if ctx.check(len(Q) == len(R), "vector/groups", f"{m}: {len(Q)} vector sets for {len(R)} materials", cls="vector"):
        scale = max(float(np.hypot(r["sig_zx" + sfx], r["sig_zy" + sfx]).max()) for r in R)
        lo = min(float(np.hypot(r["sig_zx" + sfx], r["sig_zy" + sfx]).min()) for r in R)
        for q, r in zip(Q, R):
            U, V = np.asarray(r["sig_zx" + sfx], float), np.asarray(r["sig_zy" + sfx], float)
            XY = np.column_stack([q.X, q.Y])
            ctx.check(np.array_equal(XY, s.mesh_nodes), "vector/positions", f"{m}: vectors not drawn at the nodes", cls="vector", n=len(XY))
            ctx.close(np.asarray(q.U), U, "vector/x", 1e-12, scale=scale + 1e-300, cls="vector", msg=f"{m}: x components of {r['material']}")
            ctx.close(np.asarray(q.V), V, "vector/y", 1e-12, scale=scale + 1e-300, cls="vector", msg=f"{m}: y components of {r['material']}")
            ctx.close(np.asarray(q.get_array()), np.hypot(U, V), "vector/colour", 1e-12, scale=scale + 1e-300, cls="vector", msg=f"{m}: colour values of {r['material']}")
        ctx.check(len({q.scale for q in Q}) == 1, "vector/common-scale", f"{m}: arrows of different materials have different scales {[q.scale for q in Q]}", cls="vector")
        want = (-scale, scale) if nz else (lo, scale)
        for q in Q if scale - lo > 1e-9 * scale else []:
            ctx.close(q.get_clim(), want, "vector/colour-range", 1e-9, scale=scale + 1e-300, cls="vector", msg=f"{m}: colour range")
    bars = [x for x in ax.figure.axes if x is not ax]
    ctx.check(len(bars) == 1 and bars[0].get_ylabel() == "Stress", "vector/colourbar", f"{m}: colourbar label", cls="vector")
    drawn_edges(ctx, ax, s, None, "vector", m)
    close(rng, ax)


def warping(ctx, rng, s, m):
    kw = plot_args(rng, "Warping Function")
    maybe_ax(rng, kw)
    lines = bool(rng.random() < .5)
    level = int(rng.integers(5, 30))
    ax = s.plot_warping_function(level=level, with_lines=lines, **kw)
    common(ctx, ax, kw, "Warping Function", "warping", m)
    om = np.asarray(s.section_props.omega, float)
    sets = [c for c in ax.collections if isinstance(c, ContourSet)]
    filled = [c for c in sets if c.filled]
    ctx.check(len(filled) == 1 and len(sets) == 1 + lines, "warping/contours", f"{m}: {len(sets)} contour sets, with_lines={lines}", cls="warping")
    if filled:
        judge(ctx, rng, s, filled[0], om, list(range(len(s.elements))), None, "warping", m, "warping", 25)
    drawn_edges(ctx, ax, s, None, "warping", m)
    close(rng, ax)


def mohrs(ctx, rng, s, post, m):
    D = np.ptp(s.mesh_nodes, axis=0)
    p = s.mesh_nodes.max(0) + D * rng.uniform(.1, 2, 2) * rng.choice([1, -8], 2)
    ctx.raises(ValueError, lambda: post.plot_mohrs_circles(x=float(p[0]), y=float(p[1]), render=False), "mohr/outside", f"{m}: a point outside the mesh")
    ctx.saw("context")
    el = s.elements[int(rng.integers(len(s.elements)))]
    c = s.mesh_nodes[[int(i) for i in el.node_ids[:3]]].mean(0)
    kw = plot_args(rng, "")
    maybe_ax(rng, kw)
    ax = post.plot_mohrs_circles(x=float(c[0]), y=float(c[1]), **kw)
    if "ax" in kw:
        ctx.check(ax is kw["ax"], "mohr/axes", m, cls="context")
    if "title" in kw:
        ctx.check(ax.get_title() == kw["title"], "mohr/title", m, cls="context")
    close(rng, ax)


def analysed(rng, sec, op=None):
    s = G.make_section(sec, int(rng.integers(15, 90)))
    ops = op or str(rng.choice(["", "G", "F", "GP", "GW", "GWP", "GWP", "GWP"]))
    if not sec.connected:
        ops = ops.replace("W", "").replace("F", "")
    for o in ops:
        {"G": s.calculate_geometric_properties, "W": s.calculate_warping_properties, "F": s.calculate_frame_properties,
         "P": lambda: s.calculate_plastic_properties(verbose=False)}[o]()
    return s, ops


def load(rng, warp):
    acts = ["n", "mxx", "myy", "m11", "m22"] + (["vx", "vy", "mzz"] if warp else [])
    q = rng.random()
    mag = float(10 ** rng.uniform(-2, 6))
    if q < .25:
        return {str(rng.choice(acts)): float(rng.choice([-1, 1]) * rng.uniform(.2, 1) * mag)}
    if q < .3:
        return {}
    return {a: float(rng.normal() * mag) for a in acts if rng.random() < .7}


def run(ctx, case):
    rng = ctx.rng
    plt.close("all")
    if case["kind"] == "context":
        return context(ctx, rng)
    sec = G.zoo(rng, case["kind"], scale=float(10 ** rng.uniform(-1, 3)))
    s, ops = analysed(rng, sec)
    trace = []
    m = f"{sec.name} after {ops or 'nothing'}"

    def step(name, fn, posts=()):
        before = state(s, posts)
        fn()
        ctx.check(state(s, posts) == before, f"unchanged/{name}", f"{m}: {name} altered the section, its geometry or its results", cls="unchanged")
        trace.append(name)

    step("plot_geometry", lambda: geometry(ctx, rng, s.geometry, m))
    for _ in range(2):
        step("plot_mesh", lambda: mesh(ctx, rng, s, m))
    step("plot_centroids", lambda: centroids(ctx, rng, s, m))
    if "W" in ops or "F" in ops:
        step("plot_warping_function", lambda: warping(ctx, rng, s, m))
    else:
        ctx.raises(RuntimeError, lambda: s.plot_warping_function(render=False), "warping/refused", f"{m}: warping function plotted without analysis")
    if "G" in ops:
        for _ in range(2):
            ld = load(rng, "W" in ops)
            post = s.calculate_stress(**ld)
            ml = f"{m}, loads {ld}"
            for _ in range(3):
                step("plot_stress", lambda: contour(ctx, rng, s, post, ml), [post])
            step("plot_stress_vector", lambda: vector(ctx, rng, s, post, ml), [post])
        step("plot_mohrs_circles", lambda: mohrs(ctx, rng, s, post, m), [post])
        for bad in ("sig_zz", "", "vx", "ZZ"):
            ctx.raises((KeyError, ValueError), lambda: post.plot_stress(stress=bad, render=False), "contour/unknown-component", f"{m}: plot_stress({bad!r})")
        ctx.raises((KeyError, ValueError), lambda: post.plot_stress_vector(stress="n_zz", render=False), "vector/unknown-component", f"{m}: plot_stress_vector('n_zz')")
    ctx.signature(sec.name, ops, s.num_nodes, trace, float(s.mesh_nodes[0][0]))
    ctx.note(section=sec.name, ops=ops, plots=trace)
    plt.close("all")


# ------------------------------------------------------------------------------------------------ plotting context
def context(ctx, rng):
    """saving, showing, several axes"""
    sec = G.zoo(rng, str(rng.choice(["lib", "strips", "inset"])))
    s, _ = analysed(rng, sec, "GWP")
    post = s.calculate_stress(**load(rng, True))
    plots = dict(plot_geometry=lambda **k: s.geometry.plot_geometry(**k), plot_mesh=s.plot_mesh, plot_centroids=s.plot_centroids, plot_warping_function=s.plot_warping_function,
                 plot_stress=lambda **k: post.plot_stress(stress="zz", **k), plot_stress_vector=lambda **k: post.plot_stress_vector(stress="zxy", **k),
                 plot_mohrs_circles=lambda **k: post.plot_mohrs_circles(*map(float, s.mesh_nodes[[int(i) for i in s.elements[0].node_ids[:3]]].mean(0)), **k))
    shown, paused = [], []
    old = plt.show, plt.pause
    plt.show = lambda *a, **k: shown.append(1)
    plt.pause = lambda *a, **k: paused.append(1)
    try:
        with tempfile.TemporaryDirectory(prefix="p24_") as d:
            for name, fn in plots.items():
                plt.close("all")
                # file
                f = os.path.join(d, name + ".png")
                shown.clear(), paused.clear()
                fn(filename=f)
                ctx.check(os.path.isfile(f) and os.path.getsize(f) > 1000 and open(f, "rb").read(4) == b"\x89PNG", f"context/{name}/file", f"{name}: no image written", cls="context")
                ctx.check(not plt.get_fignums() and not shown and not paused, f"context/{name}/file-closed", f"{name}(filename=...): figure left open {plt.get_fignums()} or shown {shown, paused}", cls="context")
                # rendering
                for kw, want in ((dict(), (1, 0)), (dict(pause=False), (0, 1)), (dict(render=False), (0, 0))):
                    shown.clear(), paused.clear()
                    ax = fn(**kw)
                    ctx.check((len(shown), len(paused)) == want, f"context/{name}/render", f"{name}({kw}): shown {len(shown)} times, drawn with pause {len(paused)} times; expected {want}", cls="context")
                    plt.close(ax.figure)
                ctx.check(not plt.get_fignums(), f"context/{name}/one-figure", f"{name}: more than one figure created", cls="context")
                # supplied axes: nothing is shown, the figure is the one given
                fig, axs = plt.subplots(2, 2)
                shown.clear(), paused.clear()
                ax = fn(ax=axs[1, 0])
                ctx.check(ax is axs[1, 0] and not shown and not paused and len(plt.get_fignums()) == 1, f"context/{name}/supplied", f"{name}(ax=...): drew elsewhere or showed the figure", cls="context")
                ctx.check(not any(a.lines or a.collections or a.patches for a in (axs[0, 0], axs[0, 1], axs[1, 1])), f"context/{name}/supplied-only", f"{name}(ax=...): other axes were drawn on", cls="context")
                plt.close(fig)
                # new figure with several axes
                for kw, pos in ((dict(nrows=2, ncols=2), 0), (dict(nrows=2, ncols=2, axis_index=(1, 0)), 2), (dict(nrows=1, ncols=3, axis_index=2), 2), (dict(nrows=2, ncols=2, axis_index=(0, 1)), 1), (dict(nrows=3), 0)):
                    ax = fn(render=False, **kw)
                    grid = ax.figure.axes
                    ctx.check(grid[pos] is ax, f"context/{name}/axis-index", f"{name}({kw}): drawn on axes {grid.index(ax)}, expected {pos}", cls="context")
                    plt.close(ax.figure)
                ctx.raises(ValueError, lambda: fn(render=False, nrows=2, ncols=2, axis_index=(2, 5)), f"context/{name}/bad-index", f"{name}: axis_index out of range")
                ctx.saw("context")
                plt.close("all")
    finally:
        plt.show, plt.pause = old
    ctx.signature("context", sec.name, s.num_nodes)
    ctx.note(section=sec.name, plots=list(plots))
