"""P25: documented warnings and errors occur exactly when their condition holds; valid input never triggers one."""
import math
import warnings

import numpy as np
from shapely import affinity
from shapely.geometry import MultiPolygon, Point, Polygon, box
from shapely.ops import unary_union

from harness import gens as G
from harness import props as R
from sectionproperties.analysis import Section
from sectionproperties.pre import Geometry, Material
from sectionproperties.pre.geometry import CompoundGeometry, check_geometry_disjoint, check_geometry_overlaps

VALID = G.HOMOG + G.COMP + ["stackc"] + G.DISJ
CASES = {"quick": {"layout": 60, "tjunction": 16, "sliver": 24, "chain": 2, **{f"valid:{k}": 6 for k in VALID}, "input": 30}}
CASES["thorough"] = {k: v * 40 for k, v in CASES["quick"].items()} | {"chain": 6}
FLOORS = {"long-chain": 1, "slight-overlap": 20, "slight-gap": 10, "just-touching": 10, "overlap": 250, "disjoint": 200, "really-overlapping": 60, "really-disjoint": 15, "really-valid": 60, "quiet": 700, "refused": 900, "predicate": 250, "nomesh": 300}
RULE = ("random arrangements of grid-aligned regions (touching, nested, overlapping, separated, with T-junctions) under random translation, rotation and scale, whose truth is known from the cells; "
        "all analyses of valid sections with every Python warning recorded; every documented invalid argument")
ASSUMPTIONS = ["overlaps are at least 4e-9 of the section and gaps at least 1e-6 of its size; regions touching in single points only are not judged for connectivity",
               "the iterative solver may give up with its documented RuntimeError",
               "units keep the smallest dimension above about 1e-6 (vertices are rounded to 12 decimals)"]
OV, DJ = "overlapping regions", "disjoint regions"


def record(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            out, err = fn(), None
        except Exception as e:   # noqa: BLE001
            out, err = None, e
    return out, err, [x for x in w]


def has(ws, text):
    return any(text in str(w.message) and issubclass(w.category, UserWarning) for w in ws)


# ------------------------------------------------------------------------------------------------ layouts with known truth
def grow(rng, free, n):
    """a connected set of n free cells, simply connected as a polygon (checked by the caller)"""
    c = list(free)[int(rng.integers(len(free)))]
    out = {c}
    for _ in range(n - 1):
        nb = [(a + dx, b + dy) for a, b in out for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)) if (a + dx, b + dy) in free and (a + dx, b + dy) not in out]
        if not nb:
            break
        out.add(sorted(nb)[int(rng.integers(len(nb)))])
    return out


def layout(rng):
    """list of cell sets; truth of overlap, edge connectivity, and whether corner contacts make connectivity ambiguous"""
    N = int(rng.integers(3, 6))
    cells = [(i, j) for i in range(N) for j in range(N)]
    k = int(rng.integers(2, 6))
    parts, used = [], set()
    overlap_wanted = rng.random() < .45
    for i in range(k):
        free = set(cells) if overlap_wanted and i and rng.random() < .6 else set(cells) - used
        if rng.random() < .5 and used:      # next to what is already there
            near = {c for c in free if any((c[0] + dx, c[1] + dy) in used for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)))}
        else:
            near = free
        if not near:
            continue
        start = sorted(near)[int(rng.integers(len(near)))]
        p = grow(rng, {start}, 1)
        for _ in range(int(rng.integers(0, 5))):
            nb = sorted({(a + dx, b + dy) for a, b in p for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1))} & free - p)
            if not nb:
                break
            p.add(nb[int(rng.integers(len(nb)))])
        parts.append(p)
        used |= p
    if len(parts) < 2:
        return None
    return N, parts


def polygon(p, xs, ys):
    u = unary_union([box(xs[a], ys[b], xs[a + 1], ys[b + 1]) for a, b in p])
    return u if isinstance(u, Polygon) and u.is_valid and not any(Polygon(r).area <= 0 for r in u.interiors) else None


def corner_touch(polys):
    """a boundary point where regions or a region and itself meet in a single point only"""
    for i, p in enumerate(polys):
        for q in polys[:i]:
            x = p.intersection(q)
            if not x.is_empty and x.area == 0 and x.length == 0:
                return True
    return False


def graph_connected(polys):
    n = len(polys)
    adj = {i: {j for j in range(n) if j != i and (polys[i].intersection(polys[j]).length > 0 or polys[i].intersection(polys[j]).area > 0)} for i in range(n)}
    seen, todo = {0}, [0]
    while todo:
        for j in adj[todo.pop()]:
            if j not in seen:
                seen.add(j)
                todo.append(j)
    return len(seen) == n


def transform(rng, geom, L):
    """random chain of the library's own rigid motions and scalings (through shapely), returns new geometry and a description"""
    tr = []
    for _ in range(int(rng.integers(0, 4))):
        k = int(rng.integers(4))
        if k == 0:
            dx, dy = (float(v) * L for v in rng.uniform(-1, 1, 2) * 10 ** rng.uniform(-2, 2))
            geom = geom.shift_section(dx, dy)
            tr.append(("shift", dx, dy))
        elif k == 1:
            a = float(rng.choice([30, 45, 90, 180, 270, float(rng.uniform(0, 360))]))
            pt = "center" if rng.random() < .5 else tuple(float(v) * L for v in rng.uniform(-2, 2, 2))
            geom = geom.rotate_section(a, rot_point=pt)
            tr.append(("rotate", a, pt))
        elif k == 2:
            ax = str(rng.choice(["x", "y"]))
            geom = geom.mirror_section(axis=ax)
            tr.append(("mirror", ax))
        else:
            geom = geom.align_center()
            tr.append(("centre",))
    return geom, tr


def check_layout(ctx, rng):
    for _ in range(60):
        lay = layout(rng)
        if not lay:
            continue
        N, parts = lay
        thin = float(rng.choice([.5, .02, 5e-3, 1e-3]))
        xs = np.cumsum(np.concatenate([[0], rng.choice([1.0, 2.0, .5, .05, 3.0, thin], N)]))
        ys = np.cumsum(np.concatenate([[0], rng.choice([1.0, 2.0, .5, .05, 3.0, thin], N)]))
        k = float(10 ** rng.uniform(-2, 4)) if rng.random() < .7 else 1.0
        polys = [polygon(p, xs * k, ys * k) for p in parts]
        if any(p is None for p in polys):
            continue
        # a region wholly inside another without a hole, or equal to it, cannot be meshed as a region of its own: still an overlap
        break
    else:
        return
    L = max(xs[-1], ys[-1]) * k
    cell_count = sum(len(p) for p in parts)
    overlap = len(set().union(*parts)) != cell_count
    ambiguous = corner_touch(polys)
    connected = graph_connected(polys)
    comp = rng.random() < .6
    mats = G.rmats(rng, len(polys))
    order = rng.permutation(len(polys))
    polys, parts = [polys[i] for i in order], [parts[i] for i in order]
    geoms = [Geometry(p, material=mats[i]) if comp else Geometry(p) for i, p in enumerate(polys)]
    geom = CompoundGeometry(geoms)
    geom, tr = transform(rng, geom, L)
    m = f"regions {[sorted(p) for p in parts]} (overlap {overlap}, connected {connected}) after {tr}, scale {k:.3g}"
    now = [g.geom for g in geom.geoms]
    ctx.check(check_geometry_overlaps(now) == overlap, "predicate/overlaps", f"{m}: check_geometry_overlaps is {not overlap}", cls="predicate")
    if not ambiguous:
        ctx.check(check_geometry_disjoint(now) == (not connected), "predicate/disjoint", f"{m}: check_geometry_disjoint is {connected}", cls="predicate")
    _, err, w = record(lambda: geom.create_mesh(mesh_sizes=[geom.geom.area / 40]))
    if err is not None:
        ctx.check(overlap, "valid/mesh", f"{m}: create_mesh raised {err!r}", cls="quiet")
        return
    s, err, w = record(lambda: Section(geom))
    if err is not None:
        # regions hidden by others: the documented error
        ctx.check(overlap and isinstance(err, ValueError), "valid/section", f"{m}: Section raised {err!r}", cls="quiet")
        return
    _, err, w = record(s.calculate_geometric_properties)
    ctx.check(err is None and not w, "valid/geometric", lambda: f"{m}: geometric analysis: {err!r} {[str(x.message) for x in w]}", cls="quiet")
    _, err, w = record(lambda: s.calculate_plastic_properties(verbose=False))
    ctx.check(has(w, OV) == overlap, "overlap/plastic", lambda: f"{m}: plastic analysis warnings {[str(x.message).strip()[:60] for x in w]}", cls="overlap")
    if not overlap:
        ctx.check(err is None and not w, "valid/plastic", lambda: f"{m}: plastic analysis: {err!r} {[str(x.message)[:80] for x in w]}", cls="quiet")
    if not ambiguous:
        for name in ("calculate_warping_properties",):
            _, err, w = record(getattr(s, name))
            ctx.check(has(w, DJ) == (not connected), "disjoint/warping", lambda: f"{m}: warping analysis warnings {[str(x.message).strip()[:60] for x in w]}", cls="disjoint")
            if connected and not overlap:
                ctx.check(err is None and not w, "valid/warping", lambda: f"{m}: warping analysis: {err!r} {[str(x.message)[:80] for x in w]}", cls="quiet")
    ctx.saw("really-overlapping" if overlap else "really-disjoint" if not connected else "really-valid")
    ctx.info["layout"] = [sorted(map(list, p)) for p in parts]
    ctx.signature("layout", [sorted(p) for p in parts], tr, k)
    ctx.note(regions=[len(p) for p in parts], overlap=bool(overlap), connected=bool(connected), corner=bool(ambiguous), transforms=[t[0] for t in tr], warnings=len(w))


# ------------------------------------------------------------------------------------------------ T-junctions
def check_tjunction(ctx, rng):
    """plates of different widths joined without shared corners, then moved: connected and not overlapping"""
    k = float(10 ** rng.uniform(-2, 4))
    n = int(rng.integers(2, 5))
    y, x0 = 0.0, 0.0
    geom = None
    mats = G.rmats(rng, n)
    comp = rng.random() < .7
    prev = None
    for i in range(n):
        b, d = (float(v) for v in np.round(rng.uniform(.3, 3, 2), 3))
        if prev:
            x0 = float(np.round(rng.uniform(prev[0] - .7 * b, prev[1] - .3 * b), 3))
        g = Geometry(box(x0 * k, y * k, (x0 + b) * k, (y + d) * k), **({"material": mats[i]} if comp else {}))
        y += d
        prev = (x0, x0 + b)
        geom = g if geom is None else geom + g
    geom, tr = transform(rng, geom, 3 * k)
    m = f"{n} plates at scale {k:.4g} after {tr}"
    now = [g.geom for g in geom.geoms]
    ctx.check(not check_geometry_overlaps(now), "predicate/overlaps", f"{m}: check_geometry_overlaps is True", cls="predicate")
    ctx.check(not check_geometry_disjoint(now), "predicate/disjoint", f"{m}: check_geometry_disjoint is True", cls="predicate")
    geom.create_mesh(mesh_sizes=[geom.geom.area / 60])
    s = Section(geom)
    full(ctx, s, True, m)
    ctx.signature("tjunction", n, tr, k)
    ctx.note(plates=n, scale=k, transforms=[t[0] for t in tr], elements=len(s.elements))


# ------------------------------------------------------------------------------------------------ slight overlaps and gaps
def check_sliver(ctx, rng):
    """two plates side by side that touch, overlap a little or stand a little apart"""
    k = float(10 ** rng.uniform(-2, 4))
    b1, b2, d1, d2 = (float(v) for v in np.round(rng.uniform(.3, 3, 4), 3))
    e = float(rng.choice([-1, 0, 1, 1])) * float(10 ** rng.uniform(-6, -1.5))
    y0 = float(np.round(rng.uniform(-.5 * d2, .8 * d1), 3))
    if abs(y0 + d2 - d1) < 1e-6:        # tops that agree by chance must agree exactly
        d1 = y0 + d2
    polys = [box(0, 0, b1 * k, d1 * k), box((b1 - e) * k if e else b1 * k, y0 * k, (b1 - e + b2) * k, (y0 + d2) * k)]
    mats = G.rmats(rng, 2)
    comp = rng.random() < .6
    geom = CompoundGeometry([Geometry(p, **({"material": q} if comp else {})) for p, q in zip(polys, mats)])
    geom, tr = transform(rng, geom, 3 * k) if rng.random() < .5 else (geom, [])
    now = [g.geom for g in geom.geoms]
    m = f"plates {b1:.3g} x {d1:.3g} and {b2:.3g} x {d2:.3g} at {y0:.3g} overlapping by {e:.3g}, all times {k:.4g}, after {tr}"
    ctx.check(check_geometry_overlaps(now) == (e > 0), "predicate/overlaps", f"{m}: check_geometry_overlaps is {e <= 0}", cls="predicate")
    ctx.check(check_geometry_disjoint(now) == (e < 0), "predicate/disjoint", f"{m}: check_geometry_disjoint is {e >= 0}", cls="predicate")
    if 0 < e < 1e-3:
        return
    geom.create_mesh(mesh_sizes=[geom.geom.area / 30])
    s, err, w = record(lambda: Section(geom))
    ctx.check(err is None, "valid/section", f"{m}: Section raised {err!r}", cls="quiet")
    record(s.calculate_geometric_properties)
    _, err, w = record(lambda: s.calculate_plastic_properties(verbose=False))
    ctx.check(has(w, OV) == (e > 0), "overlap/plastic", lambda: f"{m}: plastic analysis warnings {[str(x.message).strip()[:60] for x in w]}", cls="overlap")
    _, err, w = record(s.calculate_warping_properties)
    ctx.check(has(w, DJ) == (e < 0), "disjoint/warping", lambda: f"{m}: warping analysis warnings {[str(x.message).strip()[:60] for x in w]}", cls="disjoint")
    ctx.saw("slight-overlap" if e > 0 else "slight-gap" if e < 0 else "just-touching")
    ctx.signature("sliver", e, k)
    ctx.note(overlap=e, scale=k, transforms=[t[0] for t in tr])


def check_chain(ctx, rng, i):
    """a laminate of very many layers, each touching only its neighbours, with and without one layer missing"""
    n = int(rng.integers(1020, 1100))
    k = float(10 ** rng.uniform(-2, 3))
    ts = np.concatenate([[0], np.cumsum(np.round(rng.uniform(.5, 2, n), 2))]) * k
    gone = int(rng.integers(5, n - 5)) if i % 2 else -1
    lop = [box(0, a, 7 * k, b) for j, (a, b) in enumerate(zip(ts, ts[1:])) if j != gone]
    got, err, w = record(lambda: check_geometry_disjoint(lop))
    m = f"{n} layers of width {7 * k:.4g}" + (f" without layer {gone}" if gone >= 0 else "")
    ctx.check(err is None, "predicate/disjoint", f"{m}: check_geometry_disjoint raised {err!r}", cls="predicate")
    ctx.check(err is not None or got == (gone >= 0), "predicate/disjoint", f"{m}: check_geometry_disjoint is {got}", cls="predicate")
    ctx.saw("long-chain")
    ctx.signature("chain", n, gone)
    ctx.note(layers=n, missing=gone, scale=k)


def full(ctx, s, connected, m):
    """every analysis of a valid section, silently"""
    for name, fn in (("geometric", s.calculate_geometric_properties), ("warping", s.calculate_warping_properties), ("warping-cgs", lambda: s.calculate_warping_properties(solver_type="cgs")),
                     ("frame", s.calculate_frame_properties), ("plastic", lambda: s.calculate_plastic_properties(verbose=False)),
                     ("stress", lambda: s.calculate_stress(n=1e3, mxx=3e3, m22=-2e3, **(dict(vx=1e2, vy=-3e2, mzz=5e2) if connected else {})))):
        if not connected and name in ("warping-cgs", "frame"):
            continue
        _, err, w = record(fn)
        if not connected and name == "warping":
            ctx.check(has(w, DJ), "disjoint/warping", lambda: f"{m}: no warning about disjoint regions: {[str(x.message)[:60] for x in w]} {err!r}", cls="disjoint")
            continue
        if name == "warping-cgs" and isinstance(err, RuntimeError) and any(x in str(err) for x in ("did not converge", "exceeds tolerance")):
            ctx.saw("cgs-gave-up")      # the documented outcome of the iterative solver
            continue
        ctx.check(err is None, f"valid/{name}", lambda: f"{m}: {name} analysis raised {err!r}", cls="quiet")
        ctx.check(not w, f"valid/{name}-warnings", lambda: f"{m}: {name} analysis warned {[(x.category.__name__, str(x.message).strip()[:90]) for x in w]}", cls="quiet")


def check_valid(ctx, rng, kind):
    k = float(10 ** rng.uniform(-2.5, 4.5))
    sec = G.zoo(rng, kind, scale=k, far=float(rng.choice([0, 0, 1, 5, 20])))
    geom, tr = transform(rng, sec.geom, sec.L)
    m = f"{sec.name} (scale {k:.3g}) after {tr}"
    single = isinstance(geom, Geometry) and not isinstance(geom, CompoundGeometry)
    if not single:
        now = [g.geom for g in geom.geoms]
        ctx.check(not check_geometry_overlaps(now), "predicate/overlaps", f"{m}: check_geometry_overlaps is True", cls="predicate")
        ctx.check(check_geometry_disjoint(now) == (not sec.connected), "predicate/disjoint", f"{m}: check_geometry_disjoint is {sec.connected}", cls="predicate")
    A = sum(p.area for _, p in sec.regions)
    n_el = int(rng.choice([3, 30, 120]))
    size = A / n_el
    arg = [size, float(size), [size]][int(rng.integers(3))]
    _, err, w = record(lambda: geom.create_mesh(mesh_sizes=arg))
    ctx.check(err is None and not w, "valid/mesh", lambda: f"{m}: create_mesh({arg}): {err!r} {[str(x.message)[:80] for x in w]}", cls="quiet")
    s, err, w = record(lambda: Section(geom))
    if not ctx.check(err is None and not w, "valid/section", lambda: f"{m}: Section: {err!r} {[str(x.message)[:80] for x in w]}", cls="quiet"):
        return
    full(ctx, s, sec.connected, m)
    # a geometry derived from a meshed one has no mesh until it is meshed again
    for name, fn in (("shift_section", lambda: geom.shift_section(1.0, 2.0)), ("rotate_section", lambda: geom.rotate_section(12.0)), ("mirror_section", lambda: geom.mirror_section("x")),
                     ("align_center", lambda: geom.align_center())):
        g2 = fn()
        _, err, _ = record(lambda: Section(g2))
        ok = isinstance(err, ValueError) and "mesh" in str(err)
        if err is None:     # a mesh that belongs to the new geometry would be fine as well
            v = np.asarray(g2.mesh["vertices"], float)
            x = np.array(g2.calculate_extents())
            ok = np.allclose([v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max()], x, rtol=0, atol=1e-9 * (abs(x).max() + sec.L))
        ctx.check(ok, "nomesh/derived", lambda: f"{m}: Section of the unmeshed {name} result: {err!r}", cls="nomesh")
    ctx.signature(sec.name, tr, k, s.num_nodes)
    ctx.note(section=sec.name, transforms=[t[0] for t in tr], scale=k, elements=len(s.elements))


# ------------------------------------------------------------------------------------------------ invalid arguments
def check_input(ctx, rng):
    k = float(10 ** rng.uniform(-1, 3))
    sec = G.zoo(rng, str(rng.choice(["rpoly", "quad", "lib"])), scale=k)
    g1 = sec.geom
    csec = G.zoo(rng, str(rng.choice(["strips", "inset"])), scale=k)
    gc = csec.geom
    A = g1.calculate_area()
    R_ = lambda exc, fn, key, msg="", match=None: (ctx.raises(exc, fn, key, msg, match), ctx.saw("refused"))   # noqa: E731
    # unmeshed geometry
    for g, nm in ((Geometry(g1.geom), "Geometry"), (CompoundGeometry([Geometry(x.geom, x.material) for x in gc.geoms]), "CompoundGeometry")):
        R_(ValueError, lambda: Section(g), f"input/no-mesh-{nm}", f"Section({nm} without mesh)", "mesh")
    # mesh sizes
    for bad in ([A / 10, A / 20], [A, A, A], [], None, "5", (A / 10,), {"a": 1}, [[A]] * 2, object()):
        before = getattr(g1, "mesh", None)
        R_(ValueError, lambda: g1.create_mesh(mesh_sizes=bad), "input/mesh-sizes", f"Geometry.create_mesh({bad!r})", "mesh_sizes")
        ctx.check(getattr(g1, "mesh", None) is before, "input/mesh-sizes-state", f"create_mesh({bad!r}) left a mesh behind", cls="refused")
    nreg = len(gc.geoms)
    if nreg > 2:
        R_(Exception, lambda: gc.create_mesh(mesh_sizes=[A] * (nreg - 1)), "input/mesh-sizes-compound", f"CompoundGeometry.create_mesh of {nreg} regions with {nreg - 1} sizes")
    R_(Exception, lambda: gc.create_mesh(mesh_sizes=[]), "input/mesh-sizes-compound", "CompoundGeometry.create_mesh([])")
    for ok in (A / 7, [A / 7], int(max(1, A // 5)), [int(max(1, A // 5))]):
        _, err, w = record(lambda: g1.create_mesh(mesh_sizes=ok))
        ctx.check(err is None and not w, "valid/mesh", f"Geometry.create_mesh({ok!r}): {err!r}", cls="quiet")
    for ok in (A / 7, [A / 7], [A / (3 + i) for i in range(nreg)]):
        _, err, w = record(lambda: gc.create_mesh(mesh_sizes=ok))
        ctx.check(err is None and not w, "valid/mesh", f"CompoundGeometry.create_mesh({ok!r}): {err!r}", cls="quiet")
    # constructors
    p = g1.geom
    far = affinity.translate(p, 10 * sec.L, 0)
    R_(ValueError, lambda: Geometry(MultiPolygon([p, far])), "input/multipolygon", "Geometry(MultiPolygon)", "CompoundGeometry")
    for bad in (None, [(0, 0), (1, 0), (0, 1)], Point(0, 0), p.exterior, "POLYGON EMPTY", 5):
        R_(ValueError, lambda: Geometry(bad), "input/not-a-polygon", f"Geometry({bad!r})")
    # solver names
    s1, sc = Section(g1), Section(gc)
    for s in (s1, sc):
        s.calculate_geometric_properties()
        for bad in ("", "cg", "CGS", "Direct", "lu", None, 3):
            R_(ValueError, lambda: s.calculate_warping_properties(solver_type=bad), "input/solver-warping", f"calculate_warping_properties(solver_type={bad!r})", "solver_type")
            R_(ValueError, lambda: s.calculate_frame_properties(solver_type=bad), "input/solver-frame", f"calculate_frame_properties(solver_type={bad!r})", "solver_type")
        R_(RuntimeError, s.get_gamma if not s.is_composite() else s.get_egamma, "input/solver-state", "warping constant after a refused analysis")
    post = s1.calculate_stress(n=1.0)
    for bad in ("", "sig_zz", "N", "vx", "m_zy", "zz ", "ZZ", None):
        R_((KeyError, ValueError), lambda: post.plot_stress(stress=bad, render=False), "input/stress-name", f"plot_stress({bad!r})")
        R_((KeyError, ValueError), lambda: post.plot_stress_vector(stress=bad, render=False), "input/stress-name-vector", f"plot_stress_vector({bad!r})")
    c = np.array(g1.calculate_extents())
    R_(ValueError, lambda: post.plot_mohrs_circles(float(c[1] + sec.L), float(c[3] + sec.L), render=False), "input/mohr-outside", "point outside the mesh", "not within")
    # geometry operations
    for bad in (5, "left-ish", (1,), (1, 2, 3), ("a", "b"), object()):
        if not isinstance(bad, str):
            R_(ValueError, lambda: g1.align_center(align_to=bad), "input/align-center", f"Geometry.align_center({bad!r})", "align_to")
            R_(ValueError, lambda: gc.align_center(align_to=bad), "input/align-center-compound", f"CompoundGeometry.align_center({bad!r})", "align_to")
    x = g1.calculate_centroid()
    R_(ValueError, lambda: g1.split_section(point_i=x), "input/split-no-line", "split_section without point_j or vector", "second point or a vector")
    for bad in ("", "outside", "Exterior", "both"):
        R_(ValueError, lambda: g1.offset_perimeter(amount=.01 * sec.L, where=bad), "input/offset-where", f"offset_perimeter(where={bad!r})", "where")
    if not p.interiors:
        R_(ValueError, lambda: g1.offset_perimeter(amount=.01 * sec.L, where="interior"), "input/offset-interior", "offset_perimeter(where='interior') without holes", "holes")
    for bad in (None, 3, "x", [1, 2], p):
        for op, f in (("union", lambda: g1 | bad), ("symmetric difference", lambda: g1 ^ bad), ("difference", lambda: g1 - bad), ("intersection", lambda: g1 & bad), ("CompoundGeometry", lambda: g1 + bad)):
            R_(Exception, f, f"input/operand-{op.replace(' ', '-')}", f"Geometry {op} {bad!r}")
    # point input
    P = [(0, 0), (k, 0), (k, k), (0, k)]
    F = [(0, 1), (1, 2), (2, 3), (3, 0)]
    cp = [(k / 2, k / 2)]
    R_(ValueError, lambda: Geometry.from_points(P, F, []), "input/from-points-cp", "Geometry.from_points without control point", "exactly")
    R_(ValueError, lambda: Geometry.from_points(P, F, cp + [(k / 3, k / 3)]), "input/from-points-cp", "Geometry.from_points with two control points", "exactly")
    R_(ValueError, lambda: CompoundGeometry.from_points(P, F, []), "input/compound-points-cp", "CompoundGeometry.from_points without control points")
    R_(ValueError, lambda: CompoundGeometry.from_points(P, F, cp + [(k / 3, k / 3)]), "input/compound-points-count", "more control points than regions", "control_points")
    R_(ValueError, lambda: CompoundGeometry.from_points(P, F, cp, materials=G.rmats(rng, 2)), "input/compound-points-materials", "more materials than control points", "materials")
    R_(ValueError, lambda: CompoundGeometry.from_points(P, F, [], materials=G.rmats(rng, 1)), "input/compound-points-materials", "materials without control points", "control_points")
    Q = [(k / 4, k / 4), (3 * k / 4, k / 4), (3 * k / 4, 3 * k / 4), (k / 4, 3 * k / 4)]
    # a control point inside the declared hole
    R_(ValueError, lambda: CompoundGeometry.from_points(P + Q, F + [(4, 5), (5, 6), (6, 7), (7, 4)], [(k / 2, k / 2)], holes=[(k / 2, k / 2)]), "input/control-point-in-hole", "control point inside the hole")
    for nm in ("missing.dxf", "/nonexistent/dir/x.dxf"):
        R_((ValueError, ImportError), lambda: Geometry.from_dxf(nm), "input/dxf-missing", f"from_dxf({nm!r})")
    # the documented region/material mismatch: the control point of the last region lies outside of everything
    n = int(rng.integers(2, 5))
    gs = [Geometry(box(i * k, 0, (i + 1) * k, k), control_points=((n + 3) * k, .5 * k) if i == n - 1 else None) for i in range(n)]
    gs = CompoundGeometry(gs).create_mesh(mesh_sizes=[k * k / 10])
    R_(ValueError, lambda: Section(gs), "input/region-count", f"Section of {n} regions of which the mesh knows {n - 1}", "umber of materials")
    ctx.signature("input", sec.name, csec.name, k)
    ctx.note(sections=[sec.name, csec.name], scale=k)


def run(ctx, case):
    k = case["kind"]
    if k == "layout":
        for _ in range(6):
            check_layout(ctx, ctx.rng)
    elif k == "tjunction":
        for _ in range(3):
            check_tjunction(ctx, ctx.rng)
    elif k == "sliver":
        for _ in range(8):
            check_sliver(ctx, ctx.rng)
    elif k == "chain":
        check_chain(ctx, ctx.rng, case["i"])
    elif k == "input":
        check_input(ctx, ctx.rng)
    else:
        check_valid(ctx, ctx.rng, k.split(":")[1])
