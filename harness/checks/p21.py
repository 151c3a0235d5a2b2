"""P21: the exported fibre section, parsed by an independent reader and checked against the section it describes."""
import contextlib
import io
import math
import os
import re
import shutil
import tempfile

import numpy as np

from harness import fe as F
from harness import gens as G
from harness import oracles as O
from harness.common import SCRATCH
from sectionproperties.analysis import Section
from sectionproperties.post.fibre import to_fibre_section
from sectionproperties.pre import Geometry, Material
from sectionproperties.pre.library import rectangular_section
from sectionproperties.pre.pre import DEFAULT_MATERIAL

KINDS = G.HOMOG + G.COMP + ["disjoint", "disjoint_c"]
CASES = {"quick": {**{f"export:{k}": 12 for k in KINDS}, "refuse": 20}}
CASES["thorough"] = {k: v * 30 for k, v in CASES["quick"].items()}
FLOORS = {"parse": 30000, "cell": 100000, "tags": 30000, "material": 10000, "total": 1500, "omega": 10000, "file": 60, "width": 200, "refuse": 60, "section": 400}
RULE = ("random sections exported in the three formats, from geometry or section (fresh, analysed, re-meshed), with hostile material names, "
        "partial mappings, any main tag and line width; the text is read back by an independent parser")
ASSUMPTIONS = ["material names are distinct after whitespace has been joined by '-' (the exported form)",
               "the warping function of disjoint sections is not unique and is not compared"]
NAMES = ["default", "Cell", "section", "Fibre3DOS", "Cell3D 1", "1", "2", "C30", "C30/37", "C30/37 long term", "Béton armé", "steel", "steel 2", "steel-3",
         "steel  2b", " lead ", "a\tb", "1.0e+00", "S355", "S35", "Stahl ä ö", "e", "-", "0", "#hash", "$1", "\\", "%s", "{x}", "Cell3DOS", "2D", "mat 1 of 2"]
TAGNAMES = ["1", "17", "m_new", "Cell", "0", "steel", "42"]


def norm(name):
    return "-".join(name.split())


def parse(ctx, text, nm):
    """reader for the documented commands; returns (class, tag, cell tags, cells)"""
    phys = text.split("\n")
    head = [l for l in phys if l.startswith("#")]
    body = [l for l in phys if not l.startswith("#")]
    ctx.check(len(head) > 0 and phys[:len(head)] == head, "parse/header", f"{nm}: comment lines are not at the top", cls="parse")
    logical, cur = [], ""
    for l in body:
        if l.endswith("\\"):
            cur += l[:-1] + " "
        else:
            cur += l
            if cur.strip():
                logical.append(cur)
            cur = ""
    ctx.check(cur.strip() == "", "parse/unfinished", f"{nm}: the text ends in a continuation", cls="parse")
    main = [l.split() for l in logical if l.split()[:1] == ["section"] and l.split()[1].startswith("Fibre")]
    if not ctx.check(len(main) == 1 and logical and logical[0].split() == main[0], "parse/main", f"{nm}: {len(main)} main section commands", cls="parse"):
        return None
    m = main[0]
    cells = []
    for l in logical[1:]:
        t = l.split()
        n = {"Cell2D": 6, "Cell3D": 7, "Cell3DOS": 10}.get(t[1] if len(t) > 1 else "", -1)
        if not ctx.check(t[0] == "section" and len(t) == n, "parse/cell", f"{nm}: not a cell command: {l!r}", cls="parse"):
            return None
        try:
            if t[1] == "Cell2D":
                c = dict(tag=int(t[2]), area=float(t[3]), mat=t[4], y=float(t[5]))
            elif t[1] == "Cell3D":
                c = dict(tag=int(t[2]), area=float(t[3]), mat=t[4], y=float(t[5]), z=float(t[6]))
            else:
                c = dict(tag=int(t[2]), area=float(t[3]), om=float(t[4]), py=float(t[5]), pz=float(t[6]), mat=t[7], y=float(t[8]), z=float(t[9]))
        except ValueError:
            ctx.violate("parse/number", f"{nm}: {l!r}")
            return None
        c["cls"] = t[1]
        cells.append(c)
    try:
        return m[1], int(m[2]), [int(x) for x in m[3:]], cells
    except ValueError:
        ctx.violate("parse/main", f"{nm}: {m[:6]}")
        return None


def rename(rng, sec):
    """give the materials of the section hostile names (distinct after normalisation)"""
    mats = list({id(m): m for m, _ in sec.regions}.values())
    eq = {}
    for m in mats:
        eq.setdefault((m.elastic_modulus, m.poissons_ratio, m.yield_strength, m.density, m.color, m.name), []).append(m)
    names = []
    while len(names) < len(eq):
        n = str(rng.choice(NAMES))
        if norm(n) not in [norm(x) for x in names]:
            names.append(n)
    import dataclasses
    new = {}
    for n, (k, ms) in zip(names, eq.items()):
        for m in ms:
            new[id(m)] = dataclasses.replace(m, name=n)
    geoms = getattr(sec.geom, "geoms", [sec.geom])
    # regions and geoms hold the same material objects in different orders possibly: match by identity
    for g in geoms:
        if id(g.material) in new:
            g.material = new[id(g.material)]
        else:
            g.material = new[next(id(m) for m in mats if m == g.material)]
    if len(geoms) == 1:
        sec.geom.material = geoms[0].material
    sec.regions = [(new[id(m)], p) for m, p in sec.regions]


def run(ctx, case):
    rng = ctx.rng
    if case["kind"] == "refuse":
        return refuse(ctx, rng)
    kind = case["kind"].split(":")[1]
    sec = G.zoo(rng, kind, scale=float(10 ** rng.uniform(-2, 3)), far=float(rng.choice([0, 0, 1, 5])))
    nm = sec.name
    comp = sec.composite
    if comp and rng.random() < .8:
        rename(rng, sec)
    sec.mesh(int(rng.integers(8, 120)))
    mesh = sec.geom.mesh
    state = str(rng.choice(["geometry", "section", "analysed", "remeshed"]))
    obj = sec.geom
    if state != "geometry":
        obj = Section(sec.geom)
    before = None
    if state == "analysed":
        obj.calculate_geometric_properties()
        if sec.connected:
            obj.calculate_warping_properties()
    if state == "remeshed":
        sec.geom.create_mesh(mesh_sizes=[sec.area() / int(rng.integers(4, 60))])
    if isinstance(obj, Section):
        before = {k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else v) for k, v in obj.section_props.asdict().items()}
        coords = [e.coords.copy() for e in obj.elements]
    ref = F.reference(sec, mesh)
    names = [norm(m.name) for m, _ in sec.regions]
    scratch = tempfile.mkdtemp(dir=SCRATCH)
    try:
        for typ in ("2D", "3D", "3DOS"):
            opts = {}
            tag = 1
            if rng.random() < .7:
                opts["main_section_tag"] = tag = int(rng.choice([1, 2, 10, 99, 1000, 123456, int(rng.integers(1, 10 ** 6))]))
            if not (typ == "3DOS" and rng.random() < .3):
                opts["analysis_type"] = typ if rng.random() < .7 else typ.lower()
            width = 160
            if rng.random() < .5:
                opts["max_width"] = width = int(rng.choice([40, 60, 72, 80, 120, 161, 1000, 10 ** 6]))
            mapping = {}
            if rng.random() < .6:
                have = sorted({m.name for m, _ in sec.regions})
                for n in have:
                    if rng.random() < .7:
                        mapping[n] = int(rng.integers(1, 50)) if rng.random() < .6 else str(rng.choice(TAGNAMES))
                for n in NAMES:
                    if rng.random() < .15 and norm(n) not in names:
                        mapping[n] = int(rng.integers(100, 999))
                if rng.random() < .3:
                    mapping = {norm(k): v for k, v in mapping.items()}
                opts["material_mapping"] = dict(mapping)
            path = None
            if rng.random() < .5:
                path = opts["save_to"] = os.path.join(scratch, str(rng.choice(["out.sp", "fibre", "ä b.txt"])))
                if rng.random() < .3:
                    open(path, "w").write("something longer that was there before\n" * 5000)
            with contextlib.redirect_stdout(io.StringIO()):
                text = to_fibre_section(obj, **opts)
            m = f"{nm} {typ} {state} {opts}"
            if path:
                ctx.check(open(path, newline="").read() == text, "file/content", f"{m}: the file differs from the returned text", cls="file")
            if mapping:
                ctx.check(opts["material_mapping"] == mapping, "material/mapping-changed", f"{m}: the caller's mapping was altered", cls="material")
            one(ctx, sec, ref, text, typ, tag, width, {norm(k): str(v) for k, v in mapping.items()}, names, m)
        # the exported object keeps its results
        if before is not None:
            for k, v in before.items():
                w = getattr(obj.section_props, k)
                ctx.check(np.array_equal(v, w) if isinstance(v, np.ndarray) else v is w or v == w, "section/results-changed", f"{nm}: {k} changed by the export", cls="section")
            ctx.check(all(np.array_equal(a, e.coords) for a, e in zip(coords, obj.elements)), "section/elements-changed", f"{nm}: element coordinates changed", cls="section")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.signature(nm, ref.ea, len(ref.m.tris))
    ctx.note(section=nm, elements=len(ref.m.tris), state=state, names=names[:6])


def one(ctx, sec, ref, text, typ, tag, width, mapping, names, m):
    got = parse(ctx, text, m)
    if got is None:
        return
    cls, mtag, tags, cells = got
    tris = ref.m.tris
    ne = len(tris)
    ctx.check(cls == f"Fibre{typ}", "parse/class", f"{m}: {cls}", cls="parse")
    ctx.check(mtag == tag, "tags/main", f"{m}: main tag {mtag}", cls="tags")
    if not ctx.check(len(cells) == ne, "tags/count", f"{m}: {len(cells)} fibres for {ne} elements", cls="tags"):
        return
    ct = [c["tag"] for c in cells]
    ctx.check(tags == ct, "tags/listed", f"{m}: the section lists {tags[:5]}.., the fibres are {ct[:5]}..", cls="tags", n=ne)
    ctx.check(len(set(ct)) == ne and tag not in ct and sorted(ct) == list(range(min(ct), min(ct) + ne)), "tags/consecutive",
              f"{m}: fibre tags {ct[:8]}", cls="tags", n=ne)
    ctx.check(all(c["cls"] == f"Cell{typ}" for c in cells), "parse/cellclass", f"{m}", cls="parse")
    # lines of the tag list stay within the width unless a single tag does not fit
    lines = text.split("\n")
    k0 = next(i for i, l in enumerate(lines) if l.startswith("section Fibre"))
    k = k0
    while True:
        l = lines[k]
        n_tags = len(l.rstrip("\\").split()) - (3 if k == k0 else 0)
        ctx.check(len(l) <= width or n_tags <= 1, "width/line", f"{m}: a line of {len(l)} characters: {l[:60]!r}", cls="width")
        if not l.endswith("\\"):
            break
        k += 1
    P = ref.m.nodes[tris[:, :3]]
    cen = P.mean(axis=1)
    area = np.array([c["area"] for c in cells])
    ctx.close(area, ref.m.area, "cell/area", 2e-8, cls="cell", msg=m)
    C0 = np.abs(ref.m.nodes).max()
    pos = np.array([c["y"] for c in cells])
    ctx.close(pos, cen[:, 0], "cell/y", 1e-8, atol=1e-13 * C0, cls="cell", msg=m)
    if typ != "2D":
        ctx.close([c["z"] for c in cells], cen[:, 1], "cell/z", 1e-8, atol=1e-13 * C0, cls="cell", msg=m)
    want = [mapping.get(names[r], names[r]) for r in ref.region]
    have = [c["mat"] for c in cells]
    ctx.check(have == want, "material/name", lambda: f"{m}: " + str([(h, w) for h, w in zip(have, want) if h != w][:3]), cls="material", n=ne)
    # totals
    mom = sec.moments()
    A = mom[0]
    ctx.close(area.sum(), A, "total/area", 3e-8, cls="total", msg=m)
    ctx.close((area * pos).sum(), ref.m.area @ cen[:, 0], "total/first-moment", 5e-8, scale=A * C0, cls="total", msg=m)
    L = math.sqrt(A)
    dx, dy = sec.moments()[1:3] if len(mom) > 2 else (0, 0)
    byreg = {}
    for (mat, p), nme in zip(sec.regions, names):
        k = mapping.get(nme, nme)
        byreg[k] = byreg.get(k, 0) + O.poly_moments(*O.rings_of(p))[0]
    for k, a in byreg.items():
        ctx.close(sum(c["area"] for c in cells if c["mat"] == k), a, "total/material-area", 3e-8, atol=1e-9 * A, cls="total", msg=f"{m}: {k}")
    if typ == "3DOS" and sec.connected:
        cx, cy = ref.c
        nodes = ref.m.nodes
        om = ref.omega + (cy * (nodes[:, 0] - cx) - cx * (nodes[:, 1] - cy))
        om = om - (ref.C @ om) / ref.C.sum()
        ce = om[tris]
        N = O.p2_shapes(np.array([[1 / 3, 1 / 3, 1 / 3]]))[0]
        D = O.p2_dshapes(np.array([[1 / 3, 1 / 3, 1 / 3]]))[0]
        val = ce @ N
        grad = np.einsum("nl,eld,en->ed", D, ref.m.gradL, ce)
        so, sg = np.abs(om).max() + 1e-9 * (L + C0) * L, np.abs(grad).max() + 1e-9 * (C0 + L)
        ctx.close([c["om"] for c in cells], val, "omega/value", 1e-6, scale=so, cls="omega", msg=m)
        ctx.close([c["py"] for c in cells], grad[:, 0], "omega/dy", 1e-6, scale=sg, cls="omega", msg=m)
        ctx.close([c["pz"] for c in cells], grad[:, 1], "omega/dz", 1e-6, scale=sg, cls="omega", msg=m)


def refuse(ctx, rng):
    g = rectangular_section(d=float(rng.uniform(1, 5)), b=float(rng.uniform(1, 5)))
    ctx.saw("refuse", 0)
    for bad in (None, 3, "geometry", [g], g.geom):
        ctx.raises(TypeError, lambda: to_fibre_section(bad), "refuse/object", f"object {type(bad)}")
    g.create_mesh([0.2])
    for bad in ("", "4D", "3DO", "3D OS", "2", "fibre2d"):
        ctx.raises(ValueError, lambda: to_fibre_section(g, analysis_type=bad), "refuse/type", f"analysis type {bad!r}")
    d = tempfile.mkdtemp(dir=SCRATCH)
    try:
        p = os.path.join(d, "x")
        ctx.raises(ValueError, lambda: to_fibre_section(g, analysis_type="1D", save_to=p), "refuse/type", "with a file")
        ctx.check(not os.path.exists(p), "refuse/file", "a refused export wrote a file", cls="refuse")
        ctx.raises(OSError, lambda: to_fibre_section(g, save_to=os.path.join(d, "no", "such", "dir")), "refuse/path", "missing directory")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.signature("refuse", rng.random())
