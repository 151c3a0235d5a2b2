"""Planted bugs: geometry, import, libraries, reports."""
G, B, PR, P, F, S, Q, T, C, N, FB = ('pre/geometry.py', 'pre/bisect_section.py', 'pre/pre.py', 'post/post.py', 'analysis/fea.py', 'analysis/section.py',
  'analysis/plastic_section.py', 'post/stress_post.py', 'pre/library/concrete_sections.py', 'pre/library/nastran_sections.py', 'post/fibre.py')
PLANTS = [
 dict(id='p04-min-angle-whole', property='P04',
  edits=[(PR, 'f"pq{min_angle:.1f}Aao2"', 'f"pq{min_angle:.0f}Aao2"')],
  needs='a minimum angle that is not a whole number of degrees',
  breaks='the minimum angle is rounded to whole degrees although one decimal is documented',
  demo='''
worst = 90
for d in (50, 70, 83, 91, 97, 110, 130):
    g = lib.channel_section(d=d, b=40, t_f=7, t_w=5, r=6, n_r=5).create_mesh([4], min_angle=30.4)
    v, t = np.array(g.mesh["vertices"]), np.array(g.mesh["triangles"])[:, :3]
    for i in range(3):
        a, b, c = v[t[:, i]], v[t[:, (i + 1) % 3]], v[t[:, (i + 2) % 3]]
        u, w = b - a, c - a
        worst = min(worst, np.degrees(np.arccos((u * w).sum(1) / np.hypot(*u.T) / np.hypot(*w.T))).min())
expect(worst > 30.4 - 1e-6, f"smallest angle {worst}")
'''),
 dict(id='p14-compound-mirror-centroid', property='P14',
  edits=[(G, '''        if mirror_point == "center":
            centre = box(*MultiPolygon(self.geom).bounds).centroid
            m_pt = centre.x, centre.y''', '''        if mirror_point == "center":
            centre = MultiPolygon(self.geom).centroid
            m_pt = centre.x, centre.y''')],
  needs='a compound geometry whose centroid is not the centre of its bounding box, mirrored about "center"',
  breaks='compound geometries are mirrored about their centroid, not about the centre of the bounding box',
  demo='''
a = lib.rectangular_section(d=10, b=30) + lib.rectangular_section(d=40, b=6).shift_section(0, 10)
m = a.mirror_section(axis="y")
expect(near(m.calculate_extents(), a.calculate_extents(), 1e-9), f"{m.calculate_extents()} {a.calculate_extents()}")
'''),
 dict(id='p14-compound-align-envelope', property='P14',
  edits=[(G, 'cx, cy = list(geom.geom.centroid.coords[0])\n            cx_ea_acc', 'cx, cy = list(geom.geom.envelope.centroid.coords[0])\n            cx_ea_acc')],
  needs='a compound geometry with a region that is not symmetric, aligned to a centre',
  breaks='compound geometries are centred using the box centres of their regions',
  demo='''
a = lib.triangular_section(b=30, h=20) + lib.rectangular_section(d=10, b=30).shift_section(0, -10)
c = a.align_center()
w = sum((np.array(g.calculate_centroid()) * g.calculate_area() for g in c.geoms)) / c.calculate_area()
expect(np.abs(w).max() < 1e-9, f"{w}")
'''),
 dict(id='p15-bisect-tiny', property='P15',
  edits=[(B, 'if x2 - x1 == 0:', 'if abs(x2 - x1) < 1e-2:')],
  needs='a section whose extents span less than a hundredth of a unit',
  breaks='small sections split about a sloping line are grouped as if the line were vertical',
  demo='''
g = lib.rectangular_section(d=0.004, b=0.006)
top, bot = g.split_section(point_i=(0.001, 0.002), vector=(1, 0.1))
expect(len(top) == 1 and len(bot) == 1, f"{len(top)} {len(bot)}")
expect(top[0].calculate_centroid()[1] > bot[0].calculate_centroid()[1], "top and bottom")
'''),
 dict(id='p15-offset-resolution', property='P15',
  edits=[(G, '''                buffered_interior = buffer_polygon(
                    Polygon(interior), amount, resolution
                )''', '''                buffered_interior = buffer_polygon(
                    Polygon(interior).convex_hull, amount, resolution
                )''')],
  needs='the interior offset of a section with a hole that is not convex',
  breaks='holes that are not convex are filled in to their convex hull when offset',
  demo='''
sh = __import__("shapely")
hole = [(20, 20), (80, 20), (80, 40), (40, 40), (40, 80), (20, 80)]
g = Geometry(sh.Polygon([(0, 0), (100, 0), (100, 100), (0, 100)], [hole]))
o = g.offset_perimeter(amount=1, where="interior", resolution=8)
expect(o.geom.contains(sh.Point(60, 60)), "corner of the L-shaped hole was removed")
'''),
 dict(id='p16-dxf-degrees', property='P16',
  edits=[(G, 'my_dxf.process(spline_delta=spline_delta, degrees_per_segment=degrees_per_segment)', 'my_dxf.process(spline_delta=spline_delta)')],
  needs='a dxf file with arcs, imported with a degrees_per_segment other than the default',
  breaks='the arc discretisation asked for is ignored',
  demo='''
import ezdxf, os
doc = ezdxf.new(); ms = doc.modelspace()
ms.add_line((0, 0), (10, 0)); ms.add_arc((10, 10), 10, -90, 0); ms.add_line((20, 10), (20, 20)); ms.add_line((20, 20), (0, 20)); ms.add_line((0, 20), (0, 0))
f = os.path.join(os.environ["DEMO_TMP"], "a.dxf"); doc.saveas(f)
n = [len(Geometry.from_dxf(f, degrees_per_segment=d).points) for d in (1, 10)]
expect(n[0] > 2 * n[1], f"points {n}")
'''),
 dict(id='p18-lift-core-right', property='P18',
  edits=[(C, '''        y_i = y_i_b.tolist() + y_i_t.tolist()

        # add right outer bars
        for y in y_i[1:-1]:''', '''        y_i = sorted(y_i_b.tolist() + y_i_t.tolist()[:len(y_i_b) - len(y_i_b) // 9])

        # add right outer bars
        for y in y_i[1:-1]:''')],
  needs='a lift core with at least nine bars on one side of the door',
  breaks='one outer bar beside the door is dropped when the wall beside it holds many bars',
  demo='''
def right(sp):
    g = lib.single_lift_core(d=6000, b=2500, t1=200, t2=250, a=1000, dia_bar=20, area_bar=310, spacing=sp, cover=30)
    ys = sorted(q.calculate_centroid()[1] for q in g.geoms[1:] if q.calculate_centroid()[0] > 2500 - 60)
    return ys
for sp in (500, 200):
    y = np.array(right(sp))
    expect(near(y + y[::-1], 6000, 1e-6), f"bars beside the door are not symmetric at spacing {sp}")
'''),
 dict(id='p19-hat1-gap', property='P19',
  edits=[(N, 'd4 = 0.5 * (dim_1 - dim_3)\n', 'd4 = 0.5 * max(dim_1 - dim_3, 2 * dim_4)\n')],
  needs='a HAT1 section whose lips are narrower than the wall thickness',
  breaks='the lips of narrow HAT1 sections stick out of the plate',
  demo='''
g = lib.nastran_hat1(dim_1=40, dim_2=20, dim_3=36, dim_4=4, dim_5=2)
e = g.calculate_extents()
expect(near(e[1] - e[0], 40, 1e-9), f"width {e[1] - e[0]}")
'''),
 dict(id='p25-disjoint-distance', property='P25',
  edits=[(G, 'if poly1.intersection(poly2):', 'if poly1.distance(poly2) < 1e-3:')],
  needs='disconnected regions with a gap below a thousandth of a unit (metres)',
  breaks='disconnected regions in small units are taken as connected and analysed without a warning',
  demo='''
import warnings
def warned(k):
    g = (lib.rectangular_section(d=1 * k, b=1 * k) + lib.rectangular_section(d=1 * k, b=1 * k).shift_section(1.05 * k, 0)).create_mesh([0.1 * k * k])
    s = Section(g); s.calculate_geometric_properties()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always"); s.calculate_warping_properties()
    return any("disjoint" in str(x.message) for x in w)
expect(warned(1) and warned(0.01), "no warning about disjoint regions")
'''),
 dict(id='p24-stress-min', property='P24',
  edits=[(T, 'sig_min = min([min(x) for x in sigs]) - 1e-12', 'sig_min = min(min([min(x) for x in sigs]), 0.0) - 1e-12')],
  needs='a stress that is positive over the whole section',
  breaks='the contour range of a plot is extended to zero',
  demo='''
import matplotlib; matplotlib.use("agg")
s = Section(lib.rectangular_section(d=10, b=5).create_mesh([2])); s.calculate_geometric_properties(); s.calculate_warping_properties()
st = s.calculate_stress(n=1e3, mxx=50)
sig = st.get_stress()[0]["sig_zz"]
expect(sig.min() > 0, "demo needs positive stress")
ax = st.plot_stress("zz", render=False)
lev = [c for c in ax.collections if hasattr(c, "levels")][0].levels
expect(near(lev[0], sig.min(), 1e-6), f"{lev[0]} {sig.min()}")
'''),
 dict(id='p02-zmin-abs', property='P02',
  edits=[(P, 'self.z22_minus = self.i22_c / abs(x1min)', 'self.z22_minus = self.i22_c / max(abs(x1min), abs(x1max) / 8)')],
  needs='a section whose centroid lies very close to one side (heavy composite plate)',
  breaks='the principal section modulus to a close fibre is capped',
  demo='''
a, b = Material("a", 200e3, 0.3, 300, 1, "grey"), Material("b", 100, 0.3, 300, 1, "r")
g = lib.rectangular_section(d=100, b=2, material=a) + lib.rectangular_section(d=100, b=60, material=b).shift_section(2, 0)
s = Section(g.create_mesh([20])); s.calculate_geometric_properties()
z = s.get_ezp(); ei = s.get_eip(); cx = s.get_c()[0]
zs = sorted(z[2:]); want = sorted((ei[1] / cx, ei[1] / (62 - cx)))
expect(near(zs, want, 1e-6), f"{zs} {want}")
'''),
 dict(id='p21-material-order', property='P21',
  edits=[],
  needs='', breaks='', demo=''),
]
PLANTS = [p for p in PLANTS if p['edits']]
