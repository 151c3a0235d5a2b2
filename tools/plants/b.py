"""Planted bugs: geometry, import, libraries, export."""
G, B, L = 'pre/geometry.py', 'pre/bisect_section.py', 'pre/library/'
F, S, P = 'analysis/fea.py', 'analysis/section.py', 'post/post.py'
PLANTS = [
 dict(id='p04-hole-centroid', property='P04',
  edits=[(G, 'self.holes += tuple(hole_polygon.representative_point().coords)', 'self.holes += tuple(hole_polygon.centroid.coords)')],
  needs='a hole that is not star shaped about its centroid (an L- or C-shaped cut-out)',
  breaks='the hole marker lies outside the hole: the mesher empties a material region or fills the hole',
  demo='''
r = lib.rectangular_section(d=200, b=200)
c = lib.channel_section(d=120, b=110, t_f=10, t_w=10, r=0, n_r=1).shift_section(40, 40)
g = r - c
s = Section(g.create_mesh([200])); s.calculate_geometric_properties()
expect(near(s.get_area(), g.geom.area, 1e-9), f"meshed area {s.get_area()} geometry area {g.geom.area}")
'''),
 dict(id='p01-perimeter-interior', property='P01',
  edits=[(G, 'return float(unionized_poly.exterior.length)', 'return float(unionized_poly.length)')],
  needs='a compound geometry with an internal void',
  breaks='the perimeter of a compound includes the boundary of its voids instead of the exterior outline only',
  demo='''
a = lib.rectangular_section(d=100, b=20)
g = a + a.shift_section(80, 0) + lib.rectangular_section(d=10, b=60).shift_section(20, 0) + lib.rectangular_section(d=10, b=60).shift_section(20, 90)
s = Section(g.create_mesh([50])); s.calculate_geometric_properties()
expect(near(s.get_perimeter(), 400), f"perimeter {s.get_perimeter()}")
'''),
 dict(id='p14-rotate-cp-radians', property='P14',
  edits=[(G, '''                self.assigned_control_point,
                angle,
                rotate_point,  # pyright: ignore [reportArgumentType]
                use_radians,
''', '''                self.assigned_control_point,
                angle,
                rotate_point,  # pyright: ignore [reportArgumentType]
''')],
  needs='rotation given in radians of a geometry with an assigned control point',
  breaks='the assigned control point is rotated by the angle in degrees instead of radians',
  demo='''
g = lib.rectangular_section(d=100, b=40).assign_control_point((5, 90))
h = g.rotate_section(1.3, rot_point=(0, 0), use_radians=True)
c, s_ = np.cos(1.3), np.sin(1.3)
expect(near(h.control_points[0], (5 * c - 90 * s_, 5 * s_ + 90 * c)), f"control point {h.control_points}")
'''),
 dict(id='p15-and-material', property='P15',
  edits=[(G, '''        material = self.material or other.material

        try:
            and_poly =''', '''        material = other.material or self.material

        try:
            and_poly =''')],
  needs='the intersection of two geometries of different materials',
  breaks='the result takes the material of the right operand',
  demo='''
m1 = Material("a", 1e3, 0.1, 10, 1, "red"); m2 = Material("b", 2e3, 0.2, 20, 2, "blue")
g = lib.rectangular_section(d=10, b=10, material=m1) & lib.rectangular_section(d=10, b=10, material=m2).shift_section(5, 5)
expect(g.material == m1, f"material {g.material.name}")
'''),
 dict(id='p15-split-below-vertical', property='P15',
  edits=[(B, '    b_2 = max(bounds)\n    b_1 = min(bounds)\n', '    b_2 = max(bounds[:2])\n    b_1 = min(bounds[:2])\n')],
  needs='a split along a (nearly) vertical line of a section whose y-range is not covered by its x-range (deep or shifted sections)',
  breaks='the cutting line is too short and leaves the section unsplit',
  demo='''
g = lib.i_section(d=300, b=100, t_f=10, t_w=6, r=8, n_r=4).shift_section(0, -500)
top, bot = g.split_section((50, 0), vector=(0, 1))
a = sum(x.geom.area for x in top), sum(x.geom.area for x in bot)
expect(near(a[0], a[1]) and near(sum(a), g.geom.area), f"areas right and left {a}")
'''),
 dict(id='p15-shift-points-range', property='P15',
  edits=[(G, '        for point_idx in point_idxs:\n', '        for point_idx in range(min(point_idxs), max(point_idxs) + 1):\n')],
  needs='shift_points with a list of indices that are not consecutive',
  breaks='vertices between the given indices move too',
  demo='''
g = lib.rectangular_section(d=10, b=10)
h = g.shift_points([0, 2], dx=1)
expect(sorted(h.points) == sorted([(1, 0), (10, 0), (11, 10), (0, 10)]), f"{h.points}")
'''),
 dict(id='p16-from-points-holes-material', property='P16',
  edits=[(G, '''                exterior_geometry = Geometry(
                    geom=punched_exterior,
                    control_points=exterior_control_point,
                    material=materials[idx],
                )''', '''                exterior_geometry = Geometry(
                    geom=punched_exterior,
                    control_points=exterior_control_point,
                    material=materials[max(idx - len(interiors), 0)],
                )''')],
  needs='CompoundGeometry.from_points with holes and several materials',
  breaks='regions get the material of another region',
  demo='''
m1 = Material("a", 1e3, 0.1, 10, 1, "red"); m2 = Material("b", 2e3, 0.2, 20, 2, "blue"); m3 = Material("c", 3e3, 0.2, 20, 2, "green")
pts = [(0, 0), (10, 0), (10, 10), (0, 10), (4, 4), (6, 4), (6, 6), (4, 6), (10, 0), (20, 0), (20, 10), (10, 10), (20, 0), (30, 0), (30, 10), (20, 10)]
f = []
for k in range(4): f += [(4 * k + i, 4 * k + (i + 1) % 4) for i in range(4)]
g = CompoundGeometry.from_points(points=pts, facets=f, control_points=[(1, 1), (15, 5), (25, 5)], holes=[(5, 5)], materials=[m1, m2, m3])
got = {(round(x.geom.area), x.material.name) for x in g.geoms}
names = [x.material.name for x in sorted(g.geoms, key=lambda q: q.geom.bounds[0])]
expect(names == ["a", "b", "c"], f"materials from left to right {names}")
'''),
 dict(id='p17-tapered-root', property='P17',
  edits=[(L + 'steel_sections.py', '''    # construct the bottom left root radius
    if r_r == 0:
        points.append((b * 0.5 - t_w * 0.5, t_f + y2))
    else:
        for i in range(n_r):
            # determine polar angle
            theta = -i * 1.0 / max(1, n_r - 1) * (np.pi * 0.5 - alpha_rad)

            # calculate the locations of the radius points
            x = b * 0.5 - t_w * 0.5 - r_r + r_r * np.cos(theta)
            y = t_f + y2 + r_r * np.cos(alpha_rad) + r_r * np.sin(theta)''', '''    # construct the bottom left root radius
    if r_r == 0:
        points.append((b * 0.5 - t_w * 0.5, t_f + y2))
    else:
        for i in range(n_r):
            # determine polar angle
            theta = -i * 1.0 / max(1, n_r - 1) * (np.pi * 0.5 - alpha_rad)

            # calculate the locations of the radius points
            x = b * 0.5 - t_w * 0.5 - r_r + r_r * np.cos(theta)
            y = t_f + y2 + r_r + r_r * np.sin(theta)''')],
  needs='a tapered flange I-section with a root radius and a flange taper',
  breaks='the bottom left root radius is misplaced: the section is not symmetric',
  demo='''
g = lib.tapered_flange_i_section(d=588, b=191, t_f=27.2, t_w=15.2, r_r=17.8, r_f=8.9, alpha=8, n_r=16)
m = g.mirror_section("y", mirror_point=(g.geom.bounds[2] / 2, 0))
expect((g.geom ^ m.geom).area < 1e-3, f"asymmetric by {(g.geom ^ m.geom).area}")
'''),
 dict(id='p17-girder-dims', property='P17',
  edits=[(L + 'bridge_sections.py', '''            "h_tf": 130,
            "h_ts": 150,
            "h_w": 545,
            "h_bs": 175,
            "h_bf": 150,''', '''            "h_tf": 130,
            "h_ts": 175,
            "h_w": 545,
            "h_bs": 150,
            "h_bf": 150,''')],
  needs='the I girder of type 3',
  breaks='the haunch heights of the type 3 girder are exchanged (the depth is unchanged)',
  demo='''
g = lib.i_girder_section(girder_type=3)
ys = sorted({round(y, 6) for _, y in g.points})
w = sorted(ys)
expect(len(w) == 6 and near(np.diff(w), [150, 175, 545, 150, 130]), f"levels {np.diff(w)}")
'''),
 dict(id='p18-side-cover-bottom', property='P18',
  edits=[(L + 'concrete_sections.py', '''            x_i_bot = -b / 2 + c_side + dia_bot / 2
            spacing_bot = (b - 2 * c_side - dia_bot) / (n_bot - 1)''', '''            x_i_bot = -b / 2 + c_side + dia_bot / 2
            spacing_bot = (b - 2 * c_side - dia_top) / (n_bot - 1)''')],
  needs='a concrete tee section with a side cover and top and bottom bars of different diameters',
  breaks='the bottom bars are spaced by the top bar diameter: the last bar has the wrong cover',
  demo='''
c = Material("c", 30e3, 0.2, 32, 2.4e-6, "grey"); m = Material("s", 200e3, 0.3, 500, 7.85e-6, "red")
g = lib.concrete_tee_section(d=900, b=450, d_f=150, b_f=1800, dia_top=16, area_top=200, n_top=12, c_top=42, dia_bot=36, area_bot=1020, n_bot=5, c_bot=42, c_side=60, n_circle=16, conc_mat=c, steel_mat=m)
x = sorted(q.geom.centroid.x for q in g.geoms if q.material == m and q.geom.centroid.y < 100)
expect(len(x) == 5 and near(x, np.linspace(-225 + 60 + 18, 225 - 60 - 18, 5), 1e-6, 450), f"bottom bars at {x}")
'''),
 dict(id='p18-add-bars-zip', property='P18',
  edits=[(L + 'concrete_sections.py', '    return (geometry - bars) + bars', '    return (geometry - bars.geoms[0] - CompoundGeometry(bars.geoms[1:-1])) + bars if len(bars.geoms) > 2 else (geometry - bars) + bars')],
  needs='adding three or more bars at once',
  breaks='the concrete is not removed where the last bar is (overlap)',
  demo='''
c = Material("c", 30e3, 0.2, 32, 2.4e-6, "grey"); m = Material("s", 200e3, 0.3, 500, 7.85e-6, "red")
from sectionproperties.pre.library.concrete_sections import add_bars
g = add_bars(lib.rectangular_section(d=300, b=600, material=c), 500, m, [100, 200, 300, 400], [50] * 4, 12)
expect(near(sum(q.geom.area for q in g.geoms), 180000), f"area {sum(q.geom.area for q in g.geoms)}")
'''),
 dict(id='p21-2d-position', property='P21',
  edits=[('post/fibre.py', 'return f"section Cell2D {self.tag} {self.area:.8e} {self.material} {self.y:.8e}"', 'return f"section Cell2D {self.tag} {self.area:.8e} {self.material} {self.z:.8e}"')],
  needs='export of a 2D fibre section',
  breaks='the fibre position is given along the other axis than in the 3D export',
  demo='''
from sectionproperties.post.fibre import to_fibre_section
g = lib.rectangular_section(d=100, b=20).shift_section(7, 3).create_mesh([100])
def pos(kind, k):
    return [float(l.split()[k]) for l in to_fibre_section(g, analysis_type=kind).splitlines() if l.startswith("section Cell")]
expect(near(pos("2D", 5), pos("3D", 5)), "2D and 3D positions differ")
'''),
 dict(id='p21-name-blanks', property='P21',
  edits=[('post/fibre.py', 'self.material = "-".join(ele.material.name.split())', 'self.material = ele.material.name.replace(" ", "-", 1)')],
  needs='a material whose name holds two or more blanks',
  breaks='the material name in the exported line still holds a blank, which shifts the columns',
  demo='''
from sectionproperties.post.fibre import to_fibre_section
m = Material("Grade 350 steel plate", 200e3, 0.3, 350, 7.85e-6, "red")
g = lib.rectangular_section(d=100, b=20, material=m).create_mesh([100])
rows = [l.split() for l in to_fibre_section(g, analysis_type="3D").splitlines() if l.startswith("section Cell")]
expect(all(len(r) == 7 for r in rows), f"columns {len(rows[0])}: {rows[0]}")
'''),
 dict(id='p25-overlap-tolerance', property='P25',
  edits=[(G, 'return not math.isclose(union_area, sum_polygons)', 'return not math.isclose(union_area, sum_polygons, rel_tol=1e-3)')],
  needs='an overlap that is small compared with the section (0.1 %), e.g. a bar drawn over concrete',
  breaks='no warning is given for a small overlap that is counted twice in the plastic analysis',
  demo='''
c = Material("c", 30e3, 0.2, 32, 2.4e-6, "grey"); m = Material("s", 200e3, 0.3, 500, 7.85e-6, "red")
g = lib.rectangular_section(d=600, b=1000, material=c) + lib.circular_section_by_area(area=300, n=16, material=m).shift_section(100, 100)
s = Section(g.create_mesh([0])); s.calculate_geometric_properties()
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always"); s.calculate_plastic_properties()
expect(any("overlapping" in str(x.message) for x in w), "no overlap warning")
'''),
 dict(id='p23-transformed-ixy', property='P23',
  edits=[(P, 'table.add_row("ixy_g", f"{eixy_g / er:>{fmt}}")', 'table.add_row("ixy_g", f"{eixy_g:>{fmt}}")')],
  needs='the transformed results of a composite section with a reference modulus other than 1',
  breaks='one row is not divided by the reference modulus',
  demo='''
import io, contextlib
m = Material("m", 200e3, 0.3, 300, 1e-6, "grey")
s = Section(lib.rectangular_section(d=100, b=50, material=m).create_mesh([100])); s.calculate_geometric_properties()
f = io.StringIO()
with contextlib.redirect_stdout(f): s.display_transformed_results(e_ref=m, fmt=".6e")
row = [l for l in f.getvalue().splitlines() if "ixy_g" in l][0]
v = float(row.replace("\\u2502", " ").split()[1])
expect(near(v, s.get_eig()[2] / 200e3, 1e-5), f"ixy_g row {v}")
'''),
 dict(id='p14-align-round', property='P14',
  edits=[(G, '''                shift_x = round(point_x - cx, self.tol)
                shift_y = round(point_y - cy, self.tol)
            except (
                TypeError,''', '''                shift_x = round(point_x - cx, min(self.tol, 6))
                shift_y = round(point_y - cy, min(self.tol, 6))
            except (
                TypeError,''')],
  needs='align_center to a point for a section drawn in a small unit of number (e.g. metres for a small part)',
  breaks='the centroid is placed up to half a micro-unit beside the point',
  demo='''
g = lib.triangular_section(b=1.3e-3, h=2.7e-3)
h = g.align_center((0.0001234567, 0.0))
expect(abs(h.geom.centroid.x - 0.0001234567) < 1e-11, f"centroid {h.geom.centroid}")
'''),
]
