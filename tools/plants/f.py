"""Planted bugs: materials, centroids, extreme fibres, point lists."""
G, B, PR, P, F, S, Q, T, C, N, FB, SO, BR, TI = ('pre/geometry.py', 'pre/bisect_section.py', 'pre/pre.py', 'post/post.py', 'analysis/fea.py', 'analysis/section.py',
  'analysis/plastic_section.py', 'post/stress_post.py', 'pre/library/concrete_sections.py', 'pre/library/nastran_sections.py', 'post/fibre.py', 'analysis/solver.py',
  'pre/library/bridge_sections.py', 'pre/library/timber_sections.py')
PLANTS = [
 dict(id='p10-group-names', property='P10',
  edits=[(S, 'if material not in self.materials[:idx]:', 'if material.name not in [m.name for m in self.materials[:idx]]:')],
  needs='two different materials of the same name in one section',
  breaks='a second material of the same name gets no group, so that its strength and its stresses are ignored',
  demo='''
a = Material("steel", 200e3, 0.3, 500, 7.85e-6, "grey"); b = Material("steel", 200e3, 0.3, 250, 7.85e-6, "grey")
g = lib.rectangular_section(d=100, b=20, material=a) + lib.rectangular_section(d=100, b=20, material=b).shift_section(x_offset=20)
s = Section(g.create_mesh([20])); s.calculate_geometric_properties()
w = 250 * 40 * 100**2 / 6
expect(near(s.get_my()[0], w), f"{s.get_my()} {w}")
'''),
 dict(id='p02-centroid-decimals', property='P02',
  edits=[(P, 'self.cx = self.qy / self.ea', 'self.cx = round(self.qy / self.ea, 8)')],
  needs='a section modelled in metres, or smaller',
  breaks='the centroid is rounded to a fixed number of decimals',
  demo='''
g = lib.angle_section(d=0.0973, b=0.0617, t=0.00831, r_r=0.0059, r_t=0.0033, n_r=6)
s = Section(g.create_mesh([1e-5])); s.calculate_geometric_properties()
c = g.calculate_centroid()
expect(abs(s.get_c()[0] - c[0]) < 1e-11, f"{s.get_c()} {c}")
'''),
 dict(id='p03-float32-nodes', property='P03',
  edits=[(P, 'nodes = np.array(node_list, dtype=float)', 'nodes = np.array(node_list, dtype=np.float32)')],
  needs='a section far away from the origin compared to its size',
  breaks='extreme fibres are found from coordinates in single precision',
  demo='''
z = []
for d in (0, 33333.3):
    s = Section(lib.tee_section(d=300, b=150, t_f=17, t_w=11, r=10, n_r=4).shift_section(d, d).create_mesh([500])); s.calculate_geometric_properties()
    z.append(s.get_z())
expect(np.allclose(z[0], z[1], rtol=1e-6), f"{z}")
'''),
 dict(id='p16-hole-envelope', property='P16',
  edits=[(G, '                if polygon.contains(Point(ctrl_coord))', '                if polygon.envelope.contains(Point(ctrl_coord))')],
  needs='points and facets of a compound with a re-entrant void whose bounding box holds the control point',
  breaks='a void is taken for a region if the control point lies within its bounding box',
  demo='''
pts = [(0, 0), (10, 0), (10, 10), (0, 10), (2, 2), (8, 2), (8, 3), (3, 3), (3, 8), (2, 8), (20, 0), (20, 10)]
fac = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 8), (8, 9), (9, 4), (1, 10), (10, 11), (11, 2), (2, 1)]
try:
    g = CompoundGeometry.from_points(pts, fac, [(6, 6), (15, 5)], [(2.5, 2.5)])
except ValueError as e:
    expect(False, str(e))
expect(near(g.calculate_area(), 200 - 11) and len(g.holes) == 1, "area")
'''),
 dict(id='p20-ga-accumulates', property='P20',
  edits=[(S, '            self.section_props.ga = 0.0', '            self.section_props.ga = self.section_props.ga or 0.0')],
  needs='a geometric analysis carried out a second time',
  breaks='the shear rigidity accumulates over repeated geometric analyses, and the effective Poisson ratio with it',
  demo='''
m = Material("m", 200e3, 0.3, 250, 7.85e-6, "grey")
s = Section(lib.rectangular_section(d=20, b=100, material=m).create_mesh([20])); s.calculate_geometric_properties()
a = s.get_nu_eff(); s.calculate_warping_properties(); s.calculate_geometric_properties()
expect(near(a, 0.3) and near(s.get_nu_eff(), a), f"{a} {s.get_nu_eff()}")
'''),
]
