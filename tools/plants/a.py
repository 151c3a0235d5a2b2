"""Planted bugs: analysis (fea, section, post, plastic)."""
F, S, P, Q = 'analysis/fea.py', 'analysis/section.py', 'post/post.py', 'analysis/plastic_section.py'
PLANTS = [
 dict(id='p06-beta-trefftz', property='P06',
  edits=[(S, 'self.section_props.beta_y_plus = -int_y / iyy_c + 2 * x_se\n            self.section_props.beta_y_minus = int_y / iyy_c - 2 * x_se', 'self.section_props.beta_y_plus = -int_y / iyy_c + 2 * x_st\n            self.section_props.beta_y_minus = int_y / iyy_c - 2 * x_st')],
  needs='a composite section (nonzero effective Poisson ratio) that is not symmetric about the y axis and whose elasticity and Trefftz shear centres differ',
  breaks='monosymmetry constants about the y axis use the Trefftz instead of the elasticity shear centre',
  demo='''
a = Material("a", 200e3, 0.45, 300, 1e-6, "grey")
g = lib.rectangular_section(d=30, b=100, material=a) + lib.rectangular_section(d=30, b=60, material=a).shift_section(0, 30)
def beta(geom):
    s = Section(geom.create_mesh([6])); s.calculate_geometric_properties(); s.calculate_warping_properties()
    return s.get_beta(), s.get_beta_p()
b0, _ = beta(g); b90, _ = beta(g.rotate_section(90, rot_point=(0, 0)))
expect(near(sorted(np.abs(b0[:2])), sorted(np.abs(b90[2:])), 1e-3, 60), f"beta about x {b0[:2]}, about y after a quarter turn {b90[2:]}")
expect(near(sorted(np.abs(b0[2:])), sorted(np.abs(b90[:2])), 1e-3, 60), f"beta about y {b0[2:]}, about x after a quarter turn {b90[:2]}")
'''),
 dict(id='p10-yield-tension-only', property='P10',
  edits=[(S, 'yield_index["m22"] = max(yield_index["m22"], abs(sig_m22 / fy))', 'yield_index["m22"] = max(yield_index["m22"], sig_m22 / fy)')],
  needs='a section that is not symmetric about its 11-22 minor axis (the extreme fibre on one side governs) with a material',
  breaks='the yield moment about the 22 axis ignores the fibres of one side',
  demo='''
m = Material("m", 200e3, 0.3, 300, 1e-6, "grey")
for mirror in (False, True):
    g = lib.channel_section(d=100, b=50, t_f=8, t_w=6, r=4, n_r=4, material=m)
    if mirror: g = g.mirror_section("y")
    s = Section(g.create_mesh([20])); s.calculate_geometric_properties()
    _, my22 = s.get_my_p()
    z = s.get_ezp(e_ref=m)
    expect(near(my22, 300 * min(z[2:])), f"my_22 {my22} fy*z {300 * np.array(z[2:])}")
'''),
 dict(id='p02-phi-tolerance', property='P02',
  edits=[(P, 'if abs(self.ixx_c - self.i11_c) < 1e-12 * self.i11_c:', 'if abs(self.ixx_c - self.i11_c) < 1e-5 * self.i11_c:')],
  needs='a section whose principal axis is inclined by a few tenths of a degree or less, or nearly equal second moments',
  breaks='the principal axis angle is rounded to zero although the product of inertia is not zero',
  demo='''
g = lib.rectangular_section(d=200, b=100).rotate_section(0.15)
s = Section(g.create_mesh([100])); s.calculate_geometric_properties()
ixx, iyy, ixy = s.get_ic(); t = np.radians(s.get_phi()); c, n = np.cos(t), np.sin(t)
off = (ixx - iyy) * c * n + ixy * (c * c - n * n)
expect(abs(off) <= 1e-6 * ixx, f"principal axes do not diagonalise: {off} phi {s.get_phi()}")
'''),
 dict(id='p13-frame-phi-axis', property='P13',
  edits=[(S, '            if abs(ixx_c - i11_c) < 1e-12 * i11_c:\n', '            if abs(ixy_c) < 1e-12 * i11_c:\n')],
  needs='the frame analysis of a section symmetric about x or y that is wider than deep (the major axis is the y axis)',
  breaks='calculate_frame_properties reports a principal angle of 0 instead of -90 degrees',
  demo='''
for d, b in ((100, 50), (50, 100)):
    g = lib.rectangular_section(d=d, b=b).create_mesh([50])
    s = Section(g); s.calculate_geometric_properties()
    f = Section(g).calculate_frame_properties()
    expect(abs(f[5] - s.get_phi()) < 1e-6 or abs(abs(f[5] - s.get_phi()) - 180) < 1e-6, f"phi {f[5]} {s.get_phi()}")
'''),
 dict(id='p13-cgs-multiplier', property='P13',
  edits=[('analysis/solver.py', '    if info != 0:\n        msg = "CGS iterative method did not converge."\n        raise RuntimeError(msg)\n\n    # compute error\n', '    if info < 0:\n        msg = "CGS iterative method did not converge."\n        raise RuntimeError(msg)\n\n    # compute error\n')],
  needs='an iterative solve that stops at its iteration limit without reaching the tolerance',
  breaks='the unconverged iterate is returned as the result instead of an error',
  demo='''
from sectionproperties.analysis import solver
import scipy.sparse as sp
from scipy.sparse.linalg import LinearOperator
rng = np.random.default_rng(0); n = 40
q, _ = np.linalg.qr(rng.normal(size=(n, n)))
k = np.zeros((n + 1, n + 1)); k[:n, :n] = q @ np.diag(np.logspace(0, 10, n)) @ q.T; k[n, n] = 1
try:
    u = solver.solve_cgs_lagrange(k_lg=sp.csc_matrix(k), f=np.ones(n), m=LinearOperator((n + 1, n + 1), lambda x: x))
except RuntimeError:
    sys.exit(0)
r = np.linalg.norm(k[:n, :n] @ u - 1) / n**0.5
expect(r < 1e-3, f"returned without converging, residual {r}")
'''),
 dict(id='p07-shear-nu-dropped', property='P07',
  edits=[(S, '                    j = self.get_ej()\n                    nu = self.get_nu_eff()\n', '                    j = self.get_ej()\n                    nu = self.material_groups[0].material.poissons_ratio\n')],
  needs='a stress analysis with shear of a composite section whose materials have different Poisson ratios',
  breaks='shear stresses use the first material\'s Poisson ratio instead of the effective one: they no longer integrate to the applied shear',
  demo='''
a = Material("a", 30e3, 0.0, 30, 1e-6, "grey")
b = Material("b", 200e3, 0.45, 300, 1e-6, "red")
g = lib.rectangular_section(d=40, b=100, material=a) + lib.rectangular_section(d=20, b=100, material=b).shift_section(0, 40)
s = Section(g.create_mesh([20])); s.calculate_geometric_properties(); s.calculate_warping_properties()
st = s.calculate_stress(vy=1000.0)
fz = 0.0
for grp, d in zip(st.material_groups, st.get_stress()):
    for el in grp.elements:
        x = el.coords; A = 0.5 * np.linalg.det(np.vstack([np.ones(3), x[:, :3]]))
        fz += A * d["sig_zy"][el.node_ids[3:]].mean()
expect(near(fz, 1000.0, 2e-2), f"resultant of zy shear {fz}")
'''),
 dict(id='p11-plastic-principal-fibre', property='P11',
  edits=[(Q, '        for pt in self.geometry.points[1:]:\n', '        for pt in self.geometry.points[1:-1]:\n')],
  needs='a geometry whose last point is the only extreme vertex in one (principal or user) direction, with the neutral axis near it',
  breaks='the search interval for the plastic neutral axis misses the last vertex',
  demo='''
from shapely import Polygon
# apex written last; almost all the area is at the apex side through a heavy material
m1 = Material("m1", 1, 0, 1, 1, "grey"); m2 = Material("m2", 1, 0, 1e4, 1, "red")
lo = Geometry(Polygon([(0, 0), (10, 0), (10, 10), (0, 10)]), m1)
hi = Geometry(Polygon([(0, 10), (10, 10), (12, 30), (8, 40)]), m2)
bad = []
for ang in (0, 30, 60, 90, 130, 180, 200, 250, 300):
    g = (lo + hi).rotate_section(ang)
    s = Section(g.create_mesh([20])); s.calculate_geometric_properties()
    try:
        s.calculate_plastic_properties()
    except Exception as e:
        expect(False, f"plastic analysis failed at {ang}: {e!r}")
for pts in ([(0, 0), (10, 0), (0, 1)], [(0, 0), (0.5, -0.2), (0.3, 12)], [(5, 0), (5.2, 0.1), (-20, 3)]):
    s = Section(Geometry(Polygon(pts)).create_mesh([1])); s.calculate_geometric_properties(); s.calculate_plastic_properties()
'''),
 dict(id='p12-eref-as-p', property='P12',
  edits=[(P if False else S, '''        return self.section_props.a_s11 / e_ref, self.section_props.a_s22 / e_ref''', '''        return self.section_props.a_s11 / e_ref, self.section_props.a_s22''')],
  needs='get_eas_p of a composite section with a reference modulus other than 1',
  breaks='one of the two principal shear areas is not divided by the reference modulus',
  demo='''
m = Material("m", 200e3, 0.3, 300, 1e-6, "grey")
s = Section(lib.channel_section(d=100, b=50, t_f=8, t_w=6, r=4, n_r=4, material=m).create_mesh([20]))
s.calculate_geometric_properties(); s.calculate_warping_properties()
expect(near(np.array(s.get_eas_p(e_ref=7.0)) * 7.0, s.get_eas_p(e_ref=1)), "get_eas_p is not inversely proportional to e_ref")
'''),
]
