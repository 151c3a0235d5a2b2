"""Planted bugs: analysis, export, plots, reports, libraries."""
G, B, PR, P, F, S, Q, T, C, N, FB, SO, BR, TI = ('pre/geometry.py', 'pre/bisect_section.py', 'pre/pre.py', 'post/post.py', 'analysis/fea.py', 'analysis/section.py',
  'analysis/plastic_section.py', 'post/stress_post.py', 'pre/library/concrete_sections.py', 'pre/library/nastran_sections.py', 'post/fibre.py', 'analysis/solver.py',
  'pre/library/bridge_sections.py', 'pre/library/timber_sections.py')
PLANTS = [
 dict(id='p11-root-tolerance', property='P11',
  edits=[(Q, 'xtol=1e-6,', 'xtol=5e-5,')],
  needs='a section modelled in metres (or any unit in which it is about one unit deep)',
  breaks='the plastic neutral axis is only found to within 1e-4 units, so forces do not balance in sections of small dimensions',
  demo='''
for b, tf, tw in ((.2, .012, .007), (.15, .02, .011), (.3, .031, .017), (.25, .017, .023), (.11, .008, .005)):
    a = lib.tee_section(d=0.03, b=b / 10, t_f=tf / 10, t_w=tw / 10, r=0.001, n_r=4)
    c = lib.tee_section(d=300, b=b * 1e3, t_f=tf * 1e3, t_w=tw * 1e3, r=10, n_r=4)
    r = []
    for g in (a, c):
        s = Section(g.create_mesh([0])); s.calculate_geometric_properties(); s.calculate_plastic_properties()
        r.append(s.get_pc()[1])
    print(r, abs(r[0] * 1e4 - r[1]))
    expect(abs(r[0] * 1e4 - r[1]) < 0.05, f"{r}")   # the documented tolerance is 1e-6, that is 0.01 here
'''),
 dict(id='p06-single-nu', property='P06',
  edits=[(S, 'nu_eff = self.get_nu_eff() if self.is_composite() else 0.0', 'nu_eff = self.get_nu_eff() if len(self.material_groups) > 1 else 0.0')],
  needs='a section of a single material with a Poisson ratio, unsymmetric or thick enough for it to matter',
  breaks='the Poisson ratio of a section made of one material is ignored in the shear analysis',
  demo='''
m = Material("m", 200e3, 0.3, 250, 7.85e-6, "grey")
s = Section(lib.rectangular_section(d=20, b=100, material=m).create_mesh([20])); s.calculate_geometric_properties(); s.calculate_warping_properties()
k = [a / 200e3 / 2000 for a in s.get_eas()]
expect(near(s.get_nu_eff(), 0.3) and abs(min(k) - 5 / 6) > 1e-2, f"{k}")
'''),
 dict(id='p21-area-digits', property='P21',
  edits=[(FB, 'f"section Cell3D {self.tag} {self.area:.8e} {self.material}"', 'f"section Cell3D {self.tag} {self.area:.3e} {self.material}"')],
  needs='a 3D export',
  breaks='fibre areas of a 3D export are written with four digits only',
  demo='''
from sectionproperties.post.fibre import to_fibre_section
g = lib.angle_section(d=97.3, b=61.7, t=8.31, r_r=5.9, r_t=3.3, n_r=6).create_mesh([13])
s = Section(g)
out = to_fibre_section(s, analysis_type="3D")
a = [float(l.split()[3]) for l in out.splitlines() if l.startswith("section Cell3D")]
b = [e.geometric_properties()[0] for e in s.elements]
expect(len(a) == len(b) and max(abs(x - y) / y for x, y in zip(a, b)) < 1e-7, "areas")
'''),
 dict(id='p07-small-shear', property='P07',
  edits=[(F, 'if vx != 0:', 'if abs(vx) > 1:')],
  needs='a shear force of less than one unit (for instance meganewtons)',
  breaks='the stresses of a shear force below one unit are zero',
  demo='''
g = lib.rectangular_section(d=0.3, b=0.2).create_mesh([0.002]); s = Section(g)
s.calculate_geometric_properties(); s.calculate_warping_properties()
a = s.calculate_stress(vx=0.5).get_stress()[0]["sig_zx_vx"]; b = s.calculate_stress(vx=2).get_stress()[0]["sig_zx_vx"]
expect(np.allclose(4 * a, b, rtol=1e-9), "not linear")
'''),
 dict(id='p09-composite-nu', property='P09',
  edits=[(S, '                j = self.get_ej()\n                nu = self.get_nu_eff()\n            else:\n                j = self.get_j()\n                nu = 0.0\n\n            delta_s = self.section_props.delta_s\n            omega = self.section_props.omega\n            psi_shear = self.section_props.psi_shear\n            phi_shear = self.section_props.phi_shear\n\n            if (',
            '                j = self.get_ej()\n                nu = self.materials[0].poissons_ratio\n            else:\n                j = self.get_j()\n                nu = 0.0\n\n            delta_s = self.section_props.delta_s\n            omega = self.section_props.omega\n            psi_shear = self.section_props.psi_shear\n            phi_shear = self.section_props.phi_shear\n\n            if (')],
  needs='stresses at points of a section made of materials with different Poisson ratios under shear',
  breaks='the point stresses use the Poisson ratio of the first material rather than the effective one',
  demo='''
m1 = Material("a", 200e3, 0.3, 250, 7.85e-6, "grey"); m2 = Material("b", 30e3, 0.1, 30, 2.4e-6, "white")
g = lib.rectangular_section(d=50, b=60, material=m1) + lib.rectangular_section(d=70, b=60, material=m2).shift_section(0, 50)
s = Section(g.create_mesh([50])); s.calculate_geometric_properties(); s.calculate_warping_properties()
gr = s.calculate_stress(vy=1e4).get_stress()
i = int(np.argmin(np.hypot(s.mesh_nodes[:, 0], s.mesh_nodes[:, 1])))
p = s.get_stress_at_points(pts=[tuple(s.mesh_nodes[i])], vy=1e4)[0]
expect(near(p[2], gr[0]["sig_zy"][i], 1e-9, np.abs(gr[0]["sig_zy"]).max()), f"{p} {gr[0]['sig_zy'][i]}")
'''),
 dict(id='p22-shared-groups', property='P22',
  edits=[(T, 'from copy import deepcopy', 'from copy import copy'), (T, 'deepcopy(section.material_groups)', '[copy(g) for g in section.material_groups]')],
  needs='two stress analyses of the same section, with the first result read after the second analysis',
  breaks='stress results of one section share their arrays',
  demo='''
g = lib.rectangular_section(d=30, b=20).create_mesh([20]); s = Section(g); s.calculate_geometric_properties()
a = s.calculate_stress(n=100); x = a.get_stress()[0]["sig_zz_n"].copy()
b = s.calculate_stress(n=300)
expect(np.allclose(a.get_stress()[0]["sig_zz_n"], x), "first result changed")
expect(np.allclose(b.get_stress()[0]["sig_zz_n"], 3 * x), "second result")
'''),
 dict(id='p10-corner-nodes', property='P10',
  edits=[(S, 'for coord in el.coords.transpose():', 'for coord in el.coords.transpose()[1:]:')],
  needs='a section whose extreme fibre is a node that is the first vertex of the only element it belongs to',
  breaks='the extreme fibre is missed in the yield moments of sections with pointed corners',
  demo='''
m = Material("a", 200e3, 0.3, 250, 7.85e-6, "grey")
for pts in ([(0, 0), (100, 0), (50, 80)], [(0, 0), (70, 10), (30, 90)], [(0, 50), (60, 0), (90, 70)], [(10, 0), (50, 50), (0, 100)], [(100, 0), (50, 90), (0, 20)]):
    for h in (0, 400, 100):
        g = Geometry(__import__("shapely").Polygon(pts), material=m).create_mesh([h]); s = Section(g); s.calculate_geometric_properties()
        z = s.get_ezp(); my = s.get_my_p()
        expect(near(my[0], 250 / 200e3 * min(z[:2]), 1e-9) and near(my[1], 250 / 200e3 * min(z[2:]), 1e-9), f"{pts} {h}")
'''),
 dict(id='p13-cgs-rtol', property='P13',
  edits=[(SO, 'u, info = cgs(A=k_lg, b=np.append(f, 0), rtol=tol, M=m)', 'u, info = cgs(A=k_lg, b=np.append(f, 0), rtol=30 * tol, M=m)')],
  needs='the iterative solver on a section for which the incomplete factorisation is not exact',
  breaks='the iterative solver stops two orders of magnitude too early',
  demo='''
m1 = Material("a", 200e3, 0.3, 250, 7.85e-6, "grey"); m2 = Material("b", 30e3, 0.1, 30, 2.4e-6, "white")
g = lib.channel_section(d=100, b=50, t_f=5, t_w=3, r=4, n_r=4, material=m1) + lib.rectangular_section(d=40, b=150, material=m2).shift_section(-50, 100)
s = Section(g.create_mesh([2, 5])); s.calculate_geometric_properties()
r = []
for k in ("cgs", "direct"):
    s.calculate_warping_properties(solver_type=k); r.append((s.get_ej(), *s.get_eas()))
print(r, [x / y - 1 for x, y in zip(*r)])
expect(np.allclose(r[0], r[1], rtol=1e-6), f"{r}")
'''),
 dict(id='p23-region-count', property='P23',
  edits=[(S, 'regions = max(self._mesh_attributes) + 1', 'regions = len(self.material_groups)')],
  needs='a compound section with several regions of one material, the mesh statistics',
  breaks='the number of regions reported is the number of materials',
  demo='''
import io, contextlib
g = (lib.rectangular_section(d=50, b=60) + lib.rectangular_section(d=70, b=60).shift_section(0, 50)).create_mesh([0])
o = io.StringIO()
with contextlib.redirect_stdout(o):
    Section(g).display_mesh_info()
expect("2 regions" in o.getvalue(), o.getvalue())
'''),
 dict(id='p23-fmt-yield', property='P23',
  edits=[(P, '            table.add_row("my_11", f"{my_11:>{fmt}}")\n            table.add_row("my_22", f"{my_22:>{fmt}}")\n        except RuntimeError:\n            pass\n\n    # print cross-section rp\n    try:\n        r11, r22 = section.get_rp()\n        table.add_row("r11", f"{r11:>{fmt}}")\n        table.add_row("r22", f"{r22:>{fmt}}")\n    except RuntimeError:\n        pass\n\n    # print effective material properties\n    if is_composite:',
             '            table.add_row("my_11", f"{my_11:>{fmt}}")\n            table.add_row("my_22", f"{my_11:>{fmt}}")\n        except RuntimeError:\n            pass\n\n    # print cross-section rp\n    try:\n        r11, r22 = section.get_rp()\n        table.add_row("r11", f"{r11:>{fmt}}")\n        table.add_row("r22", f"{r22:>{fmt}}")\n    except RuntimeError:\n        pass\n\n    # print effective material properties\n    if is_composite:')],
  needs='the results table of a composite section with different principal yield moments',
  breaks='the table shows the yield moment about the 11-axis for the 22-axis',
  demo='''
import io, contextlib
m1 = Material("a", 200e3, 0.3, 250, 7.85e-6, "grey")
s = Section(lib.rectangular_section(d=50, b=20, material=m1).create_mesh([0])); s.calculate_geometric_properties()
o = io.StringIO()
with contextlib.redirect_stdout(o):
    s.display_results(fmt=".5e")
expect(f"{s.get_my_p()[1]:.5e}" in [l.split("│")[2].strip() for l in o.getvalue().splitlines() if "my_22" in l], o.getvalue())
'''),
 dict(id='p24-axis-angle', property='P24',
  edits=[(P, 'x11_basis = r.dot(np.array([1, 0]))', 'x11_basis = r.dot(np.array([1, 0])) * [1, 1] if abs(phi) < np.pi / 2 else r.dot(np.array([1, 0])) * [1, -1]')],
  needs='the centroid plot of a section whose principal axis angle is beyond ±90 degrees and not a multiple of 90',
  breaks='the 11-axis is drawn with the wrong slope',
  demo='''
import matplotlib; matplotlib.use("agg")
bad = []
for k in range(0, 360, 30):
    s = Section(lib.angle_section(d=100, b=60, t=8, r_r=5, r_t=3, n_r=4).rotate_section(k).create_mesh([0])); s.calculate_geometric_properties()
    ax = s.plot_centroids(render=False)
    l = [x for x in ax.lines if x.get_label() == "11-axis"][0]
    d = np.diff(np.array(l.get_xydata()), axis=0)[0]; p = np.radians(s.get_phi())
    if abs(d[0] * np.sin(p) - d[1] * np.cos(p)) > 1e-6 * np.hypot(*d):
        bad.append(k)
    __import__("matplotlib.pyplot").pyplot.close("all")
expect(not bad, f"{bad}")
'''),
 dict(id='p24-principal-pc', property='P24',
  edits=[(S, 'ax.scatter(  # pyright: ignore\n                    x11_pc,\n                    y22_pc,', 'ax.scatter(  # pyright: ignore\n                    x_pc,\n                    y22_pc,')],
  needs='the centroid plot of a section with a principal plastic centroid at another x than the global one',
  breaks='the principal plastic centroid is drawn at the x coordinate of the global one',
  demo='''
import matplotlib; matplotlib.use("agg")
s = Section(lib.angle_section(d=100, b=60, t=8, r_r=5, r_t=3, n_r=4).create_mesh([0])); s.calculate_geometric_properties(); s.calculate_plastic_properties()
ax = s.plot_centroids(render=False)
p = [np.array(c.get_offsets())[0] for c in ax.collections if c.get_label() == "Principal plastic centroid"][0]
expect(np.allclose(p, s.get_pc_p(), atol=1e-9), f"{p} {s.get_pc_p()}")
'''),
 dict(id='p17-girder-depth', property='P17',
  edits=[(BR, 'points.append((b_bf / 2, -d + h_bf))', 'points.append((b_bf / 2, -h_tf - h_ts - h_w - h_bf))')],
  needs='an I girder whose bottom splay and bottom flange differ in height',
  breaks='the bottom flange of the girder is unsymmetric',
  demo='''
for t in range(1, 5):
    g = lib.i_girder_section(t); c = g.calculate_centroid()
    expect(abs(c[0]) < 1e-9, f"type {t} centroid {c}")
'''),
 dict(id='p12-frame-shear', property='P12',
  edits=[(F, 'weight = gp[0] * j * self.material.elastic_modulus\n\n            f_psi, f_phi = _assemble_shear_load(', 'weight = gp[0] * j * max(self.material.elastic_modulus, 1.0)\n\n            f_psi, f_phi = _assemble_shear_load(')],
  needs='materials given with an elastic modulus below one (other units, or normalised moduli), shear areas or the shear centre',
  breaks='moduli below one are taken as one in the shear load, so results depend on the unit of the modulus',
  demo='''
r = []
for k in (1.0, 1e-6):
    m1 = Material("a", 200e3 * k, 0.3, 250, 7.85e-6, "grey"); m2 = Material("b", 30e3 * k, 0.1, 30, 2.4e-6, "white")
    g = lib.rectangular_section(d=50, b=60, material=m1) + lib.rectangular_section(d=70, b=60, material=m2).shift_section(0, 50)
    s = Section(g.create_mesh([50])); s.calculate_geometric_properties(); s.calculate_warping_properties()
    r.append(np.array(s.get_eas(e_ref=m1)))
expect(np.allclose(r[0], r[1], rtol=1e-6), f"{r}")
'''),
]
