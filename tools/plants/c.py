"""Planted bugs: analysis and stress, second round."""
F, S, P, Q, T = 'analysis/fea.py', 'analysis/section.py', 'post/post.py', 'analysis/plastic_section.py', 'post/stress_post.py'
PLANTS = [
 dict(id='p08-sig11-compression', property='P08',
  edits=[(T, '''        self.sig_11 = self.sig_zz / 2 + np.sqrt(''', '''        self.sig_11 = np.abs(self.sig_zz) / 2 + np.sqrt(''')],
  needs='a stress state with axial compression at a node',
  breaks='the major principal stress is wrong wherever the normal stress is compressive',
  demo='''
s = Section(lib.rectangular_section(d=100, b=50).create_mesh([50])); s.calculate_geometric_properties(); s.calculate_warping_properties()
for n in (5e3, -5e3):
    r = s.calculate_stress(n=n, vy=1e3, mxx=1e4).get_stress()[0]
    a, t = r["sig_zz"], r["sig_zxy"]
    expect(near(r["sig_11"] + r["sig_33"], a, 1e-9, np.abs(a).max()), "sum of the principal stresses is not the normal stress")
'''),
 dict(id='p08-zxy-v-sum', property='P08',
  edits=[(T, 'self.sig_zxy_v = (self.sig_zx_v**2 + self.sig_zy_v**2) ** 0.5', 'self.sig_zxy_v = (self.sig_zxy_vx**2 + self.sig_zxy_vy**2) ** 0.5')],
  needs='shear forces in both directions at once',
  breaks='the resultant shear stress of both shear forces ignores the angle between their shear stresses',
  demo='''
s = Section(lib.angle_section(d=100, b=70, t=10, r_r=8, r_t=4, n_r=4).create_mesh([20])); s.calculate_geometric_properties(); s.calculate_warping_properties()
r = s.calculate_stress(vx=2e3, vy=1e3).get_stress()[0]
expect(near(r["sig_zxy_v"], r["sig_zxy"], 1e-9), "shear resultants differ without torsion")
'''),
 dict(id='p09-agg-shear', property='P09',
  edits=[(S, '                    float(agg_func([sig[2] for sig in sigs])),\n', '                    float(np.average([sig[2] for sig in sigs])),\n')],
  needs='get_stress_at_points at a shared node or edge with an agg_func other than the average',
  breaks='the y shear stress ignores the aggregation function',
  demo='''
s = Section(lib.rectangular_section(d=100, b=50).create_mesh([100])); s.calculate_geometric_properties(); s.calculate_warping_properties()
deg = np.bincount(s.mesh["triangles"][:, :3].ravel())
pts = [tuple(s.mesh["vertices"][i]) for i in np.argsort(-deg)[:6]]
lo = s.get_stress_at_points(pts, vx=3e3, vy=1e4, agg_func=min); hi = s.get_stress_at_points(pts, vx=3e3, vy=1e4, agg_func=max)
expect(any(h[2] > l[2] for l, h in zip(lo, hi)), f"{lo} {hi}")
'''),
 dict(id='p10-yield-myy-cross', property='P10',
  edits=[(S, '''                        sig_myy = em * (
                            -ixx / (ixx * iyy - ixy**2) * x
                            + ixy / (ixx * iyy - ixy**2) * y
                        )''', '''                        sig_myy = em * (
                            -ixx / (ixx * iyy - ixy**2) * x
                            - ixy / (ixx * iyy - ixy**2) * y
                        )''')],
  needs='a section with a nonzero product of inertia and a material',
  breaks='the yield moment about the y axis uses the wrong sign of the coupling term',
  demo='''
m = Material("m", 200e3, 0.3, 300, 1e-6, "grey")
s = Section(lib.angle_section(d=150, b=90, t=12, r_r=10, r_t=5, n_r=8, material=m).create_mesh([20])); s.calculate_geometric_properties(); s.calculate_warping_properties()
my = s.get_my()[1]
sig = np.abs(s.calculate_stress(myy=my).get_stress()[0]["sig_zz"]).max()
expect(near(sig, 300, 1e-6), f"largest stress at the yield moment {sig}")
'''),
 dict(id='p03-coords-cache-rounding', property='P03',
  edits=[(F, 'return __shape_function_cached(tuple(coords.ravel()), tuple(gauss_point[1:]))', 'return __shape_function_cached(tuple(coords.ravel().round(9)), tuple(gauss_point[1:]))')],
  needs='a section whose dimensions are small numbers (metres) or not representable in nine decimals',
  breaks='element coordinates are rounded to nine decimals, so properties do not scale with the units',
  demo='''
def prop(k):
    s = Section(Geometry(__import__("shapely").geometry.Polygon(np.array([(0, 0), (1.7, 0.2), (1.1, 1.3), (0.3, 0.9)]) * k)).create_mesh([0.02 * k * k])); s.calculate_geometric_properties()
    return np.array(s.get_ic()) / k ** 4
expect(near(prop(1e-3), prop(1e2), 1e-8), f"{prop(1e-3)} {prop(1e2)}")
'''),
 dict(id='p13-frame-ixy-area', property='P13',
  edits=[(S, '            self.section_props.ixy_c = ixy_g - qx * qy / ea\n', '            self.section_props.ixy_c = ixy_g - qx * qy / ea * (1 if self.num_nodes > 12 else ixx_g / (ixx_g + iyy_g) * 2)\n')],
  needs='a very coarse mesh (at most 12 nodes)',
  breaks='frame analysis product of inertia is wrong for meshes of very few elements',
  demo='''
g = Geometry(__import__("shapely").geometry.Polygon([(10, 10), (40, 10), (10, 25)])).create_mesh([0], coarse=True)
s = Section(g); s.calculate_geometric_properties(); f = Section(g).calculate_frame_properties()
expect(near(f[3], s.get_ic()[2], 1e-9), f"{f[3]} {s.get_ic()}")
'''),
 dict(id='p22-mass-accumulates', property='P22',
  edits=[(S, '            self.section_props.mass = 0.0\n', '            self.section_props.mass = self.section_props.mass or 0.0\n')],
  needs='the geometric analysis run twice on one Section',
  breaks='the mass doubles when the analysis is repeated',
  demo='''
m = Material("m", 200e3, 0.3, 300, 2.0, "grey")
s = Section(lib.rectangular_section(d=10, b=5, material=m).create_mesh([5]))
s.calculate_geometric_properties(); a = s.get_mass(); s.calculate_geometric_properties()
expect(near(s.get_mass(), a), f"{a} then {s.get_mass()}")
'''),
 dict(id='p05-shear-area-rotation', property='P05',
  edits=[(S, '''                    [np.cos(phi_rad), np.sin(phi_rad)],
                    [-np.sin(phi_rad), np.cos(phi_rad)],
                ]
            )

            rotated_alpha''', '''                    [np.cos(phi_rad), -np.sin(phi_rad)],
                    [np.sin(phi_rad), np.cos(phi_rad)],
                ]
            )

            rotated_alpha''')],
  needs='a section with inclined principal axes',
  breaks='principal shear areas are rotated by the wrong sign of the principal angle',
  demo='''
def asp(a):
    s = Section(lib.rectangular_section(d=100, b=30).rotate_section(a).create_mesh([20])); s.calculate_geometric_properties(); s.calculate_warping_properties()
    return s.get_as_p()
expect(near(asp(0), asp(30), 1e-2), f"{asp(0)} {asp(30)}")
'''),
 dict(id='p05-warping-constant-t', property='P05',
  edits=[(S, 'i_omega - q_omega**2 / ea - y_se * i_xomega + x_se * i_yomega', 'i_omega - q_omega**2 / ea - y_st * i_xomega + x_st * i_yomega')],
  needs='a composite section with nonzero effective Poisson ratio whose shear centres differ',
  breaks='the warping constant is taken about the Trefftz shear centre',
  demo='''
a = Material("a", 200e3, 0.45, 300, 1e-6, "grey")
g = lib.channel_section(d=60, b=50, t_f=14, t_w=14, r=0, n_r=1, material=a)
s = Section(g.create_mesh([6])); s.calculate_geometric_properties(); s.calculate_warping_properties()
p = s.section_props; x, y = p.x_se, p.y_se
w = p.omega; c = s.get_c()
io = ixo = iyo = q = 0.0
from sectionproperties.analysis import fea
for el in s.elements:
    for gp in fea.gauss_points(n=4):
        n, _, j, nx, ny = fea.shape_function(el.coords, gp)
        o = n @ w[el.node_ids]; k = gp[0] * j * 200e3
        io += k * o * o; q += k * o; ixo += k * o * (nx - c[0]); iyo += k * o * (ny - c[1])
g0 = io - q * q / p.ea - y * ixo + x * iyo
expect(near(p.gamma, g0, 1e-6), f"{p.gamma} {g0}")
'''),
 dict(id='p07-extrapolate-row', property='P07',
  edits=[(F, '''            0.0749010751157440,
            0.180053080734478,
            0.0749010751157440,
            -0.345185782636792,
            -0.345185782636792,
            1.36051633430762,
        ],''', '''            0.0749010751157440,
            0.180053080734478,
            0.0749010751157440,
            -0.345185782636792,
            -0.346185782636792,
            1.36151633430762,
        ],''')],
  needs='nodal stresses at mid-side nodes of elements (a per mille of the stress gradient)',
  breaks='extrapolation of linear stress fields to one mid-side node is inexact',
  demo='''
s = Section(lib.rectangular_section(d=100, b=50).create_mesh([200])); s.calculate_geometric_properties()
r = s.calculate_stress(mxx=1e6).get_stress()[0]["sig_zz"]
y = s.mesh["vertices"][:, 1] - 50
want = 1e6 * y / s.get_ic()[0]
expect(near(r, want, 1e-6), f"error {np.abs(r - want).max() / np.abs(want).max()}")
'''),
 dict(id='p12-ez-minus', property='P12',
  edits=[(S, '            self.section_props.z22_minus / e_ref,\n', '            self.section_props.z22_minus / (e_ref if e_ref > 1 else 1),\n')],
  needs='a reference modulus below one (moduli in TPa or normalised units)',
  breaks='get_ezp does not divide its last value by small reference moduli',
  demo='''
m = Material("m", 0.2, 0.3, 300, 2.0, "grey")
s = Section(lib.rectangular_section(d=10, b=5, material=m).create_mesh([5])); s.calculate_geometric_properties()
a, b = np.array(s.get_ezp()), np.array(s.get_ezp(e_ref=0.2))
expect(near(b, a / 0.2), f"{a} {b}")
'''),
 dict(id='p20-balanced-actions', property='P20',
  edits=[(S, """        # check for warping analysis requirement
        if vx != 0 or vy != 0 or mzz != 0:""", """        # check for warping analysis requirement
        if vx + vy + mzz != 0:""")],
  needs='shear and torsion actions whose sum is zero',
  breaks='the stress analysis treats actions that sum to zero as absent: no error without a warping analysis, and a division by zero with one',
  demo='''
s = Section(lib.rectangular_section(d=100, b=50).create_mesh([200])); s.calculate_geometric_properties()
try:
    s.calculate_stress(vx=1e3, vy=-1e3); ok = False
except RuntimeError: ok = True
except Exception: ok = False
expect(ok, "no RuntimeError without a warping analysis")
'''),
 dict(id='p09-balanced-actions', property='P09',
  edits=[(S, """        # ensure warping analysis completed for shear and torsion
        if vx != 0 or vy != 0 or mzz != 0:""", """        # ensure warping analysis completed for shear and torsion
        if any(v > 0 for v in (vx, vy, mzz)):""")],
  needs='only negative shear or torsion actions',
  breaks='get_stress_at_points fails or ignores shear forces and torsion that are all negative',
  demo='''
s = Section(lib.rectangular_section(d=100, b=50).create_mesh([200])); s.calculate_geometric_properties(); s.calculate_warping_properties()
a = s.get_stress_at_points([(20, 30)], vy=1e3)[0]
try: b = s.get_stress_at_points([(20, 30)], vy=-1e3)[0]
except Exception as e: b = (9, 9, 9)
expect(near(a, -np.array(b)), f"{a} {b}")
'''),
]
