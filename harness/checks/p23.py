"""P23: the printed tables, the dictionary form and the mesh summary, parsed back and compared with the getters."""
import contextlib
import io
import math
import re

import numpy as np

from harness import gens as G
from harness import props as R
from sectionproperties.analysis import Section
from sectionproperties.pre import Material

KINDS = G.HOMOG + G.COMP + G.DISJ
CASES = {"quick": {**{f"table:{k}": 7 for k in KINDS}}}
CASES["thorough"] = {k: v * 40 for k, v in CASES["quick"].items()}
FLOORS = {"rows": 2000, "value": 50000, "transformed": 20000, "dict": 8000, "mesh": 300, "refused": 100}
RULE = "random sections in every analysis state; the terminal table parsed from the captured output for random number formats, reference moduli and materials"
ASSUMPTIONS = ["the number format does not carry its own alignment or zero padding (the table right-aligns every value)",
               "the dictionary holds shear and plastic centres relative to the elastic centroid, as stored by the analyses"]
STATES = ["", "G", "F", "GF", "FG", "GW", "GP", "GWP", "FGWP", "GFW", "GPW", "GWF"]
FMTS = ["8.6e", "8.6f", ".3e", "12.4g", "+.5e", ",.2f", ".0f", "g", "", ".10g", " .4e", "14.8E", ".12f", "30.15e"]

# rows of display_results: name -> (getter, index); (h) homogeneous, (c) composite, (b) both
B = [("area", "get_area", None), ("perimeter", "get_perimeter", None), ("cx", "get_c", 0), ("cy", "get_c", 1), ("rx", "get_rc", 0), ("ry", "get_rc", 1),
     ("phi", "get_phi", None), ("r11", "get_rp", 0), ("r22", "get_rp", 1), ("x_se", "get_sc", 0), ("y_se", "get_sc", 1), ("x1_se", "get_sc_p", 0),
     ("y2_se", "get_sc_p", 1), ("x_st", "get_sc_t", 0), ("y_st", "get_sc_t", 1),
     ("beta_x+", "get_beta", 0), ("beta_x-", "get_beta", 1), ("beta_y+", "get_beta", 2), ("beta_y-", "get_beta", 3),
     ("beta_11+", "get_beta_p", 0), ("beta_11-", "get_beta_p", 1), ("beta_22+", "get_beta_p", 2), ("beta_22-", "get_beta_p", 3),
     ("x_pc", "get_pc", 0), ("y_pc", "get_pc", 1), ("x11_pc", "get_pc_p", 0), ("y22_pc", "get_pc_p", 1),
     ("sf_xx+", "get_sf", 0), ("sf_xx-", "get_sf", 1), ("sf_yy+", "get_sf", 2), ("sf_yy-", "get_sf", 3),
     ("sf_11+", "get_sf_p", 0), ("sf_11-", "get_sf_p", 1), ("sf_22+", "get_sf_p", 2), ("sf_22-", "get_sf_p", 3)]
H = [("qx", "get_q", 0), ("qy", "get_q", 1), ("ixx_g", "get_ig", 0), ("iyy_g", "get_ig", 1), ("ixy_g", "get_ig", 2),
     ("ixx_c", "get_ic", 0), ("iyy_c", "get_ic", 1), ("ixy_c", "get_ic", 2), ("zxx+", "get_z", 0), ("zxx-", "get_z", 1), ("zyy+", "get_z", 2), ("zyy-", "get_z", 3),
     ("i11_c", "get_ip", 0), ("i22_c", "get_ip", 1), ("z11+", "get_zp", 0), ("z11-", "get_zp", 1), ("z22+", "get_zp", 2), ("z22-", "get_zp", 3),
     ("j", "get_j", None), ("gamma", "get_gamma", None), ("a_sx", "get_as", 0), ("a_sy", "get_as", 1), ("a_s11", "get_as_p", 0), ("a_s22", "get_as_p", 1),
     ("sxx", "get_s", 0), ("syy", "get_s", 1), ("s11", "get_sp", 0), ("s22", "get_sp", 1)]
W = [("qx", "get_eq", 0), ("qy", "get_eq", 1), ("ixx_g", "get_eig", 0), ("iyy_g", "get_eig", 1), ("ixy_g", "get_eig", 2),
     ("ixx_c", "get_eic", 0), ("iyy_c", "get_eic", 1), ("ixy_c", "get_eic", 2), ("zxx+", "get_ez", 0), ("zxx-", "get_ez", 1), ("zyy+", "get_ez", 2),
     ("zyy-", "get_ez", 3), ("i11_c", "get_eip", 0), ("i22_c", "get_eip", 1), ("z11+", "get_ezp", 0), ("z11-", "get_ezp", 1), ("z22+", "get_ezp", 2),
     ("z22-", "get_ezp", 3), ("j", "get_ej", None), ("gamma", "get_egamma", None), ("a_sx", "get_eas", 0), ("a_sy", "get_eas", 1),
     ("a_s11", "get_eas_p", 0), ("a_s22", "get_eas_p", 1)]           # divided by e_ref in the transformed table, "e." in the plain one
CO = [("mass", "get_mass", None), ("my_xx", "get_my", 0), ("my_yy", "get_my", 1), ("my_11", "get_my_p", 0), ("my_22", "get_my_p", 1),
      ("e_eff", "get_e_eff", None), ("g_eff", "get_g_eff", None), ("nu_eff", "get_nu_eff", None),
      ("mp_xx", "get_mp", 0), ("mp_yy", "get_mp", 1), ("mp_11", "get_mp_p", 0), ("mp_22", "get_mp_p", 1)]

# dictionary key -> (getter homogeneous, getter composite, index, relative to the elastic centroid?)
D = dict(area=("get_area", None, 0), perimeter=("get_perimeter", None, 0), qx=("get_q", "get_eq", 0), qy=("get_q", "get_eq", 1),
         ixx_g=("get_ig", "get_eig", 0), iyy_g=("get_ig", "get_eig", 1), ixy_g=("get_ig", "get_eig", 2), cx=("get_c", None, 0), cy=("get_c", None, 1),
         ixx_c=("get_ic", "get_eic", 0), iyy_c=("get_ic", "get_eic", 1), ixy_c=("get_ic", "get_eic", 2),
         zxx_plus=("get_z", "get_ez", 0), zxx_minus=("get_z", "get_ez", 1), zyy_plus=("get_z", "get_ez", 2), zyy_minus=("get_z", "get_ez", 3),
         rx_c=("get_rc", None, 0), ry_c=("get_rc", None, 1), i11_c=("get_ip", "get_eip", 0), i22_c=("get_ip", "get_eip", 1), phi=("get_phi", None, 0),
         z11_plus=("get_zp", "get_ezp", 0), z11_minus=("get_zp", "get_ezp", 1), z22_plus=("get_zp", "get_ezp", 2), z22_minus=("get_zp", "get_ezp", 3),
         r11_c=("get_rp", None, 0), r22_c=("get_rp", None, 1), j=("get_j", "get_ej", 0), gamma=("get_gamma", "get_egamma", 0),
         a_sx=("get_as", "get_eas", 0), a_sy=("get_as", "get_eas", 1), a_s11=("get_as_p", "get_eas_p", 0), a_s22=("get_as_p", "get_eas_p", 1),
         beta_x_plus=("get_beta", None, 0), beta_x_minus=("get_beta", None, 1), beta_y_plus=("get_beta", None, 2), beta_y_minus=("get_beta", None, 3),
         beta_11_plus=("get_beta_p", None, 0), beta_11_minus=("get_beta_p", None, 1), beta_22_plus=("get_beta_p", None, 2), beta_22_minus=("get_beta_p", None, 3),
         sxx=("get_s", "get_mp", 0), syy=("get_s", "get_mp", 1), s11=("get_sp", "get_mp_p", 0), s22=("get_sp", "get_mp_p", 1),
         sf_xx_plus=("get_sf", None, 0), sf_xx_minus=("get_sf", None, 1), sf_yy_plus=("get_sf", None, 2), sf_yy_minus=("get_sf", None, 3),
         sf_11_plus=("get_sf_p", None, 0), sf_11_minus=("get_sf_p", None, 1), sf_22_plus=("get_sf_p", None, 2), sf_22_minus=("get_sf_p", None, 3),
         x11_se=("get_sc_p", None, 0), y22_se=("get_sc_p", None, 1))
DC = dict(mass=("get_mass", 0), ea=("get_ea", 0), my_xx=("get_my", 0), my_yy=("get_my", 1), my_11=("get_my_p", 0), my_22=("get_my_p", 1),
          nu_eff=("get_nu_eff", 0), e_eff=("get_e_eff", 0), g_eff=("get_g_eff", 0))
REL = dict(x_se=("get_sc", 0, "cx"), y_se=("get_sc", 1, "cy"), x_st=("get_sc_t", 0, "cx"), y_st=("get_sc_t", 1, "cy"), x_pc=("get_pc", 0, "cx"), y_pc=("get_pc", 1, "cy"))


def ask(s, getter, k):
    try:
        v = getattr(s, getter)()
    except RuntimeError:
        return None
    return v if k is None else v[k]


def capture(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    return re.sub(r"\x1b\[[0-9;]*m", "", out.getvalue())


def rows(text):
    """name -> value text from a printed table"""
    got = []
    for line in text.splitlines():
        p = [c.strip() for c in re.split("[│┃|]", line)]
        p = [c for c in p if c]
        if len(p) == 2 and p != ["Property", "Value"]:
            got.append(tuple(p))
    return got


def fmt_ok(cell, v, fmt):
    if cell == format(v, fmt).strip():
        return True
    # the value one rounding away (a division done in another order)
    return any(cell == format(v * (1 + k * 2.3e-16), fmt).strip() for k in (-2, -1, 1, 2))


def run(ctx, case):
    rng = ctx.rng
    kind = case["kind"].split(":")[1]
    sec = G.zoo(rng, kind, scale=float(10 ** rng.uniform(-3, 4)), far=float(rng.choice([0, 1, 5])))
    s0 = G.make_section(sec, *((int(rng.integers(15, 70)),) if rng.random() < .85 else (1, 0, True)))
    comp = s0.is_composite()
    trace = []
    for st in [STATES[0]] + [str(x) for x in rng.choice(STATES[1:], 4, replace=False)]:
        s = Section(sec.geom)
        for op in st:
            if op == "G":
                s.calculate_geometric_properties()
            elif op == "W" and sec.connected:
                s.calculate_warping_properties()
            elif op == "P":
                s.calculate_plastic_properties(verbose=False)
            elif op == "F" and sec.connected:
                s.calculate_frame_properties()
        trace.append(st)
        one(ctx, rng, sec, s, comp, f"{sec.name} after {st or 'nothing'}")
    ctx.signature(sec.name, s0.num_nodes, trace, float(s0.mesh["vertices"][0][0]))
    ctx.note(section=sec.name, states=trace, rows=ctx.info.get("rows"))


def one(ctx, rng, sec, s, comp, m):
    for use_default in (True, False):
        fmt = "8.6e" if use_default else str(rng.choice(FMTS))
        text = capture(s.display_results if use_default else lambda: s.display_results(fmt=fmt))
        got = rows(text)
        names = [n for n, _ in got]
        ctx.check(len(set(names)) == len(names), "rows/twice", f"{m}: a property is listed twice: {names}", cls="rows")
        spec = list(B)
        if comp:
            spec += CO + [("e." + n, g, k) for n, g, k in W] + [("e.a", "get_ea", None)]
        else:
            spec += H
        compare(ctx, s, dict(got), {n: ask(s, g, k) for n, g, k in spec}, fmt, "value", m)
        ctx.info["rows"] = len(got)
    # transformed results
    if comp:
        e = float(10 ** rng.uniform(-2, 6)) if rng.random() < .7 else float(rng.integers(1, 9))
        use = e
        if rng.random() < .5:
            use = Material("ref", e, .3, 7, 8, "b")
        elif rng.random() < .3:
            use = int(max(1, round(e)))
            e = float(use)
        fmt = str(rng.choice(FMTS))
        got = rows(capture(lambda: s.display_transformed_results(use, fmt=fmt)))
        names = [n for n, _ in got]
        ctx.check(len(set(names)) == len(names), "rows/twice", f"{m}: a property is listed twice: {names}", cls="rows")
        want = {("geom area" if n == "area" else n): ask(s, g, k) for n, g, k in B + CO}
        er = use if isinstance(use, int) else e
        want["e_ref"] = er
        for n, g, k in W + [("a", "get_ea", None)]:
            v = ask(s, g, k)
            want[n] = None if v is None else v / er
        compare(ctx, s, dict(got), want, fmt, "transformed", f"{m} (e_ref={use!r})")
    else:
        e = ctx.raises(RuntimeError, lambda: capture(lambda: s.display_transformed_results(e_ref=2.0)), "refused/transformed", m, "composite only")
    # dictionary
    d = s.section_props.asdict()
    for k, (h, c, i) in D.items():
        g = c if comp and c else h
        v = ask(s, g, None)
        if v is None:
            continue
        v = v[i] if isinstance(v, tuple) else v
        ctx.check(k in d and d[k] is not None and float(d[k]) == float(v), f"dict/{k}", lambda: f"{m}: asdict()[{k!r}] = {d.get(k)!r}, {g} gives {v!r}", cls="dict")
    if comp:
        for k, (g, i) in DC.items():
            v = ask(s, g, None)
            if v is None:
                continue
            v = v[i] if isinstance(v, tuple) else v
            ctx.check(k in d and d[k] is not None and float(d[k]) == float(v), f"dict/{k}", lambda: f"{m}: asdict()[{k!r}] = {d.get(k)!r}, {g} gives {v!r}", cls="dict")
    for k, (g, i, c) in REL.items():
        v = ask(s, g, i)
        if v is not None:
            ctx.close(d[k] + d[c], v, f"dict/{k}", 1e-12, scale=abs(d[k]) + abs(d[c]), cls="dict", msg=m)
    for k in ("omega", "psi_shear", "phi_shear"):
        v = getattr(s.section_props, k)
        ctx.check((v is None and d[k] is None) or np.array_equal(v, d[k]), f"dict/{k}", f"{m}: {k} differs", cls="dict")
    # the dictionary is a copy: using it does not touch the section
    before = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in s.section_props.asdict().items()}
    for k, v in d.items():
        if isinstance(v, np.ndarray):
            v *= 0
        d[k] = -1
    after = s.section_props.asdict()
    ctx.check(all(np.array_equal(before[k], after[k]) if isinstance(before[k], np.ndarray) else before[k] is after[k] or before[k] == after[k] or
                  (isinstance(before[k], float) and math.isnan(before[k])) for k in before), "dict/aliased", f"{m}: changing the dictionary changed the section", cls="dict")
    # mesh summary
    text = capture(s.display_mesh_info)
    nums = {w: int(n) for n, w in re.findall(r"(\d+) (nodes?|elements?|regions?)", text)}
    mesh = sec.geom.mesh
    ctx.check(nums.get("nodes") == len(mesh["vertices"]), "mesh/nodes", f"{m}: {text!r}", cls="mesh")
    ctx.check(nums.get("elements") == len(mesh["triangles"]), "mesh/elements", f"{m}: {text!r}", cls="mesh")
    ctx.check(nums.get("regions", nums.get("region")) == len(sec.regions), "mesh/regions", f"{m}: {text!r} for {len(sec.regions)} regions", cls="mesh")


def compare(ctx, s, got, want, fmt, key, m):
    for n, v in want.items():
        if v is None:
            ctx.check(n not in got, f"{key}/uncalculated-{n}", lambda: f"{m}: row {n} = {got.get(n)} although it was not calculated", cls=key)
            continue
        if ctx.check(n in got, f"{key}/missing-{n}", f"{m}: no row {n}", cls=key):
            ctx.check(fmt_ok(got[n], v, fmt), f"{key}/{n}", lambda: f"{m}: row {n} shows {got[n]!r}, the getter gives {v!r} (format {fmt!r})", cls=key)
    extra = [n for n in got if n not in want]
    ctx.check(not extra, f"{key}/extra", f"{m}: unexpected rows {extra}", cls="rows")
