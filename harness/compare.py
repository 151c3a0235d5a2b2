"""Compares all results of two analysed sections that describe the same physical section in the same frame."""
from __future__ import annotations

import math

import numpy as np

from harness import props as R

TIED = 1e-4
AXIS_P = ("z11_plus", "z11_minus", "z22_plus", "z22_minus", "my_11", "my_22", "r11", "r22", "a_s11", "a_s22", "s11", "s22")


def axes_relation(g0, g1):
    """(tied, flipped, relative separation): whether the principal directions are ill-defined / reported reversed"""
    sep = (g0["i11_c"] - g0["i22_c"]) / (g0["i11_c"] + g0["i22_c"])
    d = math.cos(math.radians(g1["phi"] - g0["phi"]))
    return sep < TIED, d < 0, sep


def scales(g, w=None, p=None):
    """natural magnitude of every result (what its rounding/discretisation error is relative to)"""
    Imax = g["i11_c"] + g["i22_c"]
    D = math.sqrt(Imax / g["ea"])
    C = abs(g["cx"]) + abs(g["cy"]) + D
    s = dict(qx=g["ea"] * C, qy=g["ea"] * C, ixx_g=g["ea"] * C * C, iyy_g=g["ea"] * C * C, ixy_g=g["ea"] * C * C,
             ixx_c=Imax, iyy_c=Imax, ixy_c=Imax, i11_c=Imax, i22_c=Imax, cx=C, cy=C, nu_eff=.3)
    for k in g:
        s.setdefault(k, abs(g[k]))
    if w:
        E = D + max(abs(w["x_se"] - g["cx"]), abs(w["y_se"] - g["cy"]))
        s.update(j=w["j"] + 1e-4 * Imax, gamma=max(abs(w["gamma"]), 1e-5 * Imax * g["area"]))
        for k in ("x_se", "y_se", "x_st", "y_st", "x11_se", "y22_se"):
            s[k] = E + (0 if "1" in k else C - D) * 1e-3
        r = Imax / min(g["ixx_c"], g["iyy_c"], g["i22_c"])
        for k in w:
            if k.startswith("beta"):
                s[k] = E * r
            else:
                s.setdefault(k, abs(w[k]))
    if p:
        for k in ("x_pc", "y_pc", "x11_pc", "y22_pc"):
            s[k] = C
        for k in p:
            s.setdefault(k, abs(p[k]))
    return s


def results(s, plastic=True, warping=True):
    d = {"geo": R.geo(s)}
    if warping:
        d["warp"] = R.warp(s)
    if plastic:
        d["plas"] = R.plas(s)
    return d


def factors(names, k=1.0, ef=1.0):
    return {n: k ** R.DIMS[n][0] * ef ** R.DIMS[n][1] for n in names}


def compare(ctx, key, a, b, tol, *, ef=None, msg="", skip=(), cls=None, ptol=1e-5, only=None, flat_pc=False):
    """results a (expected, as dict of dicts) against b, with an optional modulus factor {name: factor}"""
    g0, g1 = a["geo"], b["geo"]
    tied, flip, sep = axes_relation(g0, g1)
    cond = (g0["i11_c"] + g0["i22_c"]) / g0["i22_c"]
    ang = 0.0
    if "phi" not in skip and not tied:
        ang = abs(math.sin(math.radians(g1["phi"] - g0["phi"])))
        ctx.check(ang <= tol * 3 / sep + 1e-12, f"{key}/phi", f"{msg}: principal angle {g1['phi']} != {g0['phi']}", cls=cls or key)
    sc = scales(g0, a.get("warp"), a.get("plas"))
    for grp in ("geo", "warp", "plas"):
        if grp not in a or grp not in b:
            continue
        for n, v in a[grp].items():
            if n in skip or n == "phi" or n not in b[grp] or (only and n not in only):
                continue
            princ = "11" in n or "22" in n
            if princ and n not in ("i11_c", "i22_c", "r11", "r22") and tied:
                continue
            m = n
            sign = 1.0
            if flip and princ:
                if n in ("x11_se", "y22_se"):
                    sign = -1.0
                m = n.replace("plus", "@").replace("minus", "plus").replace("@", "minus")
                if n.startswith("beta"):
                    sign = 1.0
            t = tol if grp != "plas" else max(ptol, tol)
            if grp == "warp":
                t = max(tol, 1e-6) if n != "gamma" else max(tol, 1e-4)
            if n in ("x_pc", "y_pc", "x11_pc", "y22_pc"):
                if flat_pc:
                    continue
                t = max(t, 1e-4)
            f = (ef or {}).get(n, 1.0)
            t = t * (1 + (20 * cond if grp == "geo" and n not in ("area", "perimeter", "ea", "mass", "qx", "qy", "cx", "cy", "nu_eff", "e_eff", "g_eff") else 0))
            if princ and grp != "geo" or n.startswith(("z11", "z22", "my_11", "my_22")):
                t = t + 40 * ang / max(sep, 1e-3) + 40 * tol / max(sep, TIED)
            ctx.close(b[grp][m], v * f * sign, f"{key}/{n}", t, scale=sc[n] * abs(f), cls=cls or key, msg=f"{msg}: {n}")
    return tied, flip, sep


def stress_tables(sp):
    """{material: {component: array}} from StressPost.get_stress(), plus region-order independent"""
    out = {}
    for row, grp in zip(sp.get_stress(), sp.material_groups):
        out[grp.material] = {k: np.asarray(v, float) for k, v in row.items() if k != "material"}
    return out


def inject(src_mesh, geom, attr=None, M=None):
    """give geom (a copy of) an existing mesh, optionally with other region numbers"""
    import copy
    m = {k: copy.deepcopy(v) for k, v in dict(src_mesh).items()}
    if attr is not None:
        m["triangle_attributes"] = np.asarray(attr, float).reshape(-1, 1)
    geom.mesh = m
    return geom
