"""P10: yield moments are the exact first-yield moments."""
import dataclasses
import math

import numpy as np

from harness import gens as G
from harness import oracles as O
from harness import props as PR
from harness import stress as S
from sectionproperties.analysis import Section
from sectionproperties.pre import CompoundGeometry, Geometry

KINDS = G.COMP + ["stackc", "disjoint_c"]
CASES = {"quick": {k: 24 for k in KINDS}, "thorough": {k: 400 for k in KINDS}}
FLOORS = {"exact": 600, "applied": 400, "strength": 800, "translate": 300, "plastic": 150}
RULE = "random composite sections x strengths: reported yield moments vs first yield over all vertices of all regions; applied back as loads"


def expected(sec, phi):
    I = S.Integrals(sec)
    out = {}
    for k, a in (("my_xx", "mxx"), ("my_yy", "myy"), ("my_11", "m11"), ("my_22", "m22")):
        best = math.inf
        for (m, p), (_, ext, holes) in zip(sec.regions, sec.rings()):
            v = np.concatenate([np.asarray(ext)] + [np.asarray(h) for h in holes])
            sig = m.elastic_modulus * np.abs(I.normal(v[:, 0], v[:, 1], a, phi)).max()
            best = min(best, m.yield_strength / sig)
        out[k] = best
    return out


def geo(sec, n_el, **kw):
    sec.mesh(n_el, **kw)
    s = Section(sec.geom)
    s.calculate_geometric_properties()
    return s


def my(s):
    return dict(zip(("my_xx", "my_yy", "my_11", "my_22"), (*s.get_my(), *s.get_my_p())))


def restrengthen(sec, f):
    """the same section with material strengths f(m)"""
    regs = [(dataclasses.replace(m, yield_strength=f(m)), p) for m, p in sec.regions]
    geoms = [Geometry(p, m) for m, p in regs]
    g = geoms[0] if len(geoms) == 1 else CompoundGeometry(geoms)
    return G.Sec(sec.name, g, regs, sec.connected, sec.L)


def run(ctx, case):
    rng = ctx.rng
    sec = G.zoo(rng, case["kind"])
    if rng.random() < .4:      # strengths in every order relative to the moduli
        lev = {m: float(f"{10 ** rng.uniform(0, 3):.4g}") for m, _ in sec.regions}
        sec = restrengthen(sec, lambda m: lev[m])
    if not sec.composite:
        m = G.rmats(rng, 1)[0]
        regs = [(m, p) for _, p in sec.regions]
        gg = [Geometry(p, m) for _, p in regs]
        sec = G.Sec(sec.name, gg[0] if len(gg) == 1 else CompoundGeometry(gg), regs, sec.connected, sec.L)
    n_el = int(rng.choice([10, 40, 120]))
    s = geo(sec, n_el, coarse=bool(rng.random() < .2))
    phi = s.get_phi()
    exp, got = expected(sec, phi), my(s)
    ip = s.get_eip()
    for k in exp:
        ctx.close(got[k], exp[k], f"exact/{k}", 1e-8, cls="exact", msg=f"{sec.name}: {k}")
    # applied back: the largest stress-to-strength ratio anywhere is exactly one
    for k, a in (("my_xx", "mxx"), ("my_yy", "myy"), ("my_11", "m11"), ("my_22", "m22")):
        for sign in (1, -1):
            R = S.rows(s.calculate_stress(**{a: sign * got[k]}))
            if not ctx.check(all(m in R for m, _ in S.groups(sec)), "applied/materials", lambda: f"{sec.name}: stresses only for {[m.name for m in R]}", cls="applied"):
                continue
            ratio = max(np.abs(R[m]["sig_zz"]).max() / m.yield_strength for m, _ in S.groups(sec))
            ctx.close(ratio, 1.0, f"applied/{k}", 1e-8, cls="applied", msg=f"{sec.name}: utilisation under {k}")
    # linear in the strengths, for every material at once
    f = float(10 ** rng.uniform(-2, 2))
    sec2 = restrengthen(sec, lambda m: m.yield_strength * f)
    g2 = my(geo(sec2, n_el))
    for k in exp:
        ctx.close(g2[k], f * got[k], f"strength/{k}", 1e-8, cls="strength", msg=f"{sec.name}: strengths times {f}")
    # raising the strength of one material never lowers a yield moment; and never has an effect if it does not govern
    mats = list(dict.fromkeys(m for m, _ in sec.regions))
    hi = mats[int(rng.integers(len(mats)))]
    sec3 = restrengthen(sec, lambda m: m.yield_strength * (5.0 if m == hi else 1.0))
    s3 = geo(sec3, n_el)
    g3, e3 = my(s3), expected(sec3, s3.get_phi())
    for k in exp:
        ctx.check(g3[k] >= got[k] * (1 - 1e-9), f"strength/monotone-{k}", f"{sec.name}: {k} fell from {got[k]} to {g3[k]}", cls="strength")
        ctx.close(g3[k], e3[k], f"strength/one-{k}", 1e-8, cls="strength", msg=f"{sec.name}: strength of {hi.name} times 5")
    # translation, and equal but distinct material objects per region
    d = rng.uniform(-20, 20, 2) * sec.L
    regs = [(dataclasses.replace(m), O_shift(p, d)) for m, p in sec.regions]
    geoms = [Geometry(p, m) for m, p in regs]
    sec4 = G.Sec(sec.name, geoms[0] if len(geoms) == 1 else CompoundGeometry(geoms), regs, sec.connected, sec.L)
    s4 = geo(sec4, n_el)
    g4 = my(s4)
    dphi = abs((s4.get_phi() - phi + 90) % 180 - 90)
    deg = abs(ip[0] - ip[1]) < 1e-6 * ip[0]
    for k in exp:
        if k in ("my_11", "my_22") and (deg or dphi > 1e-6):
            continue
        ctx.close(g4[k], got[k], f"translate/{k}", 1e-7, cls="translate", msg=f"{sec.name}: moved by {d}")
    # never above the plastic moment on uncoupled (principal) axes
    if case["i"] % 2 == 0:
        s.calculate_plastic_properties()
        mp = dict(zip(("my_11", "my_22"), s.get_mp_p()))
        for k in mp:
            ctx.check(got[k] <= mp[k] * (1 + 1e-4), f"plastic/{k}", lambda: f"{sec.name}: yield moment {got[k]} above plastic moment {mp[k]}", cls="plastic")
        if abs(S.Integrals(sec).ixy) < 1e-9 * s.get_eic()[0]:
            mx = s.get_mp()
            ctx.check(got["my_xx"] <= mx[0] * (1 + 1e-4) and got["my_yy"] <= mx[1] * (1 + 1e-4), "plastic/xy", f"{sec.name}", cls="plastic")
    ctx.signature(sec.name, tuple(round(v, 12) for v in exp.values()))
    ctx.note(section=sec.name, expected=exp, strengths=[m.yield_strength for m, _ in sec.regions], moduli=[m.elastic_modulus for m, _ in sec.regions])


def O_shift(p, d):
    from shapely import affinity
    return affinity.translate(p, float(d[0]), float(d[1]))
