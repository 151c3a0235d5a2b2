"""Reference stress fields for an analysed section (from the regions and the reference FE solution)."""
from __future__ import annotations

import math

import numpy as np

from harness import fe as F
from harness import oracles as O

ATOMIC_N = ["sig_zz_n", "sig_zz_mxx", "sig_zz_myy", "sig_zz_m11", "sig_zz_m22"]
ATOMIC_S = ["sig_zx_mzz", "sig_zy_mzz", "sig_zx_vx", "sig_zy_vx", "sig_zx_vy", "sig_zy_vy"]
ATOMIC = ATOMIC_N + ATOMIC_S
ACTIONS = ["n", "vx", "vy", "mxx", "myy", "m11", "m22", "mzz"]
COMBINED = ["sig_zz_m", "sig_zxy_mzz", "sig_zxy_vx", "sig_zxy_vy", "sig_zx_v", "sig_zy_v", "sig_zxy_v", "sig_zz", "sig_zx", "sig_zy", "sig_zxy",
            "sig_11", "sig_33", "sig_vm"]
ACTION_OF = {c: c.split("_")[-1] for c in ATOMIC}


class Integrals:
    """Exact E-weighted integrals of the regions about the elastic centroid (E=1 when homogeneous)."""

    def __init__(self, sec):
        tot = np.zeros(6)
        sh = np.array([sec.regions[0][1].bounds[0], sec.regions[0][1].bounds[1]])
        for (m, p), (_, ext, holes) in zip(sec.regions, sec.rings()):
            w = m.elastic_modulus if sec.composite else 1.0
            tot += w * np.asarray(O.poly_moments(np.asarray(ext) - sh, [np.asarray(h) - sh for h in holes]))[:6]
        self.ea, qx, qy, ixx, iyy, ixy = tot
        x, y = qy / self.ea, qx / self.ea
        self.c = np.array([x, y]) + sh
        self.ixx, self.iyy, self.ixy = ixx - y * y * self.ea, iyy - x * x * self.ea, ixy - x * y * self.ea
        self.det = self.ixx * self.iyy - self.ixy ** 2

    def normal(self, x, y, action, phi):
        """E-free normal stress per unit action at global coordinates"""
        x, y = x - self.c[0], y - self.c[1]
        c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
        u, v = x * c + y * s, -x * s + y * c
        i11 = self.ixx * c * c - 2 * self.ixy * s * c + self.iyy * s * s
        i22 = self.ixx * s * s + 2 * self.ixy * s * c + self.iyy * c * c
        if action == "n":
            return np.full_like(x, 1 / self.ea)
        if action == "mxx":
            return (self.iyy * y - self.ixy * x) / self.det
        if action == "myy":
            return (self.ixy * y - self.ixx * x) / self.det
        if action == "m11":
            return v / i11
        if action == "m22":
            return -u / i22
        raise KeyError(action)


def element_shear(ref, L=None):
    """Per element, at barycentric points: {action: (ne, nL, 2)} stress per unit action (true moduli)"""
    x, y, T, SX, SY = ref.shear_fields(L)
    e = ref.e[:, None, None]
    return {"mzz": e * T / ref.j, "vx": e * SX / ref.delta_s, "vy": e * SY / ref.delta_s}


def rows(post):
    """{material: stresses} (names need not be unique; the groups are listed in one order)"""
    return {g.material: r for r, g in zip(post.get_stress(), post.material_groups)}


def groups(sec):
    """distinct materials in order of first appearance, with their region indices"""
    out = []
    for k, (m, _) in enumerate(sec.regions):
        for g in out:
            if g[0] == m:
                g[1].append(k)
                break
        else:
            out.append((m, [k]))
    return out


def nodal_mean(ref, sel, vals):
    """arithmetic mean over the elements of the group sharing each node; vals (ne,6) at normalised node order"""
    n = len(ref.m.nodes)
    acc, cnt = np.zeros(n), np.zeros(n)
    np.add.at(acc, ref.m.tris[sel].ravel(), vals[sel].ravel())
    np.add.at(cnt, ref.m.tris[sel].ravel(), 1)
    return np.where(cnt > 0, acc / np.maximum(cnt, 1), 0.0), cnt > 0
