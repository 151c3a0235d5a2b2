"""Builds the reference finite-element solution for an analysed section, from its mesh and the given regions only."""
from __future__ import annotations

import numpy as np
from shapely import contains_xy, prepare

from harness import oracles as O
from harness.common import HarnessError


def region_of(sec, nodes, tris):
    """region index of each element, by location of its centroid (independent of mesh attributes)"""
    cen = np.asarray(nodes, float)[np.asarray(tris)[:, :3]].mean(axis=1)
    out = np.full(len(cen), -1)
    for k, (_, p) in enumerate(sec.regions):
        prepare(p)
        out[contains_xy(p, cen[:, 0], cen[:, 1])] = k
    return out


def shear_modulus(m):
    return m.elastic_modulus / (2 * (1 + m.poissons_ratio))


def reference(sec, mesh=None):
    mesh = mesh or sec.geom.mesh
    nodes = np.asarray(mesh["vertices"], float)
    tris = np.asarray(mesh["triangles"], int)
    reg = region_of(sec, nodes, tris)
    if (reg < 0).any():
        raise HarnessError("an element centroid lies in no region")
    mats = [m for m, _ in sec.regions]
    e = np.array([mats[k].elastic_modulus for k in reg])
    g = np.array([shear_modulus(mats[k]) for k in reg])
    fe = O.RefFE(nodes, tris, e, g, sec.composite)
    fe.region = reg
    fe.e_true = e if sec.composite else np.ones(len(reg))
    return fe
