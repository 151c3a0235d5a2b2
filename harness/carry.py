"""Carry a mesh along with a transformed geometry, so that two executions see the same triangulation."""
from __future__ import annotations

import copy

import numpy as np


def carry_mesh(src_geom, dst_geom, M, t):
    """dst_geom.mesh := src mesh mapped by p -> M p + t (orientation restored for reflections)."""
    m = src_geom.mesh
    out = {k: copy.deepcopy(v) for k, v in dict(m).items()}
    v = np.array(m["vertices"], float) @ np.asarray(M, float).T + np.asarray(t, float)
    tri = np.array(m["triangles"], int)
    if np.linalg.det(M) < 0:
        # swap two vertices and the mid-side nodes opposite to them (triangle order: mid k is opposite vertex k)
        tri = tri[:, [0, 2, 1, 3, 5, 4]]
    out["vertices"], out["triangles"] = v, tri
    dst_geom.mesh = out
    return dst_geom


def mapped_moments(g):
    return g
