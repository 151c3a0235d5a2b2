"""Independent models the monitors compare the library with.  Nothing here imports the library's analysis code."""
from __future__ import annotations

import math

import numpy as np

# ----------------------------------------------------------------------------------------------------------
# exact integrals of polygons (Green's theorem)
# ----------------------------------------------------------------------------------------------------------


def ring_moments(pts):
    """(A, Qx, Qy, Ixx, Iyy, Ixy) of a closed ring, signed by its orientation, about the origin."""
    p = np.asarray(pts, dtype=np.longdouble)
    # integrate about a local origin and transfer, to keep far-away sections accurate
    o = p[0].copy()
    q = p - o
    x, y = q[:, 0], q[:, 1]
    x1, y1 = np.roll(x, -1), np.roll(y, -1)
    c = x * y1 - x1 * y
    a = c.sum() / 2
    qy = ((x + x1) * c).sum() / 6
    qx = ((y + y1) * c).sum() / 6
    iyy = ((x * x + x * x1 + x1 * x1) * c).sum() / 12
    ixx = ((y * y + y * y1 + y1 * y1) * c).sum() / 12
    ixy = ((x * y1 + 2 * x * y + 2 * x1 * y1 + x1 * y) * c).sum() / 24
    ox, oy = o
    return np.array([a, qx + oy * a, qy + ox * a, ixx + 2 * oy * qx + oy * oy * a, iyy + 2 * ox * qy + ox * ox * a,
                     ixy + ox * qx + oy * qy + ox * oy * a], dtype=np.longdouble)


def poly_moments(ext, holes=()):
    m = ring_moments(ext)
    if m[0] < 0:
        m = -m
    for h in holes:
        k = ring_moments(h)
        if k[0] < 0:
            k = -k
        m = m - k
    return m.astype(float)


def rings_of(poly):
    """Exterior and hole rings of a shapely polygon as open float arrays."""
    ext = np.asarray(poly.exterior.coords, dtype=float)[:-1, :2]
    return ext, [np.asarray(r.coords, dtype=float)[:-1, :2] for r in poly.interiors]


def polys_of(geom):
    """All shapely polygons of a library geometry's .geom attribute."""
    from shapely.geometry import Polygon
    g = geom
    if isinstance(g, Polygon):
        return [g]
    return [p for p in g.geoms if isinstance(p, Polygon)]


def shapely_moments(geom):
    return sum((poly_moments(*rings_of(p)) for p in polys_of(geom)), np.zeros(6))


def centroidal(m):
    """(A, cx, cy, Ixx_c, Iyy_c, Ixy_c)"""
    a, qx, qy, ixx, iyy, ixy = m
    cx, cy = qy / a, qx / a
    return a, cx, cy, ixx - a * cy * cy, iyy - a * cx * cx, ixy - a * cx * cy


def moments_scale(m_parts):
    """Magnitudes that bound the rounding error of summed integrals."""
    return np.sum(np.abs(np.atleast_2d(m_parts)), axis=0)


# ----------------------------------------------------------------------------------------------------------
# half-plane clipping and the plastic neutral axis
# ----------------------------------------------------------------------------------------------------------


def clip_ring(p, nrm, c):
    """Sutherland-Hodgman: the part of the ring with nrm.x >= c (signed moments stay exact for concave rings)."""
    d = p @ nrm - c
    n = len(p)
    out = []
    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        da, db = d[i], d[(i + 1) % n]
        if da >= 0:
            out.append(a)
        if (da > 0 and db < 0) or (da < 0 and db > 0):
            out.append(a + (b - a) * (da / (da - db)))
    return np.array(out) if len(out) >= 3 else None


def side_moments(regions, nrm, c):
    """Weighted (area, Qx, Qy) of {nrm.x >= c} over regions = [(weight, ext, holes), ...]"""
    tot = np.zeros(3)
    for w, ext, holes in regions:
        for k, r in enumerate([ext, *holes]):
            q = clip_ring(r, nrm, c)
            if q is None:
                continue
            m = ring_moments(q)[:3].astype(float)
            full = ring_moments(r)[0]
            s = 1.0 if full > 0 else -1.0
            tot += (w * s if k == 0 else -w * s) * m
    return tot


def plastic_axis(regions, theta):
    """Equal-force axis parallel to direction theta: returns offset c (along the normal (-sin, cos)), and the
    interval of admissible offsets, plus first moment of force about it (independent of the choice within it)."""
    nrm = np.array([-math.sin(theta), math.cos(theta)])
    zs = np.concatenate([np.concatenate([r @ nrm for r in [e, *h]]) for _, e, h in regions])
    lo, hi = zs.min(), zs.max()
    total = sum(w * poly_moments(e, h)[0] for w, e, h in regions)

    def f(c):
        return side_moments(regions, nrm, c)[0] - total / 2
    a, b = lo, hi
    for _ in range(200):
        m = 0.5 * (a + b)
        if f(m) > 0:
            a = m
        else:
            b = m
        if b - a <= 1e-15 * max(abs(lo), abs(hi), hi - lo):
            break
    c = 0.5 * (a + b)
    # admissible interval: offsets where the force imbalance is below rounding
    tol = 1e-9 * total

    def edge(sign):
        x, y = c, (hi if sign > 0 else lo)
        if abs(f(y)) <= tol:
            return y
        for _ in range(120):
            m = 0.5 * (x + y)
            if abs(f(m)) <= tol:
                x = m
            else:
                y = m
        return x
    return c, edge(-1), edge(+1), nrm


def plastic_moment(regions, nrm, c):
    """First moment of force about the line nrm.x = c: sum of both sides."""
    top = side_moments(regions, nrm, c)
    allm = np.zeros(3)
    for w, e, h in regions:
        allm += w * poly_moments(e, h)[:3]
    bot = allm - top

    def lever(m):  # force * normal distance from the line
        f, qx, qy = m
        return nrm[0] * qy + nrm[1] * qx - c * f
    return lever(top) - lever(bot), top, bot


# ----------------------------------------------------------------------------------------------------------
# quadratic triangles: reference FE
# ----------------------------------------------------------------------------------------------------------


def tri_rule(n=8):
    """Tensor Gauss-Jacobi (Duffy) rule on the reference triangle: barycentric points and weights (sum 1/2);
    exact to degree 2n-2 at least."""
    x, w = np.polynomial.legendre.leggauss(n)
    u, wu = 0.5 * (x + 1), 0.5 * w
    pts, ws = [], []
    for i in range(n):
        for j in range(n):
            a, b = u[i], u[j] * (1 - u[i])
            pts.append((1 - a - b, a, b))
            ws.append(wu[i] * wu[j] * (1 - u[i]))
    return np.array(pts), np.array(ws)


def rule4():
    p = np.array([[1 / 3, 1 / 3, 1 / 3], [0.6, 0.2, 0.2], [0.2, 0.6, 0.2], [0.2, 0.2, 0.6]])
    return p, np.array([-27 / 96, 25 / 96, 25 / 96, 25 / 96])


def p2_shapes(L):
    """Quadratic shape functions at barycentric points L (n,3): order v1,v2,v3,m12,m23,m31."""
    a, b, c = L[:, 0], L[:, 1], L[:, 2]
    return np.stack([a * (2 * a - 1), b * (2 * b - 1), c * (2 * c - 1), 4 * a * b, 4 * b * c, 4 * c * a], axis=1)


def p2_dshapes(L):
    """d/dL_k of the shapes: (n, 6, 3)"""
    a, b, c = L[:, 0], L[:, 1], L[:, 2]
    z = np.zeros_like(a)
    d = np.empty((len(a), 6, 3))
    d[:, 0] = np.stack([4 * a - 1, z, z], 1)
    d[:, 1] = np.stack([z, 4 * b - 1, z], 1)
    d[:, 2] = np.stack([z, z, 4 * c - 1], 1)
    d[:, 3] = np.stack([4 * b, 4 * a, z], 1)
    d[:, 4] = np.stack([z, 4 * c, 4 * b], 1)
    d[:, 5] = np.stack([4 * c, z, 4 * a], 1)
    return d


class RefMesh:
    """A straight-sided quadratic triangulation, node order normalised by geometry (not by the library)."""

    def __init__(self, nodes, tris):
        self.nodes = np.asarray(nodes, dtype=float)
        t = np.asarray(tris, dtype=int)
        P = self.nodes
        v = t[:, :3]
        mids = t[:, 3:]
        want = np.stack([(P[v[:, 0]] + P[v[:, 1]]) / 2, (P[v[:, 1]] + P[v[:, 2]]) / 2, (P[v[:, 2]] + P[v[:, 0]]) / 2], axis=1)
        have = P[mids]
        d = np.linalg.norm(want[:, :, None, :] - have[:, None, :, :], axis=3)
        pick = d.argmin(axis=2)
        self.tris = np.concatenate([v, np.take_along_axis(mids, pick, axis=1)], axis=1)
        self.mid_error = np.take_along_axis(d, pick[:, :, None], axis=2)[:, :, 0]
        self.mid_perm_ok = np.all(np.sort(pick, axis=1) == np.arange(3), axis=1)
        X = P[self.tris[:, :3]]
        e1, e2 = X[:, 1] - X[:, 0], X[:, 2] - X[:, 0]
        self.det = e1[:, 0] * e2[:, 1] - e1[:, 1] * e2[:, 0]
        self.area = self.det / 2
        # gradients of barycentric coordinates (ne, 3, 2)
        x, y = X[:, :, 0], X[:, :, 1]
        with np.errstate(all="ignore"):
            self.gradL = np.stack([
                np.stack([(y[:, 1] - y[:, 2]), (x[:, 2] - x[:, 1])], 1),
                np.stack([(y[:, 2] - y[:, 0]), (x[:, 0] - x[:, 2])], 1),
                np.stack([(y[:, 0] - y[:, 1]), (x[:, 1] - x[:, 0])], 1)], axis=1) / self.det[:, None, None]

    def quad(self, rule=None, origin=(0.0, 0.0)):
        L, w = rule or tri_rule(8)
        X = self.nodes[self.tris[:, :3]] - np.asarray(origin)
        xq = np.einsum("ql,eld->eqd", L, X)
        W = w[None, :] * self.det[:, None]
        N = p2_shapes(L)
        B = np.einsum("qnl,eld->eqnd", p2_dshapes(L), self.gradL)
        return xq, W, N, B


class RefFE:
    """Reference solution of the torsion / transverse shear problem of the theory documentation."""

    def __init__(self, nodes, tris, e_el, g_el, composite):
        import scipy.sparse as sp
        from scipy.sparse.linalg import splu
        self.m = RefMesh(nodes, tris)
        self.e = np.asarray(e_el, float) if composite else np.ones(len(self.m.tris))
        if not composite:
            self.e = np.ones(len(self.m.tris)) * 1.0
        m = self.m
        A = m.area
        self.area = A.sum()
        self.ea = (self.e * A).sum()
        self.ga = (np.asarray(g_el, float) * A).sum()
        o = m.nodes.mean(axis=0)
        xq, W, N, B = m.quad(origin=o)
        We = W * self.e[:, None]
        self.c = np.array([(We * xq[:, :, 0]).sum(), (We * xq[:, :, 1]).sum()]) / self.ea + o
        self.nu = self.ea / (2 * self.ga) - 1 if composite else 0.0
        xq, W, N, B = m.quad(origin=self.c)
        We = W * self.e[:, None]
        self.xq, self.We, self.N, self.B = xq, We, N, B
        x, y = xq[:, :, 0], xq[:, :, 1]
        self.ixx, self.iyy, self.ixy = (We * y * y).sum(), (We * x * x).sum(), (We * x * y).sum()
        nn = len(m.nodes)
        # stiffness
        K = np.einsum("eq,eqnd,eqmd->enm", We, B, B)
        rows = np.repeat(m.tris, 6, axis=1).ravel()
        cols = np.tile(m.tris, (1, 6)).ravel()
        Kg = sp.csc_matrix((K.ravel(), (rows, cols)), shape=(nn, nn))
        self.Kg = Kg
        C = self._asm(np.einsum("eq,qn->en", We, N))
        self.f_t = self._asm(np.einsum("eq,eqnd,eqd->en", We, B, np.stack([y, -x], axis=2)))
        nu, ixx, iyy, ixy = self.nu, self.ixx, self.iyy, self.ixy
        self.D, self.H = self._dh(x, y)
        fpsi = (np.einsum("eq,eqnd,eqd->en", We, B, self.D) * nu / 2
                + 2 * (1 + nu) * np.einsum("eq,qn,eq->en", We, N, ixx * x - ixy * y))
        fphi = (np.einsum("eq,eqnd,eqd->en", We, B, self.H) * nu / 2
                + 2 * (1 + nu) * np.einsum("eq,qn,eq->en", We, N, iyy * y - ixy * x))
        self.f_psi, self.f_phi = self._asm(fpsi), self._asm(fphi)
        s = Kg.diagonal().mean() / max(np.abs(C).max(), 1e-300)
        Cs = sp.csc_matrix((C * s).reshape(-1, 1))
        Kl = sp.bmat([[Kg, Cs], [Cs.T, None]], format="csc")
        try:
            lu = splu(Kl)
        except RuntimeError:         # disjoint sections: the torsion problem is singular (and its solution is not used)
            lu = None

        def solve(f):
            if lu is None:
                return np.full(nn, np.nan)
            b = np.append(f, 0.0)
            u = lu.solve(b)
            u += lu.solve(b - Kl @ u)
            return u[:-1]
        self.omega, self.psi, self.phi = solve(self.f_t), solve(self.f_psi), solve(self.f_phi)
        self.j = ixx + iyy - self.omega @ self.f_t
        self.delta_s = 2 * (1 + nu) * (ixx * iyy - ixy ** 2)
        self.C = C
        # integrals
        self.x_se, self.y_se, self.sc_scale = self._sc(tri_rule(8))
        self.ints_exact = self._ints(tri_rule(8))
        self.ints_4 = self._ints(rule4())

    def _dh(self, x, y):
        ixx, iyy, ixy = self.ixx, self.iyy, self.ixy
        r, q = x * x - y * y, 2 * x * y
        D = np.stack([ixx * r - ixy * q, ixy * r + ixx * q], axis=-1)
        H = np.stack([-ixy * r + iyy * q, -iyy * r - ixy * q], axis=-1)
        return D, H

    def _asm(self, fe):
        out = np.zeros(len(self.m.nodes))
        np.add.at(out, self.m.tris.ravel(), fe.ravel())
        return out

    def _sc(self, rule):
        xq, W, N, B = self.m.quad(rule, origin=self.c)
        We = W * self.e[:, None]
        x, y = xq[:, :, 0], xq[:, :, 1]
        sx = (We * (self.iyy * x + self.ixy * y) * (x * x + y * y)).sum()
        sy = (We * (self.ixx * y + self.ixy * x) * (x * x + y * y)).sum()
        xs = (self.nu / 2 * sx - self.f_t @ self.phi) / self.delta_s
        ys = (self.nu / 2 * sy + self.f_t @ self.psi) / self.delta_s
        scale = (self.nu / 2 * max(abs(sx), abs(sy)) + np.abs(self.f_t * self.phi).sum() + np.abs(self.f_t * self.psi).sum()) / self.delta_s
        return xs, ys, scale

    def _ints(self, rule):
        """Everything that needs quadrature of FE fields; evaluated with a given rule."""
        m = self.m
        xq, W, N, B = m.quad(rule, origin=self.c)
        We = W * self.e[:, None]
        x, y = xq[:, :, 0], xq[:, :, 1]
        om = np.einsum("qn,en->eq", N, self.omega[m.tris])
        qo, io = (We * om).sum(), (We * om * om).sum()
        ixo, iyo = (We * x * om).sum(), (We * y * om).sum()
        D, H = self._dh(x, y)
        bp = np.einsum("eqnd,en->eqd", B, self.psi[m.tris]) - self.nu / 2 * D
        bh = np.einsum("eqnd,en->eqd", B, self.phi[m.tris]) - self.nu / 2 * H
        kx, ky, kxy = (np.einsum("eq,eqd,eqd->", We, bp, bp), np.einsum("eq,eqd,eqd->", We, bh, bh), np.einsum("eq,eqd,eqd->", We, bp, bh))
        intx = (We * (x * x * y + y ** 3)).sum()
        inty = (We * (y * y * x + x ** 3)).sum()
        sabs = (We * (x * x + y * y) ** 1.5).sum()
        gamma = io - qo ** 2 / self.ea - self.y_se * ixo + self.x_se * iyo
        det = self.ixx * self.iyy - self.ixy ** 2
        xt = (self.ixy * ixo - self.iyy * iyo) / det
        yt = (self.ixx * ixo - self.ixy * iyo) / det
        return dict(q_omega=qo, i_omega=io, i_xomega=ixo, i_yomega=iyo, kx=kx, ky=ky, kxy=kxy, intx=intx, inty=inty,
                    gamma=gamma, x_t=xt, y_t=yt, sabs=sabs,
                    omega_scale=math.sqrt(max(io, 0.0)))

    # fields evaluated per element at its own six nodes
    NODE_L = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [.5, .5, 0], [0, .5, .5], [.5, 0, .5]])

    def shear_fields(self, L=None):
        """Per element, at barycentric points L: unit-torsion and unit-shear stress shapes (multiply by E_el):
        returns x, y, T (torsion, per M/J), SX, SY (per V/delta_s): each (ne, nL, 2)."""
        L = self.NODE_L if L is None else np.asarray(L, float)
        m = self.m
        X = m.nodes[m.tris[:, :3]] - self.c
        xq = np.einsum("ql,eld->eqd", L, X)
        B = np.einsum("qnl,eld->eqnd", p2_dshapes(L), m.gradL)
        x, y = xq[:, :, 0], xq[:, :, 1]
        T = np.einsum("eqnd,en->eqd", B, self.omega[m.tris]) - np.stack([y, -x], axis=2)
        D, H = self._dh(x, y)
        SX = np.einsum("eqnd,en->eqd", B, self.psi[m.tris]) - self.nu / 2 * D
        SY = np.einsum("eqnd,en->eqd", B, self.phi[m.tris]) - self.nu / 2 * H
        return x, y, T, SX, SY


# ----------------------------------------------------------------------------------------------------------
# small algebra
# ----------------------------------------------------------------------------------------------------------


def rot(theta_deg):
    t = math.radians(theta_deg)
    return np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])


def tensor_of(ixx, iyy, ixy):
    """S_ij = integral of r_i r_j"""
    return np.array([[iyy, ixy], [ixy, ixx]])


def principal(ixx, iyy, ixy):
    av, d = (ixx + iyy) / 2, math.hypot((ixx - iyy) / 2, ixy)
    return av + d, av - d


def von_mises(szz, sxz, syz):
    return np.sqrt(szz ** 2 + 3 * (sxz ** 2 + syz ** 2))


def beam_normal(x, y, ea, ixx, iyy, ixy, n=0.0, mxx=0.0, myy=0.0):
    """E-free normal stress (multiply by E at the point) at centroidal coordinates, Mxx positive = compression... sign:
    documented: sigma = N/A + (-Ixy Mxx x + Iyy Mxx y + Ixy.. )/det"""
    det = ixx * iyy - ixy ** 2
    return n / ea + (-ixy * mxx * x + iyy * mxx * y) / det + (-ixx * myy * x + ixy * myy * y) / det
