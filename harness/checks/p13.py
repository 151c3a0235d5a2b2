"""P13: the direct and iterative solvers, the frame route and the progress-reporting route against each other; injected solver failures."""
import contextlib
import io
import math
import sys

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sla

from harness import compare as C
from harness import fe as F
from harness import gens as G
from harness import props as R
from harness.common import Skip
from sectionproperties.analysis import Section

CONN = G.HOMOG + ["strips", "inset", "stackc", "conc", "filled", "samecut", "onemat"]
CASES = {"quick": {**{f"cgs:{k}": 5 for k in CONN}, **{f"frame:{k}": 6 for k in CONN + ["stack"]}, **{f"progress:{k}": 4 for k in CONN},
                   **{f"fault:{k}": 4 for k in ["rpoly", "holes", "strips", "inset", "lib"]}, "system": 60}}
CASES["thorough"] = {k: v * (8 if k.startswith("progress") else 25) for k, v in CASES["quick"].items()}
FLOORS = {"cgs": 800, "residual": 100, "frame": 1500, "progress": 2500, "fault": 120, "system": 150, "stress": 3000}
RULE = "random sections by two routes each; residuals recomputed on an independently assembled system; solver results corrupted or made non-convergent at the 1st/2nd/3rd solve; random singular and inconsistent systems"
ASSUMPTIONS = ["the iterative solver is documented to a relative tolerance of 1e-5; it may also refuse a solve with a RuntimeError"]


@contextlib.contextmanager
def hooked(targets, wrap):
    """replace library functions, wherever the package holds a reference to them, by wrap(original)"""
    saved = []
    try:
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name.startswith("sectionproperties") or name in ("pypardiso", "scipy.sparse.linalg")):
                continue
            for a, v in list(vars(mod).items()):
                for t in targets:
                    if v is t:
                        saved.append((mod, a, v))
                        setattr(mod, a, wrap(t))
        yield
    finally:
        for mod, a, v in saved:
            setattr(mod, a, v)


def direct_solvers():
    out = [sla.spsolve]
    try:
        import pypardiso
        out.append(pypardiso.spsolve)
    except ImportError:
        pass
    return out


def silent(fn, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fn(*a, **k)
    return r, out.getvalue()


def residual(ref, u, f):
    r = ref.Kg @ u - f
    c = ref.C
    r = r - c * (c @ r) / (c @ c)
    return float(np.linalg.norm(r) / max(np.linalg.norm(f), 1e-300))


def run(ctx, case):
    rng = ctx.rng
    if case["kind"] == "system":
        return systems(ctx, rng)
    op, kind = case["kind"].split(":")
    sec = G.zoo(rng, kind, scale=float(10 ** rng.uniform(-1, 2.3)), far=float(rng.choice([0, 1, 5])))
    nm = sec.name
    if rng.random() < .25:        # very few elements
        s0 = G.make_section(sec, int(rng.integers(1, 12)), angle=float(rng.choice([0, 10, 20])), coarse=bool(rng.random() < .7))
    else:
        s0 = G.make_section(sec, int(rng.integers(30, 160)))
    {"cgs": cgs, "frame": frame, "progress": progress, "fault": fault}[op](ctx, rng, sec, s0, nm)


def cgs(ctx, rng, sec, s0, nm):
    loads = [G.rload(rng)]
    s0.calculate_geometric_properties()
    s0.calculate_warping_properties()
    a = C.results(s0, plastic=False)
    ref = F.reference(sec)
    for u, f, n in ((s0.section_props.omega, ref.f_t, "omega"), (s0.section_props.psi_shear, ref.f_psi, "psi"), (s0.section_props.phi_shear, ref.f_phi, "phi")):
        if n == "omega" and np.abs(ref.omega).max() < 1e-6 * (ref.ixx + ref.iyy) / ref.ea:
            continue            # a section that does not warp: the load is rounding
        if np.linalg.norm(f) > 1e-9 * np.linalg.norm(np.abs(ref.Kg) @ np.abs(np.asarray(u))):
            ctx.check(residual(ref, np.asarray(u), f) < 1e-6, f"residual/direct-{n}", lambda: f"{nm}: residual {residual(ref, np.asarray(u), f)} of the direct solve", cls="residual")
    s = Section(sec.geom)
    s.calculate_geometric_properties()
    try:
        s.calculate_warping_properties(solver_type="cgs")
    except RuntimeError as e:
        ctx.saw("cgs-refused")
        ctx.check("CGS" in str(e) or "Lagrangian" in str(e) or "singular" in str(e), "cgs/refusal", f"{nm}: {e}", cls="cgs")
        ctx.signature(nm, a["geo"]["ea"], "refused")
        return
    for u, f, n in ((s.section_props.omega, ref.f_t, "omega"), (s.section_props.psi_shear, ref.f_psi, "psi"), (s.section_props.phi_shear, ref.f_phi, "phi")):
        r = residual(ref, np.asarray(u), f)
        if n == "omega" and np.abs(ref.omega).max() < 1e-6 * (ref.ixx + ref.iyy) / ref.ea:
            continue            # a section that does not warp: the load is rounding
        ctx.check(r < 1e-4, f"residual/cgs-{n}", f"{nm}: relative residual {r} of the iterative solution (documented tolerance 1e-5)", cls="residual")
    b = C.results(s, plastic=False)
    C.compare(ctx, "cgs", {"geo": a["geo"]}, {"geo": b["geo"]}, 1e-12, msg=nm)
    ip = ref.ixx + ref.iyy
    D = math.sqrt(ip / ref.ea)
    ctx.close(b["warp"]["j"], a["warp"]["j"], "cgs/j", 2e-3, scale=a["warp"]["j"] + 1e-3 * ip, cls="cgs", msg=nm)
    for n in ("x_se", "y_se", "x11_se", "y22_se", "x_st", "y_st"):
        ctx.close(b["warp"][n], a["warp"][n], f"cgs/{n}", 2e-3, scale=D, cls="cgs", msg=f"{nm}: {n}")
    for n in ("a_sx", "a_sy", "a_s11", "a_s22"):
        ctx.close(b["warp"][n], a["warp"][n], f"cgs/{n}", 2e-3, cls="cgs", msg=f"{nm}: {n}")
    ctx.close(b["warp"]["gamma"], a["warp"]["gamma"], "cgs/gamma", 5e-3, scale=abs(a["warp"]["gamma"]) + 1e-4 * ip * D * D, cls="cgs", msg=nm)
    for n in a["warp"]:
        if n.startswith("beta"):
            ctx.close(b["warp"][n], a["warp"][n], f"cgs/{n}", 4e-3, scale=D + abs(a["warp"][n]), cls="cgs", msg=f"{nm}: {n}")
    for ld in loads:
        ta, tb = C.stress_tables(s0.calculate_stress(**ld)), C.stress_tables(s.calculate_stress(**ld))
        big = max(np.abs(v[k]).max() for v in ta.values() for k in v)
        for m in ta:
            for k in ta[m]:
                ctx.close(tb[m][k], ta[m][k], f"stress/{k}", 3e-2, scale=big, cls="stress", msg=f"{nm}: {k}")
    ctx.signature(nm, a["geo"]["ea"], a["warp"]["j"])


def frame(ctx, rng, sec, s0, nm):
    solver = str(rng.choice(["direct", "direct", "cgs"]))
    s0.calculate_geometric_properties()
    fresh = Section(sec.geom)
    try:
        s0.calculate_warping_properties(solver_type=solver)
        got = fresh.calculate_frame_properties(solver_type=solver)
    except RuntimeError:
        if solver == "direct":
            raise
        raise Skip
    want = R.frame(s0)
    ip = want["ixx_c"] + want["iyy_c"]
    Imax = ip
    rt = 1e-9 if solver == "direct" else 1e-3
    C0 = np.abs(np.asarray(sec.geom.mesh["vertices"])).max()
    tol = 2e-9 + 1e-13 * (s0.get_area() * 0 + (R.geo(s0)["ea"] * C0 ** 2) / ip)
    q = dict(zip(("area", "ixx_c", "iyy_c", "ixy_c", "j", "phi"), got))
    ctx.close(q["area"], want["area"], "frame/area", 1e-12, cls="frame", msg=nm)
    for n in ("ixx_c", "iyy_c", "ixy_c"):
        ctx.close(q[n], want[n], f"frame/{n}", tol, scale=Imax, cls="frame", msg=nm)
    ctx.close(q["j"], want["j"], "frame/j", max(rt, tol), scale=want["j"] + 1e-3 * ip, cls="frame", msg=nm)
    g = R.geo(s0)
    sep = (g["i11_c"] - g["i22_c"]) / ip
    if sep > 1e-4:
        ctx.check(abs(math.sin(math.radians(q["phi"] - want["phi"]))) < 1e-8 / sep + 1e-9, "frame/phi", f"{nm}: {q['phi']} vs {want['phi']}", cls="frame")
    # the stored results of the frame route are the returned ones
    st = R.frame(fresh)
    for n in q:
        ctx.check(st[n] == q[n], f"frame/stored-{n}", f"{nm}: returned {q[n]}, getter says {st[n]}", cls="frame")
    comp = fresh.is_composite()
    ctx.close(fresh.get_c(), s0.get_c(), "frame/c", tol, scale=C0, cls="frame", msg=nm)
    ctx.close((fresh.get_eq if comp else fresh.get_q)(), (s0.get_eq if comp else s0.get_q)(), "frame/q", tol, scale=g["ea"] * C0, cls="frame", msg=nm)
    ctx.close((fresh.get_eig if comp else fresh.get_ig)(), (s0.get_eig if comp else s0.get_ig)(), "frame/ig", tol, scale=g["ea"] * C0 * C0, cls="frame", msg=nm)
    if comp:
        ctx.close(fresh.get_ea(), s0.get_ea(), "frame/ea", 1e-12, cls="frame", msg=nm)
    if solver == "direct":
        om = np.asarray(s0.section_props.omega)
        ctx.close(np.asarray(fresh.section_props.omega), om, "frame/omega", 1e-6, scale=max(np.abs(om).max(), 1e-6 * ip / g["ea"]), cls="frame", msg=nm)
    # running the frame route on an analysed section changes none of its results
    before = C.results(s0, plastic=False)
    try:
        s0.calculate_frame_properties(solver_type=solver)
    except RuntimeError:
        raise Skip
    C.compare(ctx, "frame/after", before, C.results(s0, plastic=False), max(tol, 1e-9) if solver == "direct" else 1e-3, cls="frame", msg=f"{nm}: after a frame analysis")
    ctx.signature(nm, q["area"], q["j"])


def progress(ctx, rng, sec, s0, nm):
    ld = G.rload(rng)
    solver = str(rng.choice(["direct", "direct", "cgs"]))
    res = []
    for t in (False, True):
        s = Section(sec.geom, time_info=t)
        fr = Section(sec.geom, time_info=t)

        def go():
            s.calculate_geometric_properties()
            s.calculate_warping_properties(solver_type=solver)
            s.calculate_plastic_properties(verbose=False)
            return s.calculate_stress(**ld), fr.calculate_frame_properties(solver_type=solver)
        try:
            (sp_, f), text = silent(go)
        except RuntimeError:
            if solver == "direct":
                raise
            raise Skip
        if not t:
            ctx.check(text == "", "progress/silent", f"{nm}: silent analysis printed {text[:200]!r}", cls="progress")
        else:
            ctx.check(len(text.strip()) > 0, "progress/printed", f"{nm}: nothing was reported with time_info", cls="progress")
        res.append((C.results(s), C.stress_tables(sp_), f, s))
    (a, ta, fa, sa), (b, tb, fb, sb) = res
    for g in a:
        for n in a[g]:
            sc = max(abs(a[g][n]), 1e-9 * C.scales(a["geo"], a["warp"], a["plas"]).get(n, 0))
            ctx.close(b[g][n], a[g][n], f"progress/{n}", 1e-9, scale=sc, cls="progress", msg=f"{nm}: {n} with time_info")
    ctx.close(fb, fa, "progress/frame", 1e-9, scale=np.maximum(np.abs(fa), 1e-9 * np.array([fa[0], fa[1], fa[1], fa[1], fa[1], 1])), cls="progress", msg=nm)
    ctx.check(set(ta) == set(tb), "progress/materials", nm, cls="progress")
    big = max(np.abs(v[k]).max() for v in ta.values() for k in v)
    for m in ta:
        for k in ta[m]:
            ctx.close(tb[m][k], ta[m][k], f"stress/progress-{k}", 1e-9, scale=big, cls="stress", msg=f"{nm}: {k} with time_info")
    _, text = silent(sa.calculate_plastic_properties, verbose=True)
    p2 = R.plas(sa)
    for n in p2:
        ctx.close(p2[n], a["plas"][n], f"progress/verbose-{n}", 0, cls="progress", msg=f"{nm}: {n} verbosely")
    ctx.signature(nm, a["geo"]["ea"], solver)


def fault(ctx, rng, sec, s0, nm):
    """every solve is checked: break the k-th one"""
    s0.calculate_geometric_properties()
    dirs, its = direct_solvers(), [sla.cgs]
    plans = []
    for route, n_solves in (("warping", 3), ("frame", 1)):
        for k in range(n_solves):
            for sign in (1.0, -1.0):
                plans.append((route, "direct", dirs, "multiplier", k, sign))
                plans.append((route, "cgs", its, "multiplier", k, sign))
            plans.append((route, "cgs", its, "info", k, float(rng.choice([1, 50, -1]))))
    for route, solver, targets, what, k, v in plans:
        count = [0]
        applied = [False]

        def wrap(orig):
            def f(*a, **kw):
                r = orig(*a, **kw)
                i = count[0]
                count[0] += 1
                if what == "info":
                    if i == k:
                        applied[0] = True
                        return (r[0], int(v))
                    return r
                u = np.array(r[0] if isinstance(r, tuple) else r, float)
                if i == k:
                    # the last unknown of the augmented system is the multiplier: make it a large one of either sign
                    u[-1] = v * .05 * max(np.abs(u).max(), 1.0)
                    applied[0] = True
                else:
                    u[-1] = 0.0
                return (u, 0) if isinstance(r, tuple) else u
            return f
        s = Section(sec.geom)
        s.calculate_geometric_properties()
        err = None
        with hooked(targets, wrap):
            try:
                s.calculate_warping_properties(solver_type=solver) if route == "warping" else s.calculate_frame_properties(solver_type=solver)
            except RuntimeError as e:
                err = e
        if not applied[0]:
            ctx.saw("fault-not-reached")
            continue
        ctx.check(err is not None, f"fault/{route}-{solver}-{what}", f"{nm}: solve {k + 1} of the {route} analysis ({solver}) had {what} {v}, and its result was returned", cls="fault")
    ctx.signature(nm, s0.get_area())


def systems(ctx, rng):
    """the solver functions on well- and ill-posed systems"""
    from sectionproperties.analysis import solver as S
    n = int(rng.integers(5, 30))
    # a weighted graph Laplacian: null space = constants, like the torsion stiffness matrix
    W = np.triu(rng.uniform(0, 1, (n, n)) * (rng.uniform(0, 1, (n, n)) < .5), 1)
    W[np.arange(n - 1), np.arange(1, n)] += .5
    W = W + W.T
    K = np.diag(W.sum(1)) - W
    c = rng.uniform(.5, 1.5, n)
    A = sp.csc_matrix(np.block([[K, c[:, None]], [c[None, :], np.zeros((1, 1))]]))
    f = rng.normal(size=n)
    f -= f.mean()
    bad = f + rng.choice([-1, 1]) * float(rng.uniform(.1, 2))
    exact = np.linalg.solve(A.toarray(), np.append(f, 0))
    sc = np.abs(exact).max()
    spd = sp.csc_matrix(K + np.eye(n))
    ilu = sla.LinearOperator((n + 1, n + 1), sla.spilu(A).solve)
    ilu2 = sla.LinearOperator((n, n), sla.spilu(spd).solve)
    junk = sla.LinearOperator((n + 1, n + 1), lambda x: np.asarray(x) * rng.normal(size=n + 1))
    junk2 = sla.LinearOperator((n, n), lambda x: np.zeros(n))
    if hasattr(S, "solve_direct_lagrange"):
        ctx.close(S.solve_direct_lagrange(A, f), exact[:-1], "system/direct-lagrange", 1e-8, scale=sc, cls="system")
        ctx.raises(RuntimeError, lambda: S.solve_direct_lagrange(A, bad), "system/direct-lagrange-inconsistent", f"n={n}: a load with resultant {bad.sum():.3g} cannot be balanced")
    if hasattr(S, "solve_cgs_lagrange"):
        def its():
            try:
                return S.solve_cgs_lagrange(A, f, ilu)
            except RuntimeError:
                return None
        u = its()
        if u is not None:
            r = np.linalg.norm(A @ np.append(u, exact[-1]) - np.append(f, 0)) / np.linalg.norm(f)
            ctx.check(r < 1e-3, "system/cgs-lagrange", f"n={n}: relative residual {r}", cls="system")
        ctx.raises(RuntimeError, lambda: S.solve_cgs_lagrange(A, bad, ilu), "system/cgs-lagrange-inconsistent", f"n={n}: resultant {bad.sum():.3g}")
        try:
            u = S.solve_cgs_lagrange(A, f, junk)
            r = np.linalg.norm(A @ np.append(u, exact[-1]) - np.append(f, 0)) / np.linalg.norm(f)
            ctx.check(r < 1e-2, "system/cgs-lagrange-unconverged", f"n={n}: unconverged solution returned (relative residual {r})", cls="system")
        except RuntimeError:
            ctx.saw("system")
    if hasattr(S, "solve_cgs"):
        try:
            u = S.solve_cgs(spd, f, ilu2)
            r = np.linalg.norm(spd @ u - f) / np.linalg.norm(f)
            ctx.check(r < 1e-4, "system/cgs", f"n={n}: relative residual {r}", cls="system")
        except RuntimeError:
            ctx.saw("system")
        try:
            u = S.solve_cgs(spd, f, junk2)
            r = np.linalg.norm(spd @ u - f) / np.linalg.norm(f)
            ctx.check(r < 1e-2, "system/cgs-unconverged", f"n={n}: unconverged solution returned (relative residual {r})", cls="system")
        except RuntimeError:
            ctx.saw("system")
    if hasattr(S, "solve_direct"):
        u = S.solve_direct(spd, f)
        ctx.close(spd @ u, f, "system/direct", 1e-9, scale=np.abs(f).max(), cls="system")
    ctx.signature(n, f[0], bad[0])
