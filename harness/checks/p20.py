"""P20: a model-based monitor of the analysis life cycle: which result is available after which calls, and with which value."""
import contextlib
import io
import itertools
import math

import numpy as np

import matplotlib.pyplot as plt

from harness import compare as C
from harness import gens as G
from harness import props as R
from harness.checks.p13 import direct_solvers, hooked
from sectionproperties.analysis import Section
from sectionproperties.pre import Material

KINDS = G.HOMOG + G.COMP + G.DISJ
ALPHABET = ["G", "W", "Wc", "F", "P", "S", "Sv"]
CASES = {"quick": {**{f"walk:{k}": 5 for k in KINDS}, **{f"short:{k}": 7 for k in ("rpoly", "strips")}, **{f"fault:{k}": 4 for k in ("rpoly", "inset", "lib")}}}
CASES["thorough"] = {**{f"walk:{k}": 110 for k in KINDS}, **{f"short:{k}": 49 for k in ("rpoly", "holes", "lib", "strips", "inset", "onemat", "disjoint", "disjoint_c")},
                     **{f"fault:{k}": 60 for k in ("rpoly", "inset", "lib", "strips", "holes")}}
TIMEOUT = {"quick": 150, "thorough": 400}
FLOORS = {"available": 8000, "refused": 8000, "kind": 12000, "stress": 120, "refused-call": 400, "reference-modulus": 1500, "fault": 100, "rerun": 100}
RULE = ("random walks over analyses (both solvers, both geometric routes, valid and refused), stress queries, plots, reports and re-meshing on one section, "
        "every getter queried after every step; every call sequence of length 3 over 7 analyses; solver failures injected at the 1st-3rd solve")
ASSUMPTIONS = ["a warping analysis that fails in a later solve may leave the results it had already solved available (they must be right)"]

# getter -> (kind, analyses that provide it, what the refusal names)
BOTH = {"get_area": "GF", "get_perimeter": "G", "get_c": "GF", "get_rc": "G", "get_phi": "GF", "get_rp": "G",
        "get_sc": "W", "get_sc_p": "W", "get_sc_t": "W", "get_beta": "W", "get_beta_p": "W", "get_pc": "P", "get_pc_p": "P", "get_sf": "P", "get_sf_p": "P"}
HOMO = {"get_q": "GF", "get_ig": "GF", "get_ic": "GF", "get_z": "G", "get_ip": "G", "get_zp": "G", "get_j": "WF", "get_gamma": "W", "get_as": "W",
        "get_as_p": "W", "get_s": "P", "get_sp": "P"}
COMPO = {"get_mass": "G", "get_ea": "GF", "get_eq": "GF", "get_eig": "GF", "get_eic": "GF", "get_ez": "G", "get_my": "G", "get_eip": "G", "get_ezp": "G",
         "get_my_p": "G", "get_nu_eff": "G", "get_e_eff": "G", "get_g_eff": "G", "get_ej": "WF", "get_egamma": "W", "get_eas": "W", "get_eas_p": "W",
         "get_mp": "P", "get_mp_p": "P"}
E_REF = {"get_ea", "get_eq", "get_eig", "get_eic", "get_ez", "get_eip", "get_ezp", "get_ej", "get_egamma", "get_eas", "get_eas_p"}
NEEDS = {"G": "geometric", "W": "warping", "P": "plastic"}


def flat(x):
    return np.atleast_1d(np.asarray(x, dtype=float)).ravel()


class Model:
    def __init__(self, comp, connected):
        self.comp, self.connected = comp, connected
        self.f = {k: False for k in "GWFP"}
        self.partial = False

    def offers(self, name):
        own = {**BOTH, **(COMPO if self.comp else HOMO)}
        if name not in own:
            return "kind"
        by = own[name]
        if any(self.f[k] for k in by):
            return "yes"
        if self.partial and ("W" in by or "F" in by):
            return "maybe"
        return NEEDS[by[0]]


def reference(sec, geom, wc):
    """every result by one plain G-W-P run of a fresh section; the frame route and the iterative solver separately"""
    s = Section(geom)
    s.calculate_geometric_properties()
    s.calculate_plastic_properties(verbose=False)
    s.calculate_warping_properties()
    vals = {n: flat(getattr(s, n)()) for n in {**BOTH, **(COMPO if s.is_composite() else HOMO)}}
    fr = Section(geom)
    fr.calculate_frame_properties()
    fvals = {n: flat(getattr(fr, n)()) for n, by in {**BOTH, **(COMPO if s.is_composite() else HOMO)}.items() if "F" in by}
    cg = None
    if wc:
        q = Section(geom)
        q.calculate_geometric_properties()
        try:
            q.calculate_warping_properties(solver_type="cgs")
            cg = {n: flat(getattr(q, n)()) for n, by in {**BOTH, **(COMPO if s.is_composite() else HOMO)}.items() if "W" in by}
        except RuntimeError:
            pass
    return s, vals, fvals, cg


class Machine:
    def __init__(self, ctx, rng, sec, nm):
        self.ctx, self.rng, self.sec, self.nm = ctx, rng, sec, nm
        self.trace = []
        s0 = G.make_section(sec, int(rng.integers(20, 70)))
        self.geom = sec.geom
        self.ref, self.vals, self.fvals, self.cg = reference(sec, sec.geom, wc=sec.connected)
        self.restart()

    def restart(self):
        self.s = Section(self.geom, time_info=bool(self.rng.random() < 0.15))
        self.m = Model(self.s.is_composite(), self.sec.connected)
        self.src = {}                  # which analysis wrote j / the centroidal results last
        self.trace.append("new")

    def msg(self, t=""):
        return f"{self.nm} [{' '.join(self.trace[-14:])}] {t}"

    # ---------------------------------------------------------------- queries
    def sweep(self):
        ctx, s, m = self.ctx, self.s, self.m
        for name in [*BOTH, *HOMO, *COMPO]:
            o = m.offers(name)
            try:
                got = getattr(s, name)()
            except RuntimeError as e:
                got, err = None, str(e)
            except Exception as e:  # noqa: BLE001
                ctx.violate(f"query/{name}-error", self.msg(f"{name} raised {type(e).__name__}: {e} instead of answering or refusing"))
                continue
            if o == "kind":
                want = "composite only" if name in COMPO else "geometric only"
                ctx.check(got is None and want in err, f"kind/{name}", lambda: self.msg(f"{name} on a {'composite' if m.comp else 'homogeneous'} section: {got if got is not None else err}"), cls="kind")
            elif o == "yes":
                if got is None:
                    ctx.check(False, f"available/{name}", self.msg(f"{name} is refused although the analysis was run: {err}"), cls="available")
                    continue
                self.value(name, got)
                if name in E_REF:
                    self.e_ref(name, got)
            elif o == "maybe":
                if got is not None:
                    self.value(name, got)
            else:
                ctx.check(got is None and o in err.lower(), f"refused/{name}", lambda: self.msg(f"{name} before its analysis: {got if got is not None else err}"), cls="refused")

    def value(self, name, got):
        ctx = self.ctx
        by = {**BOTH, **COMPO, **HOMO}[name]
        got = flat(got)
        want, tol = self.vals[name], 1e-9
        if "W" in by and not self.m.connected:
            ctx.check(got.shape == want.shape, f"available/{name}", self.msg(f"{name}: {got}"), cls="available")
            return
        if "W" in by and self.src.get("W") == "Wc" and not (name in ("get_j", "get_ej") and self.src.get("j") != "Wc"):
            if self.cg is None:
                return
            want = self.cg[name]
        sc = self.scale(name, want)
        if name == "get_phi":
            ctx.check(abs(math.sin(math.radians(float(got[0] - want[0])))) < 1e-7 or self.tied(), "available/get_phi", self.msg(f"{got} != {want}"), cls="available")
            return
        ctx.close(got, want, f"available/{name}", tol, scale=sc, cls="available", msg=self.msg(name))

    def tied(self):
        g = R.geo(self.ref)
        return (g["i11_c"] - g["i22_c"]) < 1e-4 * (g["i11_c"] + g["i22_c"])

    def scale(self, name, want):
        g = R.geo(self.ref)
        ip = g["ixx_c"] + g["iyy_c"]
        C0 = float(np.abs(np.asarray(self.geom.mesh["vertices"])).max())
        big = {"get_q": g["ea"] * C0, "get_ig": g["ea"] * C0 ** 2, "get_ic": ip, "get_c": C0, "get_j": ip, "get_sc": C0, "get_sc_t": C0}
        k = name.replace("get_e", "get_") if name in COMPO else name
        if k in big:
            return big[k] + (1e-7 * g["ea"] * C0 ** 2 if k in ("get_ic", "get_j") else 0)
        return max(float(np.abs(want).max()), 1e-300)

    def e_ref(self, name, got):
        rng = self.rng
        e = float(10 ** rng.uniform(0, 5))
        ref = e if rng.random() < 0.5 else Material("ref", e, 0.2, 1, 1, "k")
        self.ctx.close(flat(getattr(self.s, name)(e_ref=ref)), flat(got) / e, f"reference-modulus/{name}", 1e-13, cls="reference-modulus",
                       scale=np.abs(flat(got) / e) + 1e-300, msg=self.msg(f"{name}(e_ref={ref})"))

    # ---------------------------------------------------------------- calls
    def refuse(self, fn, exc, word, what):
        ctx = self.ctx
        ctx.saw("refused-call")
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fn()
        except exc as e:
            if word not in str(e).lower():
                ctx.violate(f"refused-call/{what}", self.msg(f"{what}: the refusal does not name {word!r}: {e}"))
            return
        except Exception as e:  # noqa: BLE001
            ctx.violate(f"refused-call/{what}", self.msg(f"{what}: {type(e).__name__}: {e} instead of {exc.__name__}"))
            return
        ctx.violate(f"refused-call/{what}", self.msg(f"{what} was not refused"))

    def run(self, fn):
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()

    def op(self, op):
        s, m, ctx, rng = self.s, self.m, self.ctx, self.rng
        self.trace.append(op)
        if op == "G":
            if m.f["G"]:
                ctx.saw("rerun")
            self.run(s.calculate_geometric_properties)
            m.f["G"] = True
        elif op in ("W", "Wc"):
            st = "direct" if op == "W" else "cgs"
            if not m.f["G"]:
                self.refuse(lambda: s.calculate_warping_properties(solver_type=st), RuntimeError, "geometric", "warping-before-geometric")
                return
            if op == "Wc" and not m.connected:
                before = self.snapshot()
                self.refuse(lambda: s.calculate_warping_properties(solver_type="cgs"), RuntimeError, "", "cgs-on-disjoint")
                m.partial = True
                return
            if op == "Wc" and self.cg is None:
                return
            if m.f["W"]:
                ctx.saw("rerun")
            self.run(lambda: s.calculate_warping_properties(solver_type=st))
            m.f["W"] = True
            self.src["W"] = self.src["j"] = op
        elif op == "F":
            got = self.run(s.calculate_frame_properties)
            m.f["F"] = True
            self.src["j"] = "F"
            if m.connected:
                want = np.concatenate([self.fvals["get_area"], self.fvals["get_eic" if m.comp else "get_ic"], self.fvals["get_ej" if m.comp else "get_j"]])
                nms = ["get_area"] + ["get_ic"] * 3 + ["get_j"]
                ctx.close(flat(got)[:5], want, "available/frame", 1e-9, scale=[self.scale(n, w) for n, w in zip(nms, want)], cls="available", msg=self.msg("frame"))
        elif op == "P":
            if not m.f["G"]:
                self.refuse(lambda: s.calculate_plastic_properties(verbose=False), RuntimeError, "geometric", "plastic-before-geometric")
                return
            if m.f["P"]:
                ctx.saw("rerun")
            self.run(lambda: s.calculate_plastic_properties(verbose=bool(rng.random() < 0.3)))
            m.f["P"] = True
        elif op in ("S", "Sv", "Q", "Qv"):
            self.stress(op)
        elif op == "bad-solver":
            before = self.snapshot()
            self.refuse(lambda: s.calculate_frame_properties(solver_type="direkt"), ValueError, "", "unknown-solver")
            if m.f["G"]:
                self.refuse(lambda: s.calculate_warping_properties(solver_type=""), ValueError, "", "unknown-solver")
            self.same(before, "unknown-solver")
            m.partial = True
        elif op == "report":
            self.run(lambda: s.display_results(fmt="8.4g"))
            self.run(s.display_mesh_info)
            s.section_props.asdict()
            if not m.comp:
                self.refuse(lambda: s.display_transformed_results(e_ref=2.0), RuntimeError, "composite", "transformed-on-homogeneous")
            elif m.f["G"]:
                self.run(lambda: s.display_transformed_results(e_ref=float(rng.uniform(1, 100))))
        elif op == "plot":
            self.plot()
        elif op == "remesh":
            # the geometry gets another mesh, and another section analysed from it; this one keeps its own
            old = self.geom.mesh
            self.geom.create_mesh(mesh_sizes=[self.sec.area() / int(rng.integers(3, 60))])
            t = Section(self.geom)
            t.calculate_geometric_properties()
            t.calculate_plastic_properties(verbose=False)
            if self.sec.connected:
                t.calculate_warping_properties()
                t.calculate_stress(n=1, vy=2, mzz=1)
            t.calculate_frame_properties()
            if rng.random() < 0.5:
                self.geom.mesh = old
        elif op == "new":
            self.trace.pop()
            if getattr(self, "mesh0", None) is None:
                self.mesh0 = self.s.mesh
            self.geom.mesh = self.mesh0
            self.restart()

    def snapshot(self):
        out = {}
        for name in [*BOTH, *HOMO, *COMPO]:
            try:
                out[name] = flat(getattr(self.s, name)())
            except RuntimeError:
                pass
        return out

    def same(self, before, what):
        after = self.snapshot()
        for n, v in before.items():
            if self.ctx.check(n in after, f"failed-call/{what}", self.msg(f"{n} is gone after a refused call"), cls="refused-call"):
                self.ctx.close(after[n], v, f"failed-call/{what}", 1e-9, scale=self.scale(n, v), cls="refused-call", msg=self.msg(f"{n} after a refused call"))

    def load(self, shear):
        rng = self.rng
        names = ["n", "mxx", "myy", "m11", "m22"]
        ld = {k: float(rng.normal()) for k in names if rng.random() < 0.5}
        if shear:
            which = [["vx"], ["vy"], ["mzz"], ["vx", "mzz"], ["vx", "vy"], ["vy", "mzz"], ["vx", "vy", "mzz"]][int(rng.integers(7))]
            big = float(rng.choice([1.0, 2.5e3])) if rng.random() < 0.4 else None      # equal and opposite actions
            ld.update({k: float(rng.choice([-1, 1])) * big if big else float(rng.normal()) for k in which})
        else:
            ld.update({k: 0.0 for k in ("vx", "vy", "mzz") if rng.random() < 0.3})
        return ld

    def stress(self, op):
        s, m, ctx, rng = self.s, self.m, self.ctx, self.rng
        shear = op.endswith("v")
        ld = self.load(shear)
        if op[0] == "S":
            fn = lambda t: C.stress_tables(t.calculate_stress(**ld))  # noqa: E731
        else:
            ld.setdefault("n", 1.0)
            v = np.asarray(s.mesh["vertices"])
            tri = np.asarray(s.mesh["triangles"])[rng.integers(0, len(s.mesh["triangles"]), 3)][:, :3]
            pts = [tuple(v[t].T @ np.array([.5, .3, .2])) for t in tri]
            fn = lambda t: {"p": {"x": np.array(t.get_stress_at_points(pts, **ld), float)}}  # noqa: E731
        if not m.f["G"]:
            what = f"{'stress' if op[0] == 'S' else 'points'}-before-geometric"
            if shear:
                what += "-shear"
            self.refuse(lambda: fn(s), RuntimeError, "analysis", what)
            return
        if shear and not m.f["W"]:
            if m.partial:
                try:
                    fn(s)
                except RuntimeError:
                    pass
                return
            self.refuse(lambda: fn(s), RuntimeError, "warping", f"{'stress' if op[0] == 'S' else 'points'}-before-warping")
            return
        got = self.run(lambda: fn(s))
        if shear and not m.connected:
            return
        if shear and self.src.get("W") == "Wc":
            ctx.saw("stress")
            return
        want = fn(self.ref)
        ctx.check(set(got) == set(want), "stress/materials", self.msg(f"{set(got)} != {set(want)}"), cls="stress")
        big = max(np.abs(v).max() for t in want.values() for v in t.values())
        for mat in want:
            for k in want[mat]:
                ctx.close(got[mat][k], want[mat][k], f"stress/{op}", 1e-8, scale=big, cls="stress", msg=self.msg(f"{ld} {k}"))

    def plot(self):
        s, m = self.s, self.m
        s.plot_mesh(render=False)
        self.geom.plot_geometry(render=False)
        if m.f["G"]:
            s.plot_centroids(render=False)
        if m.f["W"]:
            s.plot_warping_function(render=False)
        elif not (m.f["F"] or m.partial):
            self.refuse(lambda: s.plot_warping_function(render=False), RuntimeError, "warping", "plot-warping")
        if m.f["G"]:
            p = s.calculate_stress(n=1, mxx=2)
            p.plot_stress(stress="m_zz", render=False)
        plt.close("all")


def run(ctx, case):
    rng = ctx.rng
    op, kind = case["kind"].split(":")
    sec = G.zoo(rng, kind, scale=float(10 ** rng.uniform(-1, 2)), far=float(rng.choice([0, 1, 3])))
    M = Machine(ctx, rng, sec, sec.name)
    {"walk": walk, "short": short, "fault": fault}[op](ctx, rng, M, case)
    ctx.signature(kind, case["i"], tuple(M.trace))
    ctx.note(section=sec.name, trace=" ".join(M.trace)[:300])


def walk(ctx, rng, M, case):
    ops = ["G", "W", "Wc", "F", "P", "S", "Sv", "Q", "Qv", "bad-solver", "report", "plot", "remesh", "new"]
    w = np.array([4, 3, 1, 2, 2, 1.5, 1.5, .7, .7, .7, 1, .35, .5, 1.2])
    if rng.random() < 0.4:
        w[0] = .6                       # histories where the geometric analysis comes late or never
    M.sweep()
    for _ in range(22):
        M.op(str(rng.choice(ops, p=w / w.sum())))
        M.sweep()


def short(ctx, rng, M, case):
    n = 7 if case["kind"] in ("short:rpoly", "short:strips") and CASES["quick"].get(case["kind"]) and ctx.tier == "quick" else 49
    seqs = list(itertools.product(ALPHABET, repeat=3))
    for q in seqs[case["i"] % n::n]:
        M.restart()
        for o in q:
            M.op(o)
        M.sweep()
        ctx.saw("sequence")


def fault(ctx, rng, M, case):
    """a solve that fails in the middle of an analysis: what was available stays right, nothing wrong becomes available, a re-run works"""
    for what in ("W", "F"):
        for pre in ([], ["P"], ["W"], ["F"], ["W", "P"]):
            M.restart()
            if what == "W":
                M.op("G")
            for o in pre:
                M.op(o)
            before = M.snapshot()
            k = int(rng.integers(1, 4)) if what == "W" else 1
            count = [0]

            def wrap(fn):
                def f(*a, **kw):
                    count[0] += 1
                    if count[0] == k:
                        raise RuntimeError("injected: the factorisation failed")
                    return fn(*a, **kw)
                return f
            M.trace.append(f"{what}!{k}")
            hit = False
            with hooked(direct_solvers(), wrap):
                try:
                    M.run(M.s.calculate_warping_properties if what == "W" else M.s.calculate_frame_properties)
                except RuntimeError:
                    hit = True
            if not hit:
                ctx.saw("fault-not-reached")
                continue
            ctx.saw("fault")
            M.m.partial = True
            M.same(before, "solver-failure")
            M.sweep()
            for o in ("Sv", "S", what, "Sv"):
                if o == what:
                    M.m.partial = M.m.partial and what == "F"
                M.op(o)
                M.sweep()
