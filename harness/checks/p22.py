"""P22: bit-identical results under any history and any thread schedule; nothing but the addressed section changes."""
import concurrent.futures as cf
import contextlib
import hashlib
import io
import json
import os
import subprocess
import sys
import threading
import time

import matplotlib.pyplot as plt
import numpy as np

from harness import compare as C
from harness import gens as G
from harness.checks.p13 import direct_solvers, hooked
from harness.common import HarnessError
from sectionproperties.analysis import Section
from sectionproperties.post.fibre import to_fibre_section

KINDS = G.HOMOG + G.COMP
CASES = {"quick": {"history": 40, "threads": 24, "one-section": 10, "process": 8}}
CASES["thorough"] = {"history": 900, "threads": 500, "one-section": 250, "process": 80}
TIMEOUT = {"quick": 150, "thorough": 500}
FLOORS = {"bits": 5000, "untouched": 2000, "returned": 120, "thread-result": 2000, "switches": 300, "query": 200, "process": 100}
RULE = ("several sections alive at once; analyses, stress queries, plots, exports and re-meshing interleaved at random, in one thread or several (switch interval 1 us, "
        "injected delays around the solver), every result compared bit by bit with a run of the section on its own; deep digests of all other objects around every operation")
ASSUMPTIONS = ["MKL runs single-threaded in its reproducible mode (MKL_CBWR=COMPATIBLE, OMP_NUM_THREADS=1)", "plots and progress displays are used from one thread only"]


def put(h, x):
    if isinstance(x, np.ndarray):
        h.update(str((x.shape, x.dtype)).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            put(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(f"[{len(x)}".encode())
        for v in x:
            put(h, v)
    elif hasattr(x, "wkb"):
        h.update(x.wkb)
    elif isinstance(x, float):
        h.update(np.float64(x).tobytes())
    else:
        h.update(repr(x).encode())


def dig(*xs):
    h = hashlib.sha256()
    for x in xs:
        put(h, x)
    return h.hexdigest()[:16]


def geom_state(g):
    d = dict(geom=g.geom, points=list(g.points), facets=list(g.facets), holes=list(g.holes), cps=list(g.control_points), tol=g.tol,
             mesh=dict(g.mesh) if g.mesh else None)
    for k, q in enumerate(getattr(g, "geoms", [g])):
        d[f"mat{k}"] = (id(q.material), repr(q.material))
        d[f"geom{k}"] = (q.geom, list(q.control_points), list(q.points), list(q.facets), list(q.holes), q.tol)
    return dig(d)


def sec_state(s):
    return dig(s.section_props.asdict(), [(e.coords, list(e.node_ids), repr(e.material)) for e in s.elements], dict(s.mesh), s.num_nodes)


def stress_state(p):
    return dig(p.get_stress())


def everything(s, ld, pts):
    """all results of one analysed section, as named bit patterns"""
    d = s.section_props.asdict()
    for grp in C.results(s, plastic=s.section_props.sxx is not None).values():
        d.update({f"get {k}": v for k, v in grp.items()})
    p = s.calculate_stress(**ld)
    for i, row in enumerate(p.get_stress()):
        d.update({f"stress{i} {k}": v for k, v in row.items()})
    d["points"] = [None if r is None else list(map(float, r)) for r in s.get_stress_at_points(pts, **{"n": 0.0, **ld})]
    return {k: dig(v) for k, v in d.items()}


PIPES = ["GWP", "GPW", "GWFP", "GFWP", "FGWP", "GGWWP", "GWPG"]


def analyse(s, pipe, solver="direct"):
    for op in pipe:
        if op == "G":
            s.calculate_geometric_properties()
        elif op == "W":
            s.calculate_warping_properties(solver_type=solver)
        elif op == "P":
            s.calculate_plastic_properties(verbose=False)
        elif op == "F":
            s.calculate_frame_properties()
    return s


def order(pipe):
    """frame results overwrite some geometric ones by an equivalent route: only pipes that end in the same analyses are comparable bit by bit"""
    return "".join(sorted(set(pipe), key=lambda o: -pipe[::-1].index(o)))


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


class Item:
    def __init__(self, rng, tag):
        self.kind = str(rng.choice(KINDS))
        self.sec = G.zoo(rng, self.kind, scale=float(10 ** rng.uniform(-1, 2)), far=float(rng.choice([0, 1, 3])))
        self.name = f"{tag}:{self.sec.name}"
        self.sizes = [self.sec.area() / int(rng.integers(10, 70))]
        self.ld = G.rload(rng)
        self.geom = self.sec.geom
        self.geom.create_mesh(mesh_sizes=self.sizes)
        v, t = np.asarray(self.geom.mesh["vertices"]), np.asarray(self.geom.mesh["triangles"])
        k = rng.integers(0, len(t), 4)
        self.pts = [tuple(float(c) for c in v[t[i, :3]].T @ w) for i, w in zip(k, rng.dirichlet([1, 1, 1], 4))] + [tuple(map(float, v[t[k[0], 0]]))]
        self.pipe = str(rng.choice(PIPES))
        self.solver = "direct"
        self.mesh0 = self.geom.mesh
        self.live = None
        self.base = None

    def solo(self):
        return everything(analyse(Section(self.geom), self.pipe, self.solver), self.ld, self.pts)

    def match(self, ctx, got, key, why):
        for k, v in self.base.items():
            if not ctx.check(got.get(k) == v, f"{key}/{k.split()[-1]}", f"{self.name} ({self.pipe}): {k} differs in its bits {why}", cls="thread-result" if key == "threads" else "bits"):
                return False
        return True


def run(ctx, case):
    rng = ctx.rng
    {"history": history, "threads": threads, "one-section": one_section, "process": process}[case["kind"]](ctx, rng)


def watch(items):
    out = {}
    for it in items:
        out[it.name, "geometry"] = geom_state(it.geom)
        if it.live is not None:
            out[it.name, "section"] = sec_state(it.live)
    return out


def history(ctx, rng):
    items = [Item(rng, k) for k in range(3)]
    for it in items:
        it.base = it.solo()
    kept = []                      # (description, object, digest function, digest) of what was returned earlier
    ops = ["G", "W", "P", "F", "stress", "points", "plot", "plots", "report", "fibre", "new", "remesh", "check", "query"]
    trace = []
    for step in range(26):
        it = items[int(rng.integers(len(items)))]
        op = str(rng.choice(ops))
        s = it.live
        if s is None or op == "new":
            it.live = s = Section(it.geom)
            it.done = set()
            if rng.random() < .5:
                analyse(s, "GW")
                it.done |= {"G", "W"}
        trace.append(f"{items.index(it)}{op}")
        before = watch(items)
        own = set()
        if op == "G" or (op in "WP" and "G" not in it.done):
            s.calculate_geometric_properties()
            it.done.add("G")
            own = {"section"}
        elif op in ("W", "P", "F"):
            analyse(s, op)
            it.done.add(op)
            own = {"section"}
        elif op == "stress" and {"G", "W"} <= it.done:
            p = s.calculate_stress(**it.ld)
            kept.append((f"StressPost of {it.name}", p, stress_state, stress_state(p)))
            t = p.get_stress()
            kept.append((f"get_stress of {it.name}", t, dig, dig(t)))
        elif op == "points" and {"G", "W"} <= it.done:
            pts, ld = list(it.pts), {"n": 0.0, **it.ld}
            r = s.get_stress_at_points(pts, **ld)
            ctx.check(pts == it.pts, "untouched/arguments", f"{it.name}: the list of points was changed", cls="untouched")
            kept.append((f"points of {it.name}", r, lambda x: dig([list(map(float, q)) for q in x]), dig([list(map(float, q)) for q in r])))
        elif op == "plot":
            s.plot_mesh(render=False)
            it.geom.plot_geometry(render=False)
            if "G" in it.done:
                s.plot_centroids(render=False)
            if "W" in it.done:
                s.plot_warping_function(render=False)
            plt.close("all")
        elif op == "plots" and "G" in it.done:
            ld = it.ld if "W" in it.done else {"n": 2.0, "mxx": 1.0}
            p = s.calculate_stress(**ld)
            st = stress_state(p)
            p.plot_stress(stress=str(rng.choice(["vm", "zz", "11", "zxy", "n_zz"])), render=False)
            p.plot_stress_vector(stress=str(rng.choice(["zxy", "mzz_zxy", "v_zxy"])), render=False)
            p.plot_mohrs_circles(*it.pts[0], render=False)
            plt.close("all")
            ctx.check(stress_state(p) == st, "untouched/stress", f"{it.name}: plotting changed the stresses", cls="untouched")
        elif op == "report":
            quiet(s.display_results)
            quiet(s.display_mesh_info)
            d = s.section_props.asdict()
            kept.append((f"asdict of {it.name}", d, dig, dig(d)))
        elif op == "fibre":
            a = to_fibre_section(s, analysis_type=str(rng.choice(["2D", "3D", "3DOS"])))
        elif op == "remesh":
            sizes = [it.sec.area() / int(rng.integers(5, 60))]
            arg = list(sizes)
            it.geom.create_mesh(mesh_sizes=arg)
            ctx.check(arg == sizes, "untouched/arguments", f"{it.name}: the list of mesh sizes was changed", cls="untouched")
            t = analyse(Section(it.geom), "GW")
            t.calculate_stress(**it.ld)
            it.geom.mesh = it.mesh0
        elif op == "query" and "G" in it.done:
            from harness import props as R
            kept.append((f"getters of {it.name}", R.geo(s), dig, dig(R.geo(s))))
        elif op == "check":
            it.match(ctx, it.solo(), "bits", f"after {' '.join(trace)}")
        after = watch(items)
        for k, v in before.items():
            if k[0] == it.name and k[1] in own:
                continue
            ctx.check(after.get(k) == v, f"untouched/{k[1]}", f"{op} on {it.name} changed the {k[1]} of {k[0]} ({' '.join(trace[-8:])})", cls="untouched")
        ctx.check(True, "untouched/steps")
    for what, obj, f, d in kept:
        ctx.check(f(obj) == d, "returned/changed", f"{what} changed after it was returned ({' '.join(trace)})", cls="returned")
    for it in items:
        it.match(ctx, it.solo(), "bits", f"after {' '.join(trace)}")
        # the same mesh built again from the same geometry
        it.geom.create_mesh(mesh_sizes=it.sizes)
        it.match(ctx, it.solo(), "bits", f"on the same mesh generated again, after {' '.join(trace)}")
        # a section that was used all along, analysed again
        if it.live is not None:
            it.match(ctx, everything(analyse(it.live, it.pipe), it.ld, it.pts), "bits", f"on the section used all along: {' '.join(trace)}")
    ctx.signature("history", tuple(trace), [it.name for it in items])
    ctx.note(sections=[it.name for it in items], trace=" ".join(trace))


def delayed(rng_seed, log):
    """solver wrapper that yields at random moments before and after the real call"""
    lock = threading.Lock()
    r = np.random.default_rng(rng_seed)

    def wrap(fn):
        def f(*a, **k):
            with lock:
                d1, d2 = r.random() < .5, r.random() < .5
                log.append(threading.get_ident())
            if d1:
                time.sleep(2e-4)
            u = fn(*a, **k)
            if d2:
                time.sleep(2e-4)
            return u
        return f
    return wrap


def threads(ctx, rng):
    n = int(rng.integers(4, 9))
    items = [Item(rng, k) for k in range(n)]
    if rng.random() < .5:                       # two threads with their own section of the same geometry
        twin = items[0]
        items.append(twin)
    for it in items:
        if it.base is None:
            it.base = it.solo()
        it.own = rng.random() < .4 and items.count(it) == 1
    workers = int(rng.integers(2, 6))
    log, solves = [], []
    old = sys.getswitchinterval()
    jobs = [items[int(k)] for k in rng.permutation(len(items))] * 2

    def job(it, mesh):
        log.append((it.name, threading.get_ident(), "a"))
        if mesh and it.own:
            it.geom.create_mesh(mesh_sizes=it.sizes)
        s = Section(it.geom)
        for op in it.pipe:
            analyse(s, op)
            log.append((it.name, threading.get_ident(), op))
        r = everything(s, it.ld, it.pts)
        log.append((it.name, threading.get_ident(), "z"))
        return r
    sys.setswitchinterval(1e-6)
    try:
        with hooked(direct_solvers(), delayed(int(rng.integers(1 << 30)), solves)):
            with cf.ThreadPoolExecutor(workers) as ex:
                fs = [(it, ex.submit(job, it, k < len(items))) for k, it in enumerate(jobs)]
            for it, f in fs:
                try:
                    got = f.result()
                except Exception as e:  # noqa: BLE001
                    ctx.violate(f"threads/{type(e).__name__}", f"{it.name} ({it.pipe}) with {workers} threads: {type(e).__name__}: {e}")
                    continue
                it.match(ctx, got, "threads", f"when analysed by one of {workers} threads next to {[q.name for q in items]}")
    finally:
        sys.setswitchinterval(old)
    sw = sum(a[1] != b[1] for a, b in zip(log, log[1:])) + sum(a != b for a, b in zip(solves, solves[1:]))
    ctx.saw("switches", sw)
    for it in items[:1]:
        it.match(ctx, it.solo(), "bits", "in the main thread after the threads finished")
    ids = {}
    ctx.signature("threads", workers, [(ids.setdefault(t, len(ids)), o) for _, t, o in log])
    ctx.note(workers=workers, sections=[it.name for it in items], thread_switches=sw, solves=len(solves))


def one_section(ctx, rng):
    """many threads query one analysed section"""
    it = Item(rng, 0)
    s = analyse(Section(it.geom), "GWP")
    loads = [G.rload(rng) for _ in range(6)]
    base = [stress_state(s.calculate_stress(**ld)) for ld in loads]
    pts = [dig([list(map(float, r)) for r in s.get_stress_at_points(it.pts, **{"n": 0.0, **ld})]) for ld in loads]
    st = sec_state(s)
    log = []
    old = sys.getswitchinterval()

    def job(k):
        log.append(threading.get_ident())
        if k % 2:
            return k, stress_state(s.calculate_stress(**loads[k // 2 % 6]))
        r = s.get_stress_at_points(it.pts, **{"n": 0.0, **loads[k // 2 % 6]})
        return k, dig([list(map(float, q)) for q in r])
    sys.setswitchinterval(1e-6)
    try:
        with cf.ThreadPoolExecutor(int(rng.integers(3, 7))) as ex:
            for f in [ex.submit(job, k) for k in range(36)]:
                try:
                    k, got = f.result()
                except Exception as e:  # noqa: BLE001
                    ctx.violate(f"query/{type(e).__name__}", f"{it.name}: {type(e).__name__}: {e} from concurrent queries")
                    continue
                ctx.check(got == (base if k % 2 else pts)[k // 2 % 6], "query/bits", f"{it.name}: a concurrent query gave another result for {loads[k // 2 % 6]}", cls="query")
    finally:
        sys.setswitchinterval(old)
    ctx.check(sec_state(s) == st, "query/state", f"{it.name}: queries changed the section", cls="query")
    ctx.saw("switches", sum(a != b for a, b in zip(log, log[1:])))
    ctx.signature("one", it.name, base)


SCRIPT = """
import sys, json, warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
import matplotlib; matplotlib.use("agg")
from harness.checks import p22
rng = np.random.default_rng(json.loads(sys.argv[1]))
it = p22.Item(rng, 0)
print(json.dumps(it.solo()))
"""


def process(ctx, rng):
    """the same section in a new interpreter that has done nothing else"""
    seed = [int(x) for x in rng.integers(0, 1 << 30, 3)]
    for k in range(3):
        Item(rng, k).solo()
    it = Item(np.random.default_rng(seed), 0)
    it.base = it.solo()
    r = subprocess.run([sys.executable, "-c", SCRIPT, json.dumps(seed)], capture_output=True, text=True, timeout=140,
                       cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    try:
        got = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:  # noqa: BLE001
        if "sectionproperties" in r.stderr.split("Error")[0][-600:]:
            ctx.violate("process/raises", r.stderr[-800:])
            return
        raise HarnessError(f"fresh process failed: {r.stderr[-500:]}") from None
    for k, v in it.base.items():
        ctx.check(got.get(k) == v, "process/bits", f"{it.name}: {k} differs from that of a fresh process", cls="process")
    ctx.signature("process", seed)
    ctx.note(section=it.name)
