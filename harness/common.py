"""Monitor core: cases, observations, verdicts, worker pool, evidence, known findings."""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import math
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = "/repo/src/sectionproperties"
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class HarnessError(Exception):
    """The check itself could not do its work (never folded into a verdict)."""


class Skip(Exception):
    """The generated case turned out to be outside the property's domain."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.floating, float)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 40 else f"<array {x.shape}>"
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)[:200]


class Ctx:
    """The monitor of one case: every observation of the code under test goes through it."""

    def __init__(self, prop, tier, seed, case):
        self.prop, self.tier, self.seed, self.case = prop, tier, seed, case
        h = int(hashlib.sha256(f"{prop}|{case['kind']}".encode()).hexdigest()[:8], 16)
        self.rng = np.random.default_rng([seed, h, int(case["i"])])
        self.obs: dict[str, int] = {}
        self.violations: list[dict] = []
        self.nontrivial = False
        self.sig = None
        self.info: dict = {}
        self.maxerr: dict[str, float] = {}

    # -- observations -----------------------------------------------------------------------------
    def saw(self, cls, n=1):
        self.obs[cls] = self.obs.get(cls, 0) + int(n)

    def note(self, **kw):
        self.info.update(jsonable(kw))

    def signature(self, *parts):
        self.sig = hashlib.sha256(repr(jsonable(parts)).encode()).hexdigest()[:16]
        self.nontrivial = True

    def violate(self, key, msg):
        if sum(1 for v in self.violations if v["key"] == key) < 3:
            self.violations.append({"key": key, "msg": str(msg)[:1500], "case": self.case})

    def check(self, cond, key, msg="", cls=None, n=1):
        self.saw(cls or key.split("/")[0], n)
        if not bool(cond):
            self.violate(key, msg() if callable(msg) else msg)
            return False
        return True

    def close(self, got, want, key, rtol=1e-9, atol=0.0, scale=None, cls=None, msg=""):
        """Numerical agreement of scalars/arrays; scale (same shape or scalar) sets the relative reference."""
        try:
            g = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            self.saw(cls or key.split("/")[0])
            self.violate(key, f"{msg} not a number: got {got!r}")
            return False
        w = np.asarray(want, dtype=float)
        n = max(1, w.size)
        self.saw(cls or key.split("/")[0], n)
        if g.shape != w.shape:
            self.violate(key, f"{msg} shape {g.shape} != expected {w.shape}")
            return False
        ref = np.abs(w) if scale is None else np.maximum(np.abs(np.asarray(scale, dtype=float)), 0)
        lim = rtol * ref + atol
        with np.errstate(all="ignore"):
            err = np.abs(g - w)
            both_inf = np.isinf(g) & np.isinf(w) & (np.sign(g) == np.sign(w))
            ok = (err <= lim) | both_inf
        if w.size:
            with np.errstate(all="ignore"):
                r = np.where(both_inf, 0, err / np.where(lim > 0, lim, 1e-300))
            m = float(np.nanmax(r)) if np.any(~np.isnan(r)) else float("nan")
            kk = key
            if not (self.maxerr.get(kk, 0) >= m):
                self.maxerr[kk] = m
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))
            b = tuple(bad[0])
            gi, wi = np.atleast_1d(g)[b], np.atleast_1d(w)[b]
            li = np.atleast_1d(np.broadcast_to(lim, w.shape))[b]
            self.violate(key, f"{msg} got {gi!r}, expected {wi!r} (|diff| {abs(gi - wi):.3g} > {li:.3g})"
                              f" at {b if w.ndim else ''}, {len(bad)}/{w.size} entries off")
            return False
        return True

    def raises(self, exc, fn, key, msg="", match=None):
        """fn() must be refused with one of exc."""
        self.saw(key.split("/")[0])
        try:
            r = fn()
        except exc as e:
            if match and match.lower() not in str(e).lower():
                self.violate(key, f"{msg}: refusal does not mention {match!r}: {e}")
                return None
            return e
        except Exception as e:  # noqa: BLE001
            self.violate(key, f"{msg}: expected {exc}, got {type(e).__name__}: {e}")
            return None
        self.violate(key, f"{msg}: expected {exc}, but it returned {str(r)[:200]!r}")
        return None


def lib_frames(tb):
    return [f for f in traceback.extract_tb(tb) if f.filename.startswith(LIB)]


def run_case(mod, prop, tier, seed, case) -> dict:
    ctx = Ctx(prop, tier, seed, case)
    err = None
    t0 = time.time()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        try:
            mod.run(ctx, case)
        except Skip as e:
            ctx.saw("skipped")
            ctx.nontrivial = False
            ctx.info["skipped"] = str(e)
        except HarnessError as e:
            err = f"HarnessError: {e}"
        except Exception as e:  # noqa: BLE001
            fr = lib_frames(e.__traceback__)
            text = "".join(traceback.format_exception(e))[-1800:]
            if fr:
                ctx.violate(f"raises/{case['kind']}/{type(e).__name__}",
                            f"valid input made the library raise {type(e).__name__}: {e} in {fr[-1].name}\n{text}")
            else:
                err = text
    return dict(case=case, obs=ctx.obs, violations=ctx.violations, nontrivial=ctx.nontrivial, sig=ctx.sig,
                info=ctx.info, err=err, maxerr=ctx.maxerr, dt=time.time() - t0)


def _child(mod, prop, tier, seed, case, wfd):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))     # a mesher gone wild dies alone
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        res = run_case(mod, prop, tier, seed, case)
    except BaseException as e:  # noqa: BLE001
        res = dict(case=case, obs={}, violations=[], nontrivial=False, sig=None, info={}, maxerr={}, dt=0,
                   err="child failed: " + "".join(traceback.format_exception(e))[-1500:])
    try:
        data = pickle.dumps(res)
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    finally:
        os._exit(0)


def run_pool(mod, prop, tier, seed, cases, jobs, timeout, on_result):
    """One forked process per case: isolation, crash detection and a time limit."""
    todo = list(reversed(cases))
    live = {}
    bad = 0
    while todo or live:
        if bad >= 16:
            todo.clear()                     # the library keeps dying or hanging: enough has been seen
        while todo and len(live) < jobs:
            case = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _child(mod, prop, tier, seed, case, w)
            os.close(w)
            live[r] = dict(pid=pid, case=case, t0=time.time(), buf=[])
        ready, _, _ = select.select(list(live), [], [], 0.5)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if data:
                live[fd]["buf"].append(data)
                continue
            st = live.pop(fd)
            os.close(fd)
            _, status = os.waitpid(st["pid"], 0)
            try:
                res = pickle.loads(b"".join(st["buf"]))
            except Exception:  # noqa: BLE001
                sigd = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
                res = dict(case=st["case"], obs={}, violations=[], nontrivial=False, sig=None, info={}, maxerr={},
                           dt=time.time() - st["t0"], err=None, crash=f"signal {sigd}" if sigd else f"status {status}")
                bad += 1
            on_result(res)
        now = time.time()
        for fd, st in list(live.items()):
            if now - st["t0"] > timeout:
                os.kill(st["pid"], signal.SIGKILL)
                os.waitpid(st["pid"], 0)
                os.close(fd)
                live.pop(fd)
                bad += 1
                on_result(dict(case=st["case"], obs={}, violations=[], nontrivial=False, sig=None, info={}, maxerr={},
                               dt=now - st["t0"], err=None, crash=f"timeout {timeout}s"))


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("status") == "finding" and d["property"] == prop:
                out.append(d)
    return out


def warm():
    """Import the library from the working tree and compile the numba kernels once, before forking."""
    import sectionproperties
    if not os.path.abspath(sectionproperties.__file__).startswith(LIB):
        raise HarnessError(f"library imported from {sectionproperties.__file__}")
    import matplotlib
    matplotlib.use("agg")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from sectionproperties.analysis import Section
        from sectionproperties.pre.library import rectangular_section
        g = rectangular_section(d=2, b=1)
        g.create_mesh([0.5])
        s = Section(g)
        s.calculate_geometric_properties()
        s.calculate_warping_properties()
        s.calculate_stress(n=1, vx=1, mzz=1)


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--kind")
    ap.add_argument("--jobs", type=int, default=JOBS)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    t0 = time.time()
    mod = importlib.import_module(f"harness.checks.{prop.lower()}")
    known = {k["key"]: k for k in load_known(prop)}

    if a.replay:
        rp = json.load(open(a.replay))
        seed, tier, cases = rp["seed"], rp["tier"], [rp["case"]]
    else:
        cases = []
        for kind, n in mod.CASES[tier].items():
            if a.kind and kind != a.kind:
                continue
            for i in range(n):
                cases.append(dict(kind=kind, i=i))
    setup_err = None

    def alarm(*_):
        raise TimeoutError("analysing a rectangle took more than 300 s")

    try:
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(300)
        warm()
        signal.alarm(0)
    except HarnessError:
        raise
    except Exception as e:  # noqa: BLE001  the tree cannot even analyse a rectangle
        setup_err = e
    if setup_err is not None:
        case = dict(kind="warm", i=0)
        fr = lib_frames(setup_err.__traceback__)
        text = "".join(traceback.format_exception(setup_err))[-1800:]
        results = [dict(case=case, obs={"warm": 1}, nontrivial=True, sig="warm", info={}, maxerr={}, dt=0, err=None if fr else text,
                        violations=[dict(key="raises/warm", msg=text, case=case)] if fr else [])]
        cases = [case]
    else:
        # long cases first would break reproducible reporting only, not verdicts: order is fixed by the plan
        results = []
        limit = getattr(mod, "TIMEOUT", {}).get(tier, 100 if tier == "quick" else 240)
        last = [time.time()]

        def on_result(r):
            results.append(r)
            if a.v or time.time() - last[0] > 60:
                last[0] = time.time()
                print(f"[{prop}] {len(results)}/{len(cases)} {time.time()-t0:.0f}s last={r['case']} {r['dt']:.1f}s", file=sys.stderr, flush=True)

        run_pool(mod, prop, tier, seed, cases, a.jobs, limit, on_result)
        # crashed / timed-out cases are tried once more, alone
        crashed = [r for r in results if r.get("crash")]
        results = [r for r in results if not r.get("crash")]
        if crashed:
            again = []
            run_pool(mod, prop, tier, seed, [r["case"] for r in crashed[:3]], 3, limit, again.append)
            for r in again:
                if r.get("crash"):
                    r["violations"] = [dict(key=f"crash/{r['case']['kind']}", case=r["case"],
                                            msg=f"the process running the library died or hung: {r['crash']}")]
                results.append(r)
    results.sort(key=lambda r: (r["case"]["kind"], r["case"]["i"]))

    obs: dict[str, int] = {}
    maxerr: dict[str, float] = {}
    sigs = set()
    errs, viols, seen_known = [], [], {}
    for r in results:
        for k, n in r["obs"].items():
            obs[k] = obs.get(k, 0) + n
        for k, m in r["maxerr"].items():
            if not (maxerr.get(k, 0) >= m):
                maxerr[k] = m
        if r["nontrivial"]:
            sigs.add(r["sig"] or json.dumps(r["case"]))
        if r["err"]:
            errs.append(r)
        for v in r["violations"]:
            if v["key"] in known:
                seen_known.setdefault(v["key"], v)
            else:
                viols.append(v)
    if not a.replay and not a.kind and setup_err is None:
        for k, n in getattr(mod, "FLOORS", {}).items():
            if obs.get(k, 0) < n and not viols:
                errs.append(dict(case=dict(kind="coverage-floor", i=0), err=f"only {obs.get(k, 0)} observations of {k!r}, planned at least {n}"))
        if not sigs and not viols:
            errs.append(dict(case=dict(kind="coverage-floor", i=0), err="no non-trivial case"))

    for k, v in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']} [{k}]")

    # replay files
    replay_paths = []
    if viols and not a.replay:
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        seen = set()
        for v in viols:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            name = f"{prop}_{tier}_{seed}_{len(replay_paths)}.json"
            path = os.path.join("evidence", "replay", name)
            with open(os.path.join(ROOT, path), "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, case=v["case"], key=v["key"], msg=v["msg"]), f, indent=1)
            replay_paths.append((v, path))
            if len(replay_paths) >= 12:
                break

    wall = time.time() - t0
    if not a.replay:
        samples = []
        bykind = {}
        for r in results:
            if r["nontrivial"] and bykind.get(r["case"]["kind"], 0) < 2:
                bykind[r["case"]["kind"]] = bykind.get(r["case"]["kind"], 0) + 1
                samples.append(dict(case=r["case"], observed=jsonable(r["info"]), observations=sum(r["obs"].values())))
        ev = dict(
            property=prop, tier=tier, seed=seed, level="exploration",
            coverage=dict(
                evaluations=len(results), distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples[:24],
                monitor_observations=sum(obs.values()), observations_by_class=dict(sorted(obs.items())),
                worst_error_over_tolerance={k: round(float(v), 6) if math.isfinite(v) else str(v) for k, v in sorted(maxerr.items())},
                skipped_cases=obs.get("skipped", 0), known_findings_seen=sorted(seen_known),
            ),
            assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(viols),
        )
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", f".{prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", f"{prop}.json"))

    if a.v or a.replay:
        for k in sorted(maxerr, key=lambda k: -maxerr[k])[:25]:
            print(f"   err/tol {maxerr[k]:.3g}  {k}")
        slow = sorted(results, key=lambda r: -r["dt"])[:5]
        print("   slowest:", [(r["case"]["kind"], r["case"]["i"], round(r["dt"], 1)) for r in slow])
        print("   obs:", obs)
    for r in errs[:6]:
        print(f"ERROR in check {prop} case {r['case']}: {r['err']}", file=sys.stderr)
    if a.replay:
        for v in viols:
            print(f"  {v['key']}: {v['msg']}")
        if viols:
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
    for v, path in replay_paths:
        print(f"  {v['key']} case={v['case']['kind']}:{v['case']['i']}: {v['msg'][:700]}")
        print(f"VIOLATION property={prop} replay={path}")
    print(f"[{prop}] tier={tier} seed={seed} cases={len(results)} distinct={len(sigs)} observations={sum(obs.values())} "
          f"violations={len(viols)} known={len(seen_known)} errors={len(errs)} wall={wall:.1f}s")
    if viols:
        return 1
    if errs:
        return 2
    return 0
