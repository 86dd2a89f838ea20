"""Check runner: python -m vf.run PROP [--tier quick|thorough] [--case NAME] [-v]"""

from __future__ import annotations

import argparse
import contextlib
import importlib
import io
import json
import math
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
Z3PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def load_harness(prop):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    importlib.import_module("harness." + prop.lower())


def serial_pools():
    """Terms cannot be built by several threads: by default, tasks run when submitted (see harness/sched.py for all completion orders)."""
    import concurrent.futures as cf

    class Serial(cf.Executor):
        def __init__(self, max_workers=None, *a, **k):
            self._max_workers = max_workers

        def submit(self, fn, /, *a, **k):
            f = cf.Future()
            try:
                f.set_result(fn(*a, **k))
            except Exception as e:  # as a pool does
                f.set_exception(e)
            return f

    cf.ThreadPoolExecutor = Serial


def setup_symbolic():
    if Z3PATH not in sys.path:
        sys.path.append(Z3PATH)
    from . import lib

    lib.install()
    serial_pools()
    with contextlib.redirect_stdout(io.StringIO()):
        import corrct  # noqa: F401
        import corrct.alignment  # noqa: F401
        import corrct.denoisers  # noqa: F401
        import corrct.param_tuning  # noqa: F401
        import corrct.physics  # noqa: F401
        import corrct.physics.phase  # noqa: F401
        import corrct.physics.materials  # noqa: F401
        import corrct.physics.xrf  # noqa: F401
        import corrct.processing  # noqa: F401
        import corrct.processing.post  # noqa: F401
        import corrct.struct_illum  # noqa: F401
        import corrct.alignment.cone_beam  # noqa: F401
        import corrct.alignment.centering  # noqa: F401
        import corrct.alignment.shifts  # noqa: F401
        import corrct.alignment.markers  # noqa: F401
        import corrct.alignment.fitting  # noqa: F401
    lib.after_import()


# --------------------------------------------------------------------------
class FuncTrace:
    """Names of the functions of the package that were executed symbolically."""

    def __init__(self):
        self.names = set()
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        self.tid = 3
        mon.use_tool_id(self.tid, "vf")

        def cb(code, off):
            f = code.co_filename
            if "/corrct/" in f:
                self.names.add(f.split("/corrct/")[-1] + ":" + code.co_qualname)
            return mon.DISABLE

        mon.register_callback(self.tid, mon.events.PY_START, cb)
        mon.set_events(self.tid, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.tid, 0)
        mon.free_tool_id(self.tid)


def run_case(c, tier, seed, deadline):
    """Symbolic run of one case. Returns a plain dict."""
    import z3

    from . import core as C
    from . import ctx as X
    from . import lib

    SymCtx = X.make_sym_ctx()
    o = c.opts
    z3.set_param("smt.random_seed", seed % 1000)
    E = C.Engine(
        query_timeout_ms=o.get("qt", 20) * 1000 * (3 if tier == "thorough" else 1),
        branch_timeout_ms=o.get("bt", 2) * 1000,
        max_paths=o.get("paths", 300),
        deadline=deadline,
    )
    E.scaling = bool(o.get("scaling"))
    res = dict(case=c.name, status="held", violations=[], undecided=[], validate=[], paths=0, checks=[], t=0.0)
    t0 = time.monotonic()
    C.set_engine(E)
    with FuncTrace() as ft:
        try:
            while True:
                E.reset_path()
                k = SymCtx(E, tier, seed)
                k.f32 = o.get("f32", False) or bool(os.environ.get("VF_F32"))
                stop = False
                try:
                    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        c.fn(k, **c.kw)
                    E.stats.paths += 1
                    # reachability twin: the path end must be satisfiable
                    if len(res["validate"]) < o.get("nval", 2):
                        v = validation_point(E, k, seed, o)
                        if v is not None:
                            E.stats.covered += 1
                            res["validate"].append(v)
                except C.PathAbort:
                    pass
                except X.ViolationFound as v:
                    res["violations"].append(dict(check=v.check, inputs=v.inputs, detail=v.detail))
                    E.stats.paths += 1
                    stop = len(res["violations"]) >= o.get("maxviol", 3)
                except (C.Unsupported, C.Inconclusive) as e:
                    res["undecided"].append(f"{type(e).__name__}: {e}" + (_where() if isinstance(e, C.Unsupported) else ""))
                    stop = isinstance(e, C.Unsupported) or len(res["undecided"]) > 3 or "budget" in str(e)
                except RecursionError as e:
                    res["undecided"].append(f"RecursionError {e}")
                    stop = True
                except Exception as e:  # noqa: BLE001
                    tb = traceback.format_exc()
                    if X.internal_missing(e):
                        res["undecided"].append(f"internal name not found: {e}")
                        break
                    # the code under test raised on this path: get an input for it
                    try:
                        r, m = E.solve([])
                    except C.Inconclusive:
                        r, m = z3.unknown, None
                    if r == z3.sat:
                        res["violations"].append(
                            dict(check="exception", inputs=k.model_inputs(m), detail=f"{type(e).__name__}: {e}", tb=tb[-1800:])
                        )
                    elif r == z3.unknown:
                        res["undecided"].append(f"{type(e).__name__}: {e} (path feasibility unknown) {tb[-600:]}")
                    stop = len(res["violations"]) >= 3 or len(res["undecided"]) > 3
                for n, s in k.log_checks:
                    if len(res["checks"]) < 400:
                        res["checks"].append((n, s))
                if stop:
                    break
                if E.stats.paths >= E.max_paths:
                    if E.next_path():
                        res["undecided"].append(f"path bound {E.max_paths} reached")
                    break
                if not E.next_path():
                    break
        finally:
            C.set_engine(None)
    res["funcs"] = sorted(ft.names)
    res["lin"] = sorted(lib.LIN_CALLS)
    res["stats"] = E.stats.dict()
    res["t"] = time.monotonic() - t0
    if res["violations"]:
        res["status"] = "candidate"
    elif res["undecided"]:
        res["status"] = "undecided"
    elif E.stats.obligations == 0 or E.stats.covered == 0:
        res["status"] = "undecided"
        res["undecided"].append("vacuous: no reachable obligation" if E.stats.obligations == 0 else "no reachability witness")
    return res


def _where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    fr = [f for f in tb if "/corrct/" in f.filename or "/harness/" in f.filename]
    return f" at {os.path.basename(fr[-1].filename)}:{fr[-1].lineno}" if fr else ""


def validation_point(E, k, seed, opts):
    """Concrete inputs that follow the current path + the values the encoding predicts."""
    import random

    import z3

    from . import core as C
    from . import ctx as X

    rnd = random.Random(seed * 7919 + E.stats.paths)
    m = None
    for attempt in range(2):
        fix = []
        for n, (t, (kind, lo, hi)) in E.inputs.items():
            if kind == "real":
                l = -2.0 if lo is None else float(lo)
                h = l + 4.0 if hi is None else float(hi)
                if lo is None and hi is not None:
                    l = h - 4.0
                s = 64
                v = round((l + (h - l) * rnd.uniform(0.05, 0.95)) * s) / s
                fix.append(t == z3.RealVal(str(v)))
            elif kind == "int":
                fix.append(t == rnd.randint(int(lo), int(hi)))
        r = E.solve(fix, timeout_ms=4000)
        if r[0] == z3.sat:
            m = r[1]
            break
        if E.decisions or E.pos:
            break
    if m is None:
        r, m = E.solve([], timeout_ms=15000)
        if r != z3.sat:
            return None
    obs = []
    sub = C.transcendental_values(E, m)
    for n, terms in k.obs[: opts.get("maxobs", 60)]:
        vals = []
        for t in terms[:64]:
            v = m.eval(z3.substitute(t, *sub) if sub else t, model_completion=True)
            vals.append(float(X._zval(v)))
        obs.append((n, vals))
    return dict(inputs=k.model_inputs(m), obs=obs)


# --------------------------------------------------------------------------
def worker(c, tier, seed, budget, wfd):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        res = run_case(c, tier, seed, time.monotonic() + budget)
    except BaseException as e:  # noqa: BLE001
        res = dict(case=c.name, status="undecided", violations=[], undecided=[f"worker: {type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]],
                   validate=[], checks=[], t=0.0, funcs=[], lin=[], stats={})
    data = pickle.dumps(res)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def pool(cases, tier, seed, budget, nproc, verbose=False):
    todo = list(cases)
    running = {}
    results = {}
    while todo or running:
        while todo and len(running) < nproc:
            c = todo.pop(0)
            b = c.opts.get("budget", 60) * (4 if tier == "thorough" else 1)
            b = min(b, budget)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                worker(c, tier, seed, b, w)
            os.close(w)
            running[r] = [c, pid, time.monotonic() + b + 20, []]
        rl, _, _ = select.select(list(running), [], [], 0.5)
        for fd in rl:
            ch = os.read(fd, 1 << 20)
            ent = running[fd]
            if ch:
                ent[3].append(ch)
                continue
            os.close(fd)
            del running[fd]
            os.waitpid(ent[1], 0)
            try:
                results[ent[0].name] = pickle.loads(b"".join(ent[3]))
            except Exception as e:  # noqa: BLE001
                results[ent[0].name] = _dead(ent[0], f"worker died ({e})")
            if verbose:
                rr = results[ent[0].name]
                print(f"  {rr['status']:10s} {rr['t']:6.1f}s {rr['case']} {rr['stats'].get('paths', 0)}p {rr['stats'].get('queries', 0)}q {rr['undecided'][:2]} "
                      f"{[(v['check'], v['detail']) for v in rr['violations']][:2]}", flush=True)
        now = time.monotonic()
        for fd, ent in list(running.items()):
            if now > ent[2]:
                os.kill(ent[1], signal.SIGKILL)
                os.waitpid(ent[1], 0)
                os.close(fd)
                del running[fd]
                results[ent[0].name] = _dead(ent[0], "killed at its time limit")
                if verbose:
                    print("  TIMEOUT", ent[0].name, flush=True)
    return [results[c.name] for c in cases]


def _dead(c, why):
    return dict(case=c.name, status="undecided", violations=[], undecided=[why], validate=[], checks=[], t=0.0, funcs=[], lin=[], stats={})


def replay_jobs(jobs, tag):
    """Run jobs on the unpatched code in a clean process; list of results or None."""
    if not jobs:
        return []
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    inp = os.path.join(d, f".{tag}-{os.getpid()}.in.json")
    out = os.path.join(d, f".{tag}-{os.getpid()}.out.json")
    json.dump({"jobs": jobs}, open(inp, "w"))
    env = dict(os.environ)
    env["PYTHONPATH"] = HERE
    try:
        p = subprocess.run([PY, "-m", "vf.replay", inp, out], cwd=HERE, env=env, timeout=400, capture_output=True, text=True)
        if not os.path.exists(out):
            print("replay process failed:", p.stderr[-800:])
            return None
        return json.load(open(out))
    except subprocess.TimeoutExpired:
        return None
    finally:
        for f in (inp, out):
            if os.path.exists(f):
                os.unlink(f)


def load_known():
    kf = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("KNOWN-FINDING:"):
                continue
            parts = line.split(None, 4)
            d = dict(x.split("=", 1) for x in parts[1:4])
            kf[(d["property"], d["case"], d["check"])] = parts[4] if len(parts) > 4 else ""
    return kf


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--debug", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    sys.setrecursionlimit(20000)
    setup_symbolic()
    from . import ctx as X

    load_harness(a.prop)
    prop = a.prop.upper()
    cases = [c for (p, n), c in X.CASES.items() if p == prop and (tier == "thorough" or c.quick) and (a.case is None or a.case in n)]
    if not cases:
        print("no cases")
        return 2
    if a.debug:
        c = cases[0]
        r = run_case(c, tier, seed, time.monotonic() + 600)
        for v in r["violations"]:
            print(v["check"], v["detail"], v.get("tb", ""), v["inputs"])
        print(r["status"], r["undecided"], r["stats"], r["checks"])
        return 0
    cases.sort(key=lambda c: -c.opts.get("budget", 60))
    total = 700 if tier == "quick" else 820
    results = pool(cases, tier, seed, total, a.jobs, a.v)
    # ---- replay candidates and validation points on the real code
    jobs, meta = [], []
    for r in results:
        for v in r["violations"]:
            jobs.append(dict(prop=prop, case=r["case"], inputs=v["inputs"], tier=tier))
            meta.append((r, "viol", v))
        for v in r["validate"]:
            jobs.append(dict(prop=prop, case=r["case"], inputs=v["inputs"], tier=tier))
            meta.append((r, "val", v))
    rep = replay_jobs(jobs, prop)
    known = load_known()
    n_viol = 0
    seen_known = []
    n_valid = 0
    errors = []
    lines = []
    if rep is None:
        errors.append("replay process failed")
    else:
        for j, (r, kind, v), q in zip(jobs, meta, rep):
            failing = q["assume"] and (q["failures"] or q["exc"])
            if kind == "viol":
                v["replayed"] = bool(failing)
                if not failing:
                    r.setdefault("spurious", []).append(f"{v['check']}: counterexample did not reproduce ({v['detail']})")
                    continue
            else:
                if not failing:
                    bad = compare_obs(v["obs"], q["obs"]) if q["assume"] else None
                    if bad:
                        r.setdefault("mismatch", []).append(bad)
                    elif q["assume"]:
                        n_valid += 1
                    continue
            # a failing input on the real code
            checks = [f[0] for f in q["failures"]] or ["exception"]
            new = [ck for ck in dict.fromkeys(checks) if (prop, r["case"], ck.split("#")[0]) not in known]
            for ck in dict.fromkeys(checks):
                kk = (prop, r["case"], ck.split("#")[0])
                if kk in known and kk not in seen_known:
                    seen_known.append(kk)
            r["status"] = "known" if not new and r["status"] != "violated" else "violated"
            if new:
                key = (r["case"], new[0])
                if key in [l[0] for l in lines]:
                    continue
                n_viol += 1
                d = os.path.join(HERE, "replays")
                fn = os.path.join(d, f"{prop}-{_safe(r['case'])}-{_safe(new[0])}.json")
                det = next((f[1] for f in q["failures"] if f[0] == new[0]), q["exc"])
                json.dump({"jobs": [j], "check": new[0], "detail": det, "how": f"cd {HERE} && {PY} -m vf.replay {fn}"}, open(fn, "w"), indent=1)
                lines.append((key, f"VIOLATION property={prop} replay={fn}", f"  {r['case']} / {new[0]}: {det}"))
    for r in results:
        if r.get("mismatch") and r["status"] == "held":
            r["status"] = "undecided"
            r["undecided"].append("encoding/real mismatch: " + r["mismatch"][0])
        if r.get("spurious") and r["status"] == "candidate":
            r["status"] = "spurious"
            r["undecided"] += r["spurious"]
    for kk in seen_known:
        print(f"KNOWN-FINDING: property={kk[0]} case={kk[1]} check={kk[2]} {known[kk]}")
    for _, l, d in lines:
        print(l)
        print(d)
    cnt = {}
    for r in results:
        cnt[r["status"]] = cnt.get(r["status"], 0) + 1
        if r["status"] in ("undecided", "spurious"):
            print(f"UNDECIDED {prop} {r['case']}: {'; '.join(r['undecided'])[:600]}")
    wall = time.monotonic() - t0
    write_evidence(prop, tier, seed, results, cases, n_valid, n_viol, wall, cnt)
    print(f"{prop} {tier}: {cnt} in {wall:.1f}s")
    if n_viol:
        return 1
    if errors:
        print("ERROR:", errors)
        return 2
    decided = cnt.get("held", 0) + cnt.get("known", 0)
    if decided == 0:
        print("ERROR: no case was decided")
        return 2
    return 0


def _safe(s):
    return "".join(ch if ch.isalnum() or ch in "-_." else "_" for ch in s)[:80]


def compare_obs(pred, got):
    g = {}
    for n, v in got:
        g.setdefault(n, []).append(v)
    for n, v in pred:
        if n not in g or not g[n]:
            return f"{n}: not observed"
        w = g[n].pop(0)
        w = [y for x in w for y in (x if isinstance(x, list) else [x])][: len(v)]
        if len(w) != len(v):
            # complex parts are interleaved only on one side
            continue
        for i, (p, q) in enumerate(zip(v, w)):
            if q is None:
                continue
            if not (abs(p - q) <= 1e-3 + 1e-3 * abs(q)):
                return f"{n}[{i}]: encoding {p} real {q}"
    return None


def write_evidence(prop, tier, seed, results, cases, n_valid, n_viol, wall, cnt):
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in results for f in r["funcs"]})
    lin = sorted({f for r in results for f in r["lin"]})
    samples = []
    for r in results[:400]:
        for v in r["validate"][:1]:
            if len(samples) < 3:
                samples.append(dict(case=r["case"], inputs=dict(list(v["inputs"].items())[:12])))
    by = {c.name: c for c in cases}
    cov = dict(
        states=int(tot.get("paths", 0)),
        transitions=int(tot.get("branches", 0)),
        traces_validated_against_impl=int(n_valid),
        samples=samples,
        exhaustive=False,
        explanation="states = symbolic paths of the real code run to their end; transitions = two-way symbolic branches; "
        "traces_validated = path inputs re-run on the unpatched code with equal results",
        cases=len(results),
        case_status=cnt,
        obligations=int(tot.get("obligations", 0)),
        discharged=int(tot.get("discharged", 0)),
        solver=dict(queries=int(tot.get("queries", 0)), sat=int(tot.get("sat", 0)), unsat=int(tot.get("unsat", 0)), unknown=int(tot.get("unknown", 0)), time_s=round(tot.get("time", 0.0), 2)),
        reachability_witnesses=int(tot.get("covered", 0)),
        functions_encoded=funcs,
        third_party_linear_kernels=lin,
        bounds={r["case"]: (by[r["case"]].fn.__doc__ or "").strip() for r in results},
        undecided={r["case"]: r["undecided"] for r in results if r["status"] in ("undecided", "spurious")},
    )
    doc = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=cov,
        assumptions=[
            "floats are read as mathematical reals (rounding, overflow and float32 truncation are outside the claim; replays use real floats)",
            "third-party kernels listed are linear maps; their matrix is read from the installed library at each run",
            "sizes, iteration counts and value ranges are those of each harness (see bounds)",
        ],
        wall_s=round(wall, 2),
        violations=n_viol,
    )
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(doc, open(os.path.join(d, prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
