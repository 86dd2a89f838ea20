"""Development tool: mutate /repo/src/corrct (in copies under /tmp) and list the mutants that no quick case sees.

mutate.py cover OUT.json            line coverage of every quick case
mutate.py run COV.json OUT.json --files a.py,b.py --per K --seed S   mutate and run
mutate.py one COV.json ROOT cases.json   (internal) run the given cases on the corrct under ROOT
"""
import ast
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/corrct"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", TQDM_DISABLE="1")
PROPS = [f"P{i:02d}" for i in range(1, 60) if os.path.exists(f"{HERE}/harness/p{i:02d}.py")]


def setup():
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    from vf import run as R

    R.setup_symbolic()

    class LineTrace:
        def __enter__(self):
            self.names = set()
            mon = sys.monitoring
            mon.use_tool_id(3, "vf")

            def cb(code, line):
                if "/corrct/" in code.co_filename:
                    self.names.add(code.co_filename.split("/corrct/")[-1] + ":" + str(line))
                return mon.DISABLE

            mon.register_callback(3, mon.events.LINE, cb)
            mon.set_events(3, mon.events.LINE)
            return self

        def __exit__(self, *a):
            sys.monitoring.set_events(3, 0)
            sys.monitoring.free_tool_id(3)

    R.FuncTrace = LineTrace
    return R


def cover(out, jobs=8):
    R = setup()
    from vf import ctx as X

    for p in PROPS:
        R.load_harness(p)
    cases = [c for (p, n), c in X.CASES.items() if c.quick]
    byn = {}
    for (p, n), c in X.CASES.items():
        if c.quick:
            byn.setdefault(p, []).append(c)
    res = {}
    for p, cs in byn.items():
        cs.sort(key=lambda c: -c.opts.get("budget", 60))
        for r in R.pool(cs, "quick", 1, 700, jobs):
            res[p + "|" + r["case"]] = dict(lines=r["funcs"], t=r["t"], status=r["status"])
        print(p, len(cs), flush=True)
    json.dump(res, open(out, "w"))


# ------------------------------------------------------------------ mutants
SWAP = {"fmax": "fmin", "fmin": "fmax", "maximum": "minimum", "minimum": "maximum", "floor": "ceil", "ceil": "floor", "sin": "cos", "cos": "sin",
        "sum": "mean", "mean": "sum", "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like", "ones_like": "zeros_like", "argmax": "argmin", "argmin": "argmax",
        "max": "min", "min": "max", "logical_and": "logical_or", "logical_or": "logical_and", "fft": "ifft", "fftshift": "ifftshift", "ifftshift": "fftshift",
        "any": "all", "all": "any", "abs": "real", "exp": "sin", "sqrt": "abs", "rfft": "irfft"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
CMP2 = {ast.Lt: ">", ast.LtE: ">", ast.Gt: "<", ast.GtE: "<"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.Mod: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.MatMult: "*"}
SKIPF = ("plot", "__repr__", "__str__", "info", "inspect", "upper", "lower", "_print", "_draw", "_update_plot")


def mutants(fn):
    src = open(f"{SRC}/{fn}").read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    out = []

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    def add(n, new, kind, func):
        s, e = pos(n)
        out.append(dict(file=fn, line=n.lineno, func=func, kind=kind, s=s, e=e, old=b[s:e].decode(), new=new))

    def visit(n, func):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f2 = (func + "." if func else "") + n.name
            if any(k in n.name for k in SKIPF):
                return
            for ch in n.body:
                visit(ch, f2)
            return
        if isinstance(n, ast.ClassDef):
            for ch in n.body:
                visit(ch, (func + "." if func else "") + n.name)
            return
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.If) and func:
            t = seg(n.test)
            if "verbose" in t or "plot" in t:
                return
            if n.body and isinstance(n.body[0], ast.Raise):
                # weaken validations: a different property (refusals)
                add(n.test, "False", "noraise", func)
                for ch in n.orelse:
                    visit(ch, func)
                return
            add(n.test, f"not ({t})", "negif", func)
        if func:
            if isinstance(n, ast.AnnAssign):
                if n.value is not None:
                    visit(n.value, func)
                return
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = seg(n.left), seg(n.comparators[0])
                for tab in (CMP, CMP2):
                    if type(n.ops[0]) in tab:
                        add(n, f"({l} {tab[type(n.ops[0])]} {r})", "cmp", func)
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                l, r = seg(n.left), seg(n.right)
                if not isinstance(n.left, (ast.JoinedStr,)) and "'" not in l and '"' not in l:
                    add(n, f"(({l}) {BIN[type(n.op)]} ({r}))", "bin", func)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
                add(n, f"({seg(n.operand)})", "unary", func)
            elif isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                add(n, "(" + op.join(f"({seg(v)})" for v in n.values) + ")", "bool", func)
            elif isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    add(n, str(not n.value), "const", func)
                elif isinstance(n.value, int):
                    add(n, str(n.value + 1), "const", func)
                elif isinstance(n.value, float):
                    add(n, repr(n.value * 2 if n.value else 1.0), "const", func)
                return
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                if "print" in seg(n.value)[:8]:
                    return
                add(n, "pass", "delcall", func)
            elif isinstance(n, ast.AugAssign):
                s = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&"}.get(type(n.op))
                if s:
                    add(n, f"{seg(n.target)} {s}= {seg(n.value)}", "aug", func)
                add(n, "pass", "delaug", func)
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript):
                add(n, "pass", "delset", func)
            elif isinstance(n, ast.IfExp):
                add(n, f"({seg(n.body)})", "ifexp", func)
                add(n, f"({seg(n.orelse)})", "ifexp", func)
            elif isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg in ("axis", "keepdims", "axes", "mode", "copy", "dtype", "endpoint", "where", "order", "norm", "n", "initial", "ddof", "squeeze", "dim"):
                        if k.arg == "dtype":
                            continue
                        args = [seg(a) for a in n.args] + [seg(x) for x in n.keywords if x is not k]
                        add(n, f"{seg(n.func)}({', '.join(args)})", "dropkw:" + k.arg, func)
                if isinstance(n.func, ast.Attribute) and n.func.attr in SWAP:
                    add(n.func, f"{seg(n.func.value)}.{SWAP[n.func.attr]}", "swap", func)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "squeeze", "flatten") and not n.args:
                    add(n, seg(n.func.value), "drop" + n.func.attr, func)
            elif isinstance(n, ast.Slice):
                if n.lower is not None or n.upper is not None:
                    add(n, ":", "slice", func)
        for ch in ast.iter_child_nodes(n):
            visit(ch, func)

    visit(tree, "")
    seen = set()
    res = []
    for m in out:
        k = (m["s"], m["e"], m["new"])
        if k in seen:
            continue
        seen.add(k)
        new = b[: m["s"]] + m["new"].encode() + b[m["e"] :]
        try:
            compile(new, fn, "exec")
        except (SyntaxError, ValueError):
            continue
        m["end"] = m["line"]
        res.append((m, new))
    return res


def one(root, spec):
    sys.path.insert(0, root)
    cases = json.load(open(spec))
    R = setup()
    import corrct

    assert corrct.__file__.startswith(root), corrct.__file__
    from vf import ctx as X

    for p in sorted({c[0] for c in cases}):
        R.load_harness(p)
    t0 = time.monotonic()
    und = []
    for p, n, b in cases:
        c = X.CASES[(p, n)]
        r = R.pool([c], "quick", 1, min(b, 90), 1)[0]
        if r["status"] == "candidate":
            v = r["violations"][0]
            print("RESULT " + json.dumps(dict(status="killed", by=p + "|" + n, check=v["check"], detail=str(v["detail"])[:120], t=time.monotonic() - t0)))
            return
        if r["status"] != "held":
            und.append(f"{p}|{n}: {r['undecided'][:1]}"[:200])
        if time.monotonic() - t0 > 400:
            break
    print("RESULT " + json.dumps(dict(status="undecided" if und else "survived", und=und[:3], n=len(cases), t=time.monotonic() - t0)))


def run(covf, out, files, per, seed, jobs=8, lines=None, kinds=None):
    cov = json.load(open(covf))
    byline = {}
    for k, v in cov.items():
        if v["status"] == "held":
            for l in v["lines"]:
                byline.setdefault(l, []).append(k)
    rnd = random.Random(seed)
    todo = []
    nocov = {}
    for fn in files:
        byf = {}
        for m, new in mutants(fn):
            if lines and not (lines[0] <= m["line"] <= lines[1]):
                continue
            cs = byline.get(f"{fn}:{m['line']}")
            if not cs:
                # multi-line statements: look upwards
                for d in range(1, 6):
                    cs = byline.get(f"{fn}:{m['line'] - d}")
                    if cs:
                        break
            if not cs:
                nocov.setdefault(fn + ":" + m["func"], set()).add(m["line"])
                continue
            byf.setdefault(m["func"], []).append((m, new, cs))
        for f, ms in byf.items():
            rnd.shuffle(ms)
            todo += ms[:per]
    prev = {}
    if os.path.exists(out):
        prev = {(r["file"], r["line"], r["old"], r["new"]): r for r in json.load(open(out))}
    rnd.shuffle(todo)
    print(len(todo), "mutants", flush=True)
    for k, v in sorted(nocov.items()):
        print("NOCOV", k, sorted(v)[:25])
    base = f"/tmp/mut{os.getpid()}"
    os.makedirs(base, exist_ok=True)
    running = {}
    results = list(prev.values())
    slot = list(range(jobs))
    i = 0
    while i < len(todo) or running:
        while i < len(todo) and slot:
            m, new, cs = todo[i]
            i += 1
            if (m["file"], m["line"], m["old"], m["new"]) in prev:
                continue
            s = slot.pop()
            root = f"{base}/{s}"
            shutil.rmtree(root, ignore_errors=True)
            shutil.copytree(SRC, root + "/corrct", ignore=shutil.ignore_patterns("__pycache__"))
            open(f"{root}/corrct/{m['file']}", "wb").write(new)
            cs = sorted(cs, key=lambda k: cov[k]["t"])
            # interleave: fast cases first
            spec = [[*k.split("|", 1), max(30, cov[k]["t"] * 4)] for k in cs]
            json.dump(spec, open(f"{root}/cases.json", "w"))
            p = subprocess.Popen([PY, __file__, "one", root, f"{root}/cases.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(ENV, PYTHONPATH=root + ":" + HERE), start_new_session=True)
            running[p] = (m, s, time.monotonic())
        time.sleep(0.1)
        for p, (m, s, t) in list(running.items()):
            rc = p.poll()
            if rc is None:
                if time.monotonic() - t > 500:
                    os.killpg(p.pid, signal.SIGKILL)
                continue
            txt = p.stdout.read()
            del running[p]
            slot.append(s)
            r = [l for l in txt.splitlines() if l.startswith("RESULT ")]
            d = json.loads(r[-1][7:]) if r else dict(status="crash", tail=txt[-300:])
            d.update({k: m[k] for k in ("file", "line", "func", "kind", "old", "new")})
            results.append(d)
            if d["status"] != "killed":
                print(f"{d['status'].upper():9s} {m['file']}:{m['line']} {m['func']} [{m['kind']}] `{m['old'][:80]}` -> `{m['new'][:80]}` n={d.get('n')} {d.get('und', '')}"[:420].replace("\n", " "), flush=True)
            json.dump(results, open(out, "w"))
    shutil.rmtree(base, ignore_errors=True)
    c = {}
    for d in results:
        c[d["status"]] = c.get(d["status"], 0) + 1
    print(c)


if __name__ == "__main__":
    a = sys.argv[1]
    if a == "cover":
        os.environ.update(ENV)
        cover(sys.argv[2])
    elif a == "one":
        one(sys.argv[2], sys.argv[3])
    elif a == "run":
        import argparse

        ap = argparse.ArgumentParser()
        ap.add_argument("a")
        ap.add_argument("cov")
        ap.add_argument("out")
        ap.add_argument("--files")
        ap.add_argument("--per", type=int, default=6)
        ap.add_argument("--seed", type=int, default=1)
        ap.add_argument("--jobs", type=int, default=8)
        ap.add_argument("--lines", type=int, nargs=2)
        o = ap.parse_args()
        run(o.cov, o.out, o.files.split(","), o.per, o.seed, o.jobs, o.lines)
