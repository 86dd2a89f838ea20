"""Writes CASES.md: every case with the statement it decides (from the harness docstrings)."""
import contextlib, importlib, io, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import ctx as X

out = ["# Cases (generated by mk.py)\n"]
for i in range(1, 100):
    if not os.path.exists(f"{HERE}/harness/p{i:02d}.py"):
        continue
    with contextlib.redirect_stdout(io.StringIO()):
        m = importlib.import_module(f"harness.p{i:02d}")
    p = f"P{i:02d}"
    cs = [c for (q, n), c in X.CASES.items() if q == p]
    out.append(f"\n## {p}: {(m.__doc__ or '').strip().split(': ', 1)[-1]}\n")
    by = {}
    for c in cs:
        by.setdefault(c.fn, []).append(c)
    for fn, l in by.items():
        q = sum(c.quick for c in l)
        name = l[0].name.split("[")[0]
        out.append(f"- `{name}` ({q} quick{f', {len(l) - q} more in thorough' if len(l) > q else ''}){': ' if fn.__doc__ else ''}{' '.join((fn.__doc__ or '').split())}")
open(HERE + "/CASES.md", "w").write("\n".join(out) + "\n")
