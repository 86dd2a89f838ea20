"""dev tool: mkseed.mk(id, prop, [(file, old, new)...], demo, needs, breaks) writes seeded/<id>/ from a text edit of /repo (undone straight away)."""
import json, os, subprocess, sys

DEMO = """#!/bin/bash
# exit 0: the property holds; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TQDM_DISABLE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
"""


def mk(i, prop, edits, demo, needs, breaks, root="/repo"):
    d = os.path.dirname(os.path.abspath(__file__)) + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", root, "status", "--porcelain"], capture_output=True, text=True).stdout
    try:
        for f, a, b in edits:
            p = f"{root}/src/corrct/{f}"
            t = open(p).read()
            assert t.count(a) == 1, (i, f, t.count(a), a)
            open(p, "w").write(t.replace(a, b))
        diff = subprocess.run(["git", "-C", root, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", root, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(demo.strip() + "\n")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("made", i)
