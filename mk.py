#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from this table (run by hand)."""
import json
import os

R = "src/corrct/"
P = []


def prop(i, title, statement, over, q, why, files, mech, note, na=None):
    P.append(dict(i=i, title=title, statement=statement, over=over, q=q, why=why, files=[R + f for f in files], mech=mech, note=note, na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_table.py")).read())

base = os.path.dirname(os.path.abspath(__file__))
with open(base + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["i"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=R + w) for n, w in p["mech"]], hook_needed=None))) + "\n")
common = ("Symbolic execution of the package's own source (re-imported from /repo at each run) with z3 deciding every obligation for all input values within "
          "the stated sizes and ranges; counterexamples are replayed on the unpatched code before being reported. Reals stand for floats; third-party linear kernels are "
          "read off the installed library as matrices. ")
checks = [dict(property=p["i"], quick_cmd=f"./check.sh {p['i']} quick", thorough_cmd=f"./check.sh {p['i']} thorough",
               technique="symbolic execution of the real Python code, z3 SMT verdict per obligation, replayed counterexamples",
               level="model_checking", level_note=common + p["note"]) for p in P if not p["na"]]
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy' && test -d /opt/veriftools/pyvenv/lib/python3.12/site-packages/z3 && chmod +x check.sh",
         checks=checks, not_applicable=[dict(property=p["i"], reason=p["na"]) for p in P if p["na"]],
         notes="check.sh PROP [quick|thorough] [-v] [--case NAME]; replays: PYTHONPATH=/verif /opt/venv/bin/python -m vf.replay FILE")
json.dump(m, open(base + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties")
import subprocess
subprocess.run(["/opt/venv/bin/python", base + "/tools/cases.py"], check=True, env=dict(os.environ, PYTHONPATH=base, PYTHONDONTWRITEBYTECODE="1"))
