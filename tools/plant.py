"""Development tool: apply hand-written changes (in copies under /tmp) and say whether the quick cases of the named properties see them.

plant.py COV.json PLANTS.py [NAME..]    PLANTS.py defines PLANTS = [(name, "P01,P02" or None for all, [(file, old, new)])]
"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from mutate import ENV, PY, SRC  # noqa: E402


def main(covf, plants, names, jobs=7):
    cov = json.load(open(covf))
    ns = {}
    exec(open(plants).read(), ns)
    todo = [p for p in ns["PLANTS"] if not names or p[0] in names]
    base = f"/tmp/plant{os.getpid()}"
    running, slot, i = {}, list(range(jobs)), 0
    while i < len(todo) or running:
        while i < len(todo) and slot:
            name, props, edits = todo[i]
            i += 1
            s = slot.pop()
            root = f"{base}/{s}"
            shutil.rmtree(root, ignore_errors=True)
            shutil.copytree(SRC, root + "/corrct", ignore=shutil.ignore_patterns("__pycache__"))
            bad = False
            for f, old, new in edits:
                t = open(f"{root}/corrct/{f}").read()
                if t.count(old) != 1:
                    print("BAD", name, f, t.count(old), repr(old[:60]), flush=True)
                    bad = True
                else:
                    t = t.replace(old, new)
                    compile(t, f, "exec")
                    open(f"{root}/corrct/{f}", "w").write(t)
            if bad:
                slot.append(s)
                continue
            ps = props.split(",") if props else None
            cs = sorted((k for k in cov if cov[k]["status"] == "held" and (not ps or k.split("|")[0] in ps)), key=lambda k: cov[k]["t"])
            json.dump([[*k.split("|", 1), max(30, cov[k]["t"] * 4)] for k in cs], open(f"{root}/cases.json", "w"))
            p = subprocess.Popen([PY, HERE + "/tools/mutate.py", "one", root, f"{root}/cases.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(ENV, PYTHONPATH=root + ":" + HERE), start_new_session=True)
            running[p] = (name, s, time.monotonic())
        time.sleep(0.1)
        for p, (name, s, t) in list(running.items()):
            if p.poll() is None:
                continue
            txt = p.stdout.read()
            del running[p]
            slot.append(s)
            r = [l for l in txt.splitlines() if l.startswith("RESULT ")]
            d = json.loads(r[-1][7:]) if r else dict(status="crash", tail=txt[-300:])
            print(f"{d['status'].upper():9s} {name} {time.monotonic() - t:.0f}s", {k: v for k, v in d.items() if k != "status"} if d["status"] != "survived" else d.get("und"), flush=True)
    shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], sys.argv[3:])
