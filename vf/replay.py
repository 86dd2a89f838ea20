"""Run harness cases on the real, unpatched code.

python -m vf.replay FILE : FILE holds {"jobs": [{"prop","case","inputs","tier"}...]} ; results to stdout as JSON.
Exit code 1 if some job fails.
"""

from __future__ import annotations

import contextlib
import io
import json
import os
import sys
import traceback
import warnings


def main(path, out=None):
    warnings.simplefilter("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    doc = json.load(open(path))
    jobs = doc["jobs"]
    import numpy as np

    np.seterr(all="ignore")
    from . import ctx as X
    from .run import load_harness

    real_out = sys.stdout
    res = []
    with contextlib.redirect_stdout(io.StringIO()):
        for p in {j["prop"] for j in jobs}:
            load_harness(p)
        for j in jobs:
            c = X.CASES[(j["prop"], j["case"])]
            k = X.ConcCtx(j["inputs"], j.get("tier", "quick"))
            k.f32 = c.opts.get("f32", False) or bool(os.environ.get("VF_F32"))
            r = {"exc": None, "assume": True}
            try:
                c.fn(k, **c.kw)
            except X.AssumeFailed:
                r["assume"] = False
            except Exception as e:  # noqa: BLE001
                if X.internal_missing(e):
                    r["assume"] = False
                r["exc"] = f"{type(e).__name__}: {e}"
                r["tb"] = traceback.format_exc()[-1500:]
            r["failures"] = k.failures
            r["obs"] = [(n, v) for n, v, _ in k.obs]
            r["nchecks"] = k.nchecks
            res.append(r)
    bad = any((r["failures"] or r["exc"]) and r["assume"] for r in res)
    if out:
        json.dump(res, open(out, "w"))
    else:
        for j, r in zip(jobs, res):
            print(j["prop"], j["case"], "FAILS" if (r["failures"] or r["exc"]) and r["assume"] else "passes", file=real_out)
            for f in r["failures"]:
                print("   ", f[0], ":", f[1], file=real_out)
            if r["exc"]:
                print("   ", r["tb"], file=real_out)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
