"""Entry point of every check: runs checks/<id>.py, writes evidence, prints verdicts.

Exit status: 0 when the property held on everything explored (known findings
are printed but do not fail), 1 with VIOLATION lines otherwise.
"""
import argparse
import base64
import importlib
import json
import os
import pickle
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--show", type=int, default=5)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import mc

    t0 = time.time()
    r = mc.Runner(a.prop, tier, seed, a.workers)
    try:
        mod = importlib.import_module(a.prop.lower())
    except Exception as e:  # the code under test no longer imports
        tb = traceback.format_exc()
        if "/verif" in tb and "terragraph_planner" not in tb:
            raise
        r.add_violation("import", None, f"import:{type(e).__name__}", tb)
        mod = None
    if mod is not None:
        r.module = mod
        if a.replay:
            with open(a.replay) as f:
                art = json.load(f)
            item = pickle.loads(base64.b64decode(art["item"]))
            ctx = mc.run_one(a.prop.lower(), art["fn"], item, 600)
            for k, m in ctx.viol:
                print(f"{k}: {m}")
            print("replay:", "VIOLATED" if ctx.viol else "held")
            return 1 if ctx.viol else 0
        try:
            mod.main(r)
        except mc.StopRun:
            pass
        except Exception as e:
            tb = traceback.format_exc()
            # failures of the driver itself that go through the code under test
            # are verdicts about that code; anything else is a harness error.
            if "terragraph_planner" in tb:
                r.add_violation("main", None, f"driver:{type(e).__name__}", tb)
            else:
                raise
    return r.finish(time.time() - t0, a.show)


if __name__ == "__main__":
    sys.exit(main())
