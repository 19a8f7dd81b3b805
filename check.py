#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]     decide one property
   check.py --replay FILE                         re-run one recorded failing case
Exit 0 held, 1 violated (VIOLATION line), 2 error of the machinery."""
import argparse
import importlib
import json
import os
import sys
import traceback

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.update(PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0")
os.environ.pop("PYTHONPATH", None)
if os.path.exists(PY) and not os.environ.get("VERIF_NOEXEC"):
    os.environ["VERIF_NOEXEC"] = "1"
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from harness import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    case = None
    if a.replay:
        data = json.load(open(a.replay))
        a.property = data["property"]
        seed = data.get("seed", seed)
        case = data
    core.setup_paths()
    mod = importlib.import_module("harness.prop_" + a.property.lower())
    if case:
        fn = mod.PARTS[case["part"]]
        import tempfile
        d = tempfile.mkdtemp(prefix="verif_replay_")
        try:
            msg, key, stats = core.run_case(fn, case["case"], d, 120)
        finally:
            core._rmtree(d)
        print("failure: %s" % msg if msg else "no failure")
        return 1 if msg else 0
    ctx = core.Ctx(a.property, a.tier, seed, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.run(ctx)
        return ctx.finish()
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
