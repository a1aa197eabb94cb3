#!/usr/bin/env python3
"""check.py ID: decide property ID on /repo's working tree (VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
import vlib


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module(prop)
        mod.run(ctx)
        rc = ctx.finish(assumptions=getattr(mod, "ASSUMPTIONS", ()))
    except vlib.CheckError as e:
        if ctx.violation:  # a violation already confirmed stands
            sys.exit(ctx.finish())
        print("check error:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if rc == 0 and not os.environ.get("VERIF_KEEP"):
        import shutil
        shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(rc)


main()
