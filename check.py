#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vf

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module(prop.lower())
    ctx = vf.Ctx(prop, tier)
    try:
        mod.run(ctx)
    except vf.Inconclusive as e:
        if any(True for b in ctx.bad):
            # a violation was already established on real executions: report it
            pass
        else:
            print("INCONCLUSIVE: %s" % e, flush=True)
            return 3
    return ctx.finish()

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(4)
