#!/usr/bin/env python3
"""run.py PROPERTY: runs the check of a property (VERIF_TIER, VERIF_SEED in the
environment).  Exit 0: held; 1: violated; 2: the check could not do its work."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)


def main():
    import build
    import check
    import run
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    from checks import CHECKS
    modname, level = CHECKS[prop]
    ctx = check.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("checks." + modname)
        getattr(mod, prop)(ctx)
        rc = ctx.finish(level)
    except (run.CheckError, build.BuildError) as e:
        print(f"{prop}: the check could not run: {e}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.scratch_cm.__exit__(None, None, None)
    sys.exit(rc)


if __name__ == "__main__":
    main()
