#!/usr/bin/env python3
"""check.py ID - runs the check of one property (tier from VERIF_TIER)."""
import os, sys, importlib, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'lib')]
import vlib, shutil
def main():
    pid = sys.argv[1]
    m = importlib.import_module(pid.lower())
    ctx = vlib.Ctx(pid, m.LEVEL)
    try:
        m.run(ctx)
        return ctx.finish()
    except vlib.CheckError as e:
        print('CHECK ERROR: %s' % e); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        if ctx.scratch: shutil.rmtree(ctx.scratch, ignore_errors=True)
sys.exit(main())
