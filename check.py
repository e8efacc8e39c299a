#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if sys.prefix != '/opt/venv':
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore']
             + sys.argv)
sys.path.insert(1, os.path.join(sys.path[0], 'harness'))
import vlib


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.chdir(vlib.ROOT)
    ctx = vlib.Ctx(pid, tier, seed)
    try:
        ctx.log('extensions', vlib.ensure_build())
        mod = importlib.import_module('props.' + pid)
        mod.run(ctx)
        rc = ctx.finish()
    except vlib.MachineryError as exc:
        if ctx.violations: # Already decided.
            return ctx.finish()
        print('ERROR (machinery):', exc)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    return rc


if __name__ == '__main__':
    sys.exit(main())
