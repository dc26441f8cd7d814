#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on the current tree of /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core, checks
def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    if pid not in checks.CHECKS: print('no check for ' + pid); return 3
    ctx = core.Ctx(pid, tier)
    try:
        fn, level, rule = checks.CHECKS[pid]
        fn(ctx)
        return core.finish(ctx, level, rule)
    except core.Broken as e:
        print('ANALYSIS BROKEN: %s' % e); return 3
    finally:
        ctx.close()
sys.exit(main())
