#!/usr/bin/env python3
"""run.py check ID [--tier quick|thorough] | run.py replay FILE"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, checks          # noqa: E402


def main():
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if sys.argv[1] == 'check':
        ctx = core.Ctx(sys.argv[2], tier, seed)
        try:
            checks.run(ctx)
            return ctx.finish(checks.ASSUMPTIONS)
        except core.ToolError as e:
            print('ERROR:', e)
            # what has been found stands
            if ctx.violations:
                return ctx.finish(checks.ASSUMPTIONS)
            return 2
    if sys.argv[1] == 'replay':
        r = json.load(open(sys.argv[2]))
        ctx = core.Ctx(r['property'], 'quick', r['seed'])
        ctx.conform([r['script']], 'replay', r.get('release', False))
        for w, _ in ctx.violations:
            print('reproduced:', w)
        print(r['script'])
        return 1 if ctx.violations else 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
