#!/usr/bin/env python3
"""run.py <property id> [--replay FILE]: run one check (tier and seed from the environment)."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, 'harness')]
sys.dont_write_bytecode = True
import common   # noqa: E402

MODULES = ['reader', 'writer', 'store', 'migration', 'tools', 'objects', 'dbuse', 'files']


def find(prop, table):
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, 'checks', m + '.py')):
            mod = importlib.import_module('checks.' + m)
            if prop in getattr(mod, table, {}):
                return getattr(mod, table)[prop]
    raise SystemExit('no check for ' + prop)


def main():
    prop = sys.argv[1]
    ctx = common.Ctx(prop)
    try:
        if '--replay' in sys.argv:
            with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
                data = json.load(f)['replay']
            data.pop('obs', None)
            find(prop, 'REPLAY')(ctx, [data])
            ctx.replay_only = True
            for what, _ in ctx.violations:
                print('reproduced: ' + what)
            return 1 if ctx.violations else 0
        assumptions = find(prop, 'CHECKS')(ctx)
        return ctx.finish(assumptions or ())
    except common.MachineryError as e:
        traceback.print_exc()
        print('MACHINERY-FAILURE %s: %s' % (prop, str(e)[:300]))
        # what was found before still counts
        return ctx.finish() if ctx.violations else 3
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.exit(main())
