#!/usr/bin/env python3
"""check.py <property>: decide one property for the current source of the repository."""
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
for d in ('lib', 'rules'):
    sys.path.insert(0, os.path.join(ROOT, d))
sys.setrecursionlimit(20000)

import build
from mir import Program
from report import Report


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    import registry
    from common import Ctx, Missing, progress
    if prop not in registry.PROPS:
        print('no check for ' + prop)
        return 2
    rep = Report(prop, tier)
    try:
        data = build.dump()
    except build.BuildError as e:
        print('the source does not type-check, nothing can be decided:\n%s' % str(e)[-3000:])
        return 2
    ctx = Ctx(Program(data), tier)
    for group in registry.PROPS[prop]['groups']:
        name = getattr(group, '__name__', 'rules')
        try:
            group(ctx, rep)
        except Missing as e:
            rep.undecided(name, str(e), 'not found')
        except Exception as e:
            # code in a form that the rules do not know
            where = traceback.extract_tb(e.__traceback__)[-1]
            rep.undecided(name, 'whole group', 'the analysis stopped: %r at %s:%d' % (e, os.path.basename(where.filename), where.lineno))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        progress(ctx, rep)
    return rep.finish('other', registry.PROPS[prop]['explanation'])


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
