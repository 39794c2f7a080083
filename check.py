#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: runs the check of one property."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hv import common, registry  # noqa: E402


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    entry = registry.CHECKS[prop]
    c = common.Check(prop, tier, entry['level'])
    try:
        entry['run'](c)
    except common.ToolError as e:
        common.log('TOOL ERROR %s: %s' % (prop, e))
        # What was found before that still counts.
        if c.violations:
            return c.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if c.violations:
            return c.finish()
        return 2
    return c.finish()


if __name__ == '__main__':
    sys.exit(main())
