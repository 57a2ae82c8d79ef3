#!/usr/bin/env python3
"""check.py PNN: decides one property for /repo's current tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dsv import core, props


def main():
    prop = sys.argv[1]
    c = core.Check(prop)
    try:
        props.RUN[prop](c)
        rc = c.finish()
    except core.ToolError as e:
        sys.stderr.write('check error: %s\n' % e)
        rc = 2
        if c.violations:
            rc = c.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
        if c.violations:
            rc = c.finish()
    sys.stdout.flush()
    os._exit(_bye(rc))


def _bye(rc):
    import atexit
    atexit._run_exitfuncs()
    return rc


if __name__ == '__main__':
    main()
