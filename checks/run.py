#!/usr/bin/env python3
"""run.py PROPERTY: the check of one property (see DESIGN.md). Exit 0: held; 1: violated; 2: no answer."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, props


def main():
    prop = sys.argv[1]
    c = lib.Check(prop)
    try:
        props.CHECKS[prop](c)
        rc = c.finish()
    except lib.CheckError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        rc = 2
        if c.violations:  # found before: they stand by themselves
            rc = c.finish() or 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        c.cleanup()
    return rc


if __name__ == '__main__':
    sys.exit(main())
