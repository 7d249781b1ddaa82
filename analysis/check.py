"""python3 analysis/check.py <property>: decide one property on /repo's current source."""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework
from registry import CHECKS


def main():
    prop = sys.argv[1]
    t0 = time.time()
    try:
        level, fn = CHECKS[prop]
        res = fn(prop)
        return framework.finish(prop, res, level, t0)
    except framework.AnchorMissing as e:
        print('CHECK-ERROR property=%s anchor missing: %s' % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    sys.exit(main())
