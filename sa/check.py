"""python3 -m sa.check <property> [--only text] [--nofork]"""
import importlib
import os
import sys
import time


def main(argv):
    sys.setrecursionlimit(20000)
    pid = argv[0]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    from . import report
    t0 = time.time()
    m = importlib.import_module('sa.obl.' + pid.lower())
    s = report.Suite(pid)
    m.obligations(s)
    report.BUILD[:] = [m.obligations, pid]
    res = report.run_suite(s, only=only, fork='--nofork' not in argv)
    if '-v' in argv:
        for r in res:
            print('%-12s %-50s %6.2fs %6d' % (r['status'], r['name'], r['seconds'], r['comparisons']))
    return report.finish(pid, res, time.time() - t0, m.RULE)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
