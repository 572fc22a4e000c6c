#!/usr/bin/env python3
"""run.py check <property> [--tier quick|thorough]   decide one property
   run.py all                                        every property"""
import importlib
import os
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    from checks import base, registry
    if args[0] == 'all':
        rc = 0
        for p in sorted(registry.CHECKS):
            rc = max(rc, one(p, tier, base, registry))
        return rc
    if args[0] == 'check':
        return one(args[1], tier, base, registry)
    print(__doc__)
    return 2


def one(prop, tier, base, registry):
    t0 = time.time()
    ck = base.Check(prop, tier)
    f, rule, assumptions = registry.CHECKS[prop]
    signal.signal(signal.SIGALRM, base._late)
    signal.alarm(base.BUDGET + 60)
    try:
        ck.guard(prop + ':setup', f, ck)
        signal.alarm(0)
    except base.OutOfTime:
        ck.unknown(prop + ':time', 'the analysis ran out of its time')
    return base.finish(ck, t0, rule, assumptions)


if __name__ == '__main__':
    sys.exit(main())
