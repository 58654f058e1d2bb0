#!/usr/bin/env python3
"""
check.py C01 [--tier quick|thorough] [--runs N] [--seed N] [--jobs N]   decide a property
check.py replay FILE                                                    run a replay file again
check.py determinism [C01 ...]                                          the determinism self-test
"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('what')
    p.add_argument('args', nargs='*')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    p.add_argument('--runs', type=int)
    p.add_argument('--cap', type=float)
    p.add_argument('--jobs', type=int)
    p.add_argument('--log', action='store_true', help='with replay: print the file operations')
    a = p.parse_args()
    from sim import runner
    if a.what == 'replay':
        return runner.replay(a.args[0], a.log)
    if a.what == 'setup':
        runner.build_shim()
        return 0
    if a.what == 'determinism':
        from sim import determinism
        return determinism.main(a.args, a.seed, a.runs or 40)
    return runner.check(a.what, a.tier, a.seed, a.runs, a.cap, a.jobs)


if __name__ == '__main__':
    sys.exit(main())
