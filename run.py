#!/usr/bin/env python3-vt
"""Entry point: run.py <property> [--tier quick|thorough] | --replay FILE | --list"""
import glob
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), HERE]
sys.dont_write_bytecode = True


def all_checks():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'checks', '*.py'))):
        n = os.path.basename(f)[:-3]
        if n == '__init__':
            continue
        m = importlib.import_module('checks.' + n)
        for c in m.CHECKS:
            out[c.pid] = c
    return out


def main():
    import fw
    a = sys.argv[1:]
    cs = all_checks()
    if a and a[0] == '--list':
        print(' '.join(sorted(cs)))
        return 0
    if a and a[0] == '--replay':
        import replay
        return replay.replay(a[1], cs)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    return fw.run_check(cs[a[0]], tier)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        # a fault of the machinery is no verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
