#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]: decides one property of /repo's current source, statically."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.setrecursionlimit(20000)
import props
if __name__ == '__main__':
    tier = os.environ.get('VERIF_TIER', 'quick')
    a = sys.argv[1:]
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    sys.exit(props.run(a[0], tier))
