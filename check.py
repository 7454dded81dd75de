#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property of /repo's current tree"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import props, runner

if __name__ == '__main__':
    if '--self-test' in sys.argv:
        from sa import front
        for fl in front.ENGINE_FLAVOURS:
            m = front.load(fl, (), False)
            print('%s: %d functions' % (fl, len(m.funcs)))
        sys.exit(0)
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    if ids == ['all']:
        ids = sorted(props.PROPS)
    rc = 0
    for i in ids:
        if i not in props.PROPS:
            print('no check for property %s' % i)
            sys.exit(2)
        r = runner.run(props.PROPS[i], tier)
        rc = r if rc == 0 or r == 1 else rc
    sys.stdout.flush()
    sys.exit(rc)
