"""Replay a file written by a check: python3 -m dst.replay FILE."""
import json
import sys
import time

from . import build
from .check import HANG_S, call


def main():
    r = json.load(open(sys.argv[1]))
    bdir, _ = build.ensure(full=(r['tier'] == 'thorough'))
    spec = dict(prop=r['property'], tier=r['tier'], build=bdir, mode='replay',
                seed=None if r['choices'] is not None else r['seed'],
                choices=r['choices'], seed0=0, deadline=time.time())
    st, x = call(spec, r['hashseed'], HANG_S)
    if st in ('crash', 'hang'):
        print(st)
        same = st == r['kind']
    elif st == 'ok':
        for n in x['notes']:
            print(' ', n)
        print('faults', x['faults'])
        print('violation', x['violation'])
        same = bool(x['violation']) and x['violation']['kind'] == r['kind']
        print('digest', x['digest'], 'recorded', r.get('digest'))
    else:
        print(st, x)
        return 2
    print('REPRODUCED' if same else 'NOT REPRODUCED')
    return 1 if same else 0


if __name__ == '__main__':
    sys.exit(main())
