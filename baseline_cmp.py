"""Compare a test.sh output with the baseline: baseline_cmp.py OUT.json"""
import json
import sys

o = json.load(open(sys.argv[1]))
b = json.load(open('/opt/vp/BASELINE.json'))


def ids(x, key):
    if isinstance(x, dict):
        for k in (key, 'stable', 'passed', 'pass'):
            if k in x:
                return set(x[k])
    return set(x)


base = ids(b, 'stable')
got = ids(o, 'passed')
print('baseline', len(base), 'passed', len(got), 'missing',
      sorted(base - got)[:20])
