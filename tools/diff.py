"""python3 tools/diff.py PROP : first differing places of the failures of the last run, counted."""
import sys, json, os, collections
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(R + '/evidence/replay/%s.json' % sys.argv[1]))


def diff(a, b, p=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                yield from diff(a.get(k), b.get(k), p + '.' + k)
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                yield from diff(x, y, p + '[%d]' % i)
    else:
        yield p, a, b


for v in d:
    q = v.get('data') or v
    q = q.get('verdict') or q
    ex, got = q.get('expected'), q.get('got')
    print(v.get('key'), [(p, str(a)[:150], str(b)[:150]) for p, a, b in list(diff(ex, got))[:3]])
