"""tools/hist.py PROP [I]: the operations of the I-th reported failing history, up to the failing event."""
import json, sys
d = json.load(open('/verif/evidence/replay/%s.json' % sys.argv[1]))
out = []
def find(x):
    if isinstance(x, dict):
        if isinstance(x.get('trace'), dict):
            out.append(x)
        for y in x.values():
            find(y)
    if isinstance(x, list):
        for y in x:
            find(y)
find(d)
x = out[int(sys.argv[2]) if len(sys.argv) > 2 else 0]
for i, e in enumerate(x['trace']['ops'][:x['verdict']['pos']], 1):
    print(i, json.dumps(e['op'])[:300], '->', json.dumps(e['obs'])[:120])
