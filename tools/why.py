"""why.py PROP [N]: distinct failures of the last replay file"""
import json, sys
v = json.load(open('/verif/evidence/replay/%s.json' % sys.argv[1]))
seen = {}
for x in v:
    seen.setdefault(x['key'], []).append(x)
for k, xs in seen.items():
    print('==', k, len(xs))
    d = xs[0].get('data') or {}
    b = d.get('verdict') or d
    ex, got = b.get('expected'), b.get('got')
    op = b.get('op') or (d.get('behaviour', {}).get('ops', [{}])[b.get('event', 1) - 1].get('op'))
    print('  op ', json.dumps(op)[:700])
    if isinstance(ex, dict) and isinstance(got, dict):
        for f in sorted(set(ex) | set(got)):
            if ex.get(f) != got.get(f):
                print('  exp', f, json.dumps(ex.get(f))[:900]); print('  got', f, json.dumps(got.get(f))[:900])
    else:
        print('  ', str(x['what'])[:900])
