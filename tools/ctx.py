"""ctx.py PROP KEY [N]: the operations leading to the failures with this key"""
import json, sys
v = json.load(open('/verif/evidence/replay/%s.json' % sys.argv[1]))
n = int(sys.argv[3]) if len(sys.argv) > 3 else 2
for x in v:
    if x['key'] == sys.argv[2] and n:
        n -= 1
        d = x['data']
        t = d['trace']
        print('-- init', json.dumps(t['init'])[:600])
        for o in t['ops'][:d['verdict']['pos']]:
            print(json.dumps(o['op'])[:500], '->', json.dumps(o['obs'])[:200])
