"""tools/fixed.py PROP HASH... : record fix commits in known_findings.json"""
import json, subprocess, sys, os
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(F))
have = {f.get('commit') for f in k['findings']}
p = sys.argv[1]
for h in sys.argv[2:]:
    m = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%s', h]).decode().strip()
    if h not in have:
        k['findings'].append(dict(property=p, kind='fixed', key='commit:' + h, commit=h, what=m.replace('fix: ', '')))
for x in k['findings']:
    if x['kind'] == 'fixed':
        x['line'] = 'fixed: property=%s %s %s' % (x['property'], x['commit'], x['what'])
with open(F, 'w') as f:
    f.write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x) for x in k['findings']) + '\n]}\n')
