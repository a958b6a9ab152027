#!/opt/venv/bin/python
"""mkbug.py SPEC.json : writes /verif/seeded/<id>/ from {id, property, needs, what_it_breaks, edits:[{file,old,new}], demo}.
demo is Python source run with PYTHONPATH=/repo/src; exit status 0 = behaviour right."""
import difflib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(b):
    d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
    diff = ''
    by = {}
    for e in b['edits']:
        p = os.path.join('/repo', e['file'])
        s = by.setdefault(e['file'], [open(p).read()] * 2)
        assert s[1].count(e['old']) == 1, (b['id'], e['file'], s[1].count(e['old']))
        by[e['file']] = [s[0], s[1].replace(e['old'], e['new'])]
    for f, (o, n) in by.items():
        ls = lambda t: [x if x.endswith('\n') else x + '\n\\ No newline at end of file\n' for x in t.splitlines(True)]
        diff += ''.join(difflib.unified_diff(ls(o), ls(n), 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec timeout 120 /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns['BUGS']:
        mk(b); print(b['id'])
