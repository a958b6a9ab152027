"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, tech='', note='', claimed=True):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=mechanism, **({'state': state} if state else {})),
                  _tech=tech, _note=note, _claimed=claimed))


TECH = ('TLA+ specification checked by TLC, bound to the code by trace validation (recorded executions '
        'judged by TLC) and replay of TLC-generated behaviours')

exec(open(os.path.join(ROOT, 'tools', 'proplist.py')).read())

if __name__ == '__main__':
    import sys
    sys.path.insert(0, ROOT)
    from vf.registry import CHECKS
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in CHECKS and p['_claimed']:
            checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'],
                               thorough_cmd='./check %s thorough' % p['id'],
                               technique=p['_tech'] or TECH, level='model_checking',
                               level_note=p['_note']))
        else:
            na.append(dict(property=p['id'], reason=p['_note'] if not p['_claimed'] else 'check not built yet'))
    m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na + NA,
             notes='Specifications in spec/*.tla (TLA+, TLC); drivers in vf/areas; ./check <ID> [quick|thorough].')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(checks), 'claimed')
