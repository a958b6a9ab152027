"""Binds Ana.tla to yapcad.package.analysis (cli, base, schema, yapcad_native)."""
import json, os, shutil, tempfile
import yaml
from ..core import Area, exc

FAKE = {}


def fake():
    if 'cls' in FAKE:
        return
    from yapcad.package.analysis.base import AnalysisAdapter, AnalysisResult, register_backend

    class Adapter(AnalysisAdapter):
        name = 'fake'

        def run(self, manifest, plan, workspace, **kw):
            r = FAKE['script']
            if r['raise']:
                raise RuntimeError('solver crashed')
            sp = None
            if r['path'] != 'summary.json':
                sp = workspace / r['path']
            elif r['own']:
                sp = workspace / 'summary.json'
                sp.write_text('{}')
            for a in r['arts']:
                (workspace / a).write_text('x')
            return AnalysisResult(plan_id=plan.plan_id, status=r['status'],
                                  metrics={m['k']: m['v'] for m in r['metrics']},
                                  artifacts=[{'kind': 'file', 'path': a} for a in r['arts']],
                                  notes=r['notes'] or None, backend=r['backend'] or None, summary_path=sp,
                                  summary={'mark': r['mark']} if r['mark'] else {})
    register_backend('Fake', Adapter)
    FAKE['cls'] = Adapter


def digest(root, skip=()):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), root)
            if not any(p == x or p.startswith(x + os.sep) for x in skip):
                out[p] = open(os.path.join(root, p), 'rb').read()
    return out


class Ana(Area):
    def __init__(self, scratch):
        self.scratch = scratch
        fake()

    def new(self, init):
        d = tempfile.mkdtemp(dir=self.scratch)
        s = dict(top=d, root=os.path.join(d, 'p.ycpkg'), n=0)
        os.makedirs(os.path.join(s['root'], 'validation', 'plans'))
        man = {'schema': 'ycpkg-spec-v0.1', 'id': 'x', 'name': 'n', 'version': '1',
               'geometry': {'primary': {'path': 'geometry/primary.json', 'hash': 'sha256:1'}}, 'tags': ['a'],
               'metadata': {'keep': 1}}
        if init.get('section'):
            man['validation'] = {'extra': 'kept'}
        with open(os.path.join(s['root'], 'manifest.yaml'), 'w') as f:
            yaml.safe_dump(man, f)
        return s

    def close(self, s):
        shutil.rmtree(s['top'])

    # ------------------------------------------------------------ recording
    def man(self, s):
        d = yaml.safe_load(open(os.path.join(s['root'], 'manifest.yaml')))
        v = d.get('validation', {})
        plans = [dict(id=e['id'], path=e.get('path'), kind=e.get('kind'), backend=e.get('backend'),
                      mode=(e.get('execution') or {}).get('mode', '')) for e in v.get('plans', [])]
        res = []
        for e in v.get('results', []):
            pre = 'validation/results/%s/' % e['plan']
            res.append(dict(plan=e['plan'], status=e.get('status'), backend=e.get('backend'),
                            metrics=[dict(k=k, v=x) for k, x in (e.get('metrics') or {}).items()],
                            arts=[a['path'] for a in e.get('artifacts') or []], notes=e.get('notes', ''),
                            path=e['path'][len(pre):] if e.get('path', '').startswith(pre) else e.get('path', ''),
                            mark=(e.get('summary') or {}).get('mark', ''), time=bool(e.get('timestamp'))))
        v = {k: x for k, x in d.pop('validation', {}).items() if k not in ('plans', 'results')}
        return dict(plans=plans, results=res), (d, v)

    def analyze(self, s, op):
        from yapcad.package.analysis.cli import analyze_package
        from yapcad.package.analysis.cli import main
        p = op['p']
        doc = dict(id=p['id'], kind=p['kind'], backend=p['backend'])
        if p['mode'] != 'local' or op['explicit']:
            doc['execution'] = dict(mode=p['mode'])
        if op['bad'] in ('id', 'kind', 'backend'):
            del doc[op['bad']]
        f = os.path.join(s['root'], p['path'])
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if op['bad'] == 'climb':
            doc['id'] = '../../../' + ['x', '../elsewhere'][len(p['id']) % 2]
        if op['bad'] == 'list':
            doc = [doc]
        if op['bad'] == 'missing':
            if os.path.exists(f):
                os.remove(f)
        else:
            with open(f, 'w') as fp:
                yaml.safe_dump(doc, fp)
        FAKE['script'] = op['r']
        before, rest = self.man(s)
        files = digest(s['top'], ('p.ycpkg/validation/results', 'p.ycpkg/manifest.yaml'))
        if 'section' not in rest[1]:
            pass
        cwd = os.getcwd()
        res, sm = 'ok', None
        try:
            os.chdir(s['top'])
            root = s['root'] if op['how'] != 'rel' else 'p.ycpkg'
            if op['how'] == 'inside':
                os.chdir(s['root'])
                root = '.'
            plan = f if op['planabs'] else p['path']
            if op['cli']:
                if main([root, '--plan', plan, '--status', op['arg']]) != 0:
                    res = 'rc'
                sm = os.path.join(s['root'], 'validation', 'results', p['id'],
                                  op['r']['path'] if p['backend'].lower() == 'fake' else 'summary.json')
            else:
                sm = os.path.abspath(str(analyze_package(root, plan, status=op['arg'])))
        except Exception:
            res = 'exc'
        finally:
            os.chdir(cwd)
        m, rest2 = self.man(s)
        files2 = digest(s['top'], ('p.ycpkg/validation/results', 'p.ycpkg/manifest.yaml'))
        out = dict(res=res, man=m, rest=rest2 == rest, outside=files2 == files)
        if res == 'ok':
            try:
                from yapcad.package.analysis.schema import validate_result_file
                d = json.load(open(sm))
                out['sum'] = dict(plan_id=d.get('plan_id', d.get('plan')) if op['lax'] else d.get('plan_id', ''),
                                  status=d.get('status'), backend=d.get('backend'), mark=d.get('mark', ''),
                                  mode=(d.get('execution') or {}).get('mode', ''), time=bool(d.get('timestamp')),
                                  valid=validate_result_file(sm).valid)
            except Exception as e:
                out['sum'] = exc(e)
        return out

    # ----------------------------------------------------------- acceptance
    def accept(self, s, op):
        from yapcad.geom3d_util import prism
        from yapcad.geom3d import translatesolid
        from yapcad.geom import point
        from yapcad.package import create_package_from_entities
        from yapcad.package.analysis.cli import analyze_package
        from yapcad.package import PackageManifest
        ents = [translatesolid(prism(b['w'], b['d'], b['h']),
                               point(b['x'] + b['w'] / 2, b['y'] + b['d'] / 2, b['z'] + b['h'] / 2)) for b in op['boxes']]
        if not ents:
            from yapcad.geom3d import poly2surfaceXY
            ents = [poly2surfaceXY([point(0, 0), point(1, 0), point(1, 1), point(0, 0)])[0]]
        s['n'] += 1
        root = os.path.join(s['top'], 'q%d' % s['n'])
        create_package_from_entities(ents, root, name='n', version='1')
        acc = {}
        for c in op['crit']:
            r = {}
            if c['has']:
                r['limit'] = c['lim'] / 4
                if c['how'] == 'int' and c['lim'] % 4 == 0:
                    r['limit'] = c['lim'] // 4
                if c['how'] == 'str':
                    r['limit'] = '%.2f' % (c['lim'] / 4)
            if c['cmp']:
                r['comparison'] = c['cmp']
            if c['tol'] or c['how'] == 'int':
                r['tolerance'] = c['tol'] / 4
            acc[c['k']] = r
        chk = dict(property=op['check'])
        if op['check'] == 'mass':
            chk['density_kgm3'] = op['rho'] * 250000000
        plan = dict(id='p', kind='geometric', backend=op['backend'], check=chk, acceptance=acc,
                    geometry=dict(source='geometry/primary.json', entities=[]))
        os.makedirs(os.path.join(root, 'validation', 'plans'), exist_ok=True)
        with open(os.path.join(root, 'validation', 'plans', 'p.yaml'), 'w') as f:
            yaml.safe_dump(plan, f)
        sm = json.load(open(str(analyze_package(root, 'validation/plans/p.yaml'))))
        e = yaml.safe_load(open(os.path.join(root, 'manifest.yaml')))['validation']['results'][0]
        shutil.rmtree(root)
        if e['status'] == 'error':
            return dict(res='error', passed=False)
        V = sum(b['w'] * b['d'] * b['h'] for b in op['boxes'])
        ms = []
        for k in NAMES[op['check']]:
            v = e['metrics'].get(k, -999999)
            if k.startswith('centroid'):
                v *= 2 * V
            if k == 'mass_kg':
                v *= 4
            ms.append(dict(k=k, v=round(v) if abs(v - round(v)) < 1e-5 else repr(v)))
        ar = sm.get('acceptance_results', {})
        fl = [x.get('criterion') for x in sm.get('failed_criteria', [])]
        return dict(res='passed' if e['status'] == 'passed' else 'notpassed', passed=sm.get('status') == 'passed',
                    metrics=ms, each=[{True: 'yes', False: 'no'}.get(ar.get(c['k'], {}).get('passed'), 'none') for c in op['crit']],
                    failed=[c['k'] in fl for c in op['crit']])

    # --------------------------------------------------------------- schema
    def doc(self, k, f):
        seq = lambda x, one: None if x['t'] == 'none' else 'text' if x['t'] in ('notlist', 'notmap') else [one(v) for v in x['v']]
        d = {}
        if k == 'plan':
            for n in ('id', 'kind', 'backend'):
                v = f[n]
                if v != 'miss':
                    d[n] = {'empty': '', 'blank': '  ', 'num': 7, 'unhash': ['geometric'], 'ok': 'x-1', 'null': None}.get(v, v)
            g = f['geometry']
            if g != 'none':
                d['geometry'] = dict(ok=dict(source='a', entities=['x']), nosource=dict(entities=[]),
                                     enttext=dict(source='a', entities='all'), notmap=None)[g]
            c = f['check']
            if c != 'none':
                d['check'] = {'notmap': ['volume'], 'noprop': {'units': 'mm'}, 'unhash': {'property': ['volume']}}.get(c, dict(property=c))
            if f['materials'] != 'none':
                d['materials'] = {} if f['materials'] == 'ok' else ['steel']

            def crit(c):
                if not c['map']:
                    return 5
                r = {}
                if c['lim']:
                    r['limit'] = 1
                if c['cmp']:
                    r['comparison'] = ['<='] if c['cmp'] == 'unhash' else c['cmp']
                if c['tol']:
                    r['tolerance'] = .1
                return r
            a = seq(f['acc'], crit)
            if a is not None:
                d['acceptance'] = a if a == 'text' else {'m%d' % (i + 1): x for i, x in enumerate(a)}

            def item(x):
                if not x['map']:
                    return 'fixed'
                r = {n: 'q' for n, key in (('id', 'id'), ('surfaces', 'surf'), ('strategy', 'strat')) if x[key]}
                if x['type']:
                    r['type'] = ['force'] if x['type'] == 'unhash' else x['type']
                return r
            v = seq(f['loads'], item)
            if v is not None:
                d['loads'] = v
            v = seq(f['bcs'], item)
            if v is not None:
                d[f['bckey']] = v
        else:
            for n, key in (('plan_id', 'id'), ('status', 'status')):
                v = f[key]
                if v != 'miss':
                    d[n] = {'empty': '', 'blank': ' ', 'num': 7, 'unhash': ['passed'], 'ok': 'x-1'}.get(v, v)
            if f['metrics'] != 'none':
                d['metrics'] = {'a': 1} if f['metrics'] == 'ok' else [1]
            one = dict(notmap=3, empty={}, value={'value': 1}, passed={'passed': True}, ok={'value': 1, 'passed': True})
            a = seq(f['acc'], one.get)
            if a is not None:
                d['acceptance_results'] = a if a == 'text' else {'m%d' % (i + 1): x for i, x in enumerate(a)}
            v = seq(f['arts'], dict(notmap='f', nopath={'kind': 'x'}, ok={'path': 'p'}).get)
            if v is not None:
                d['artifacts'] = v
        for x in f['extra']:
            d[x] = 1
        return d

    def schema(self, s, op):
        from yapcad.package.analysis import schema as S
        k, f = op['k'], op['f']
        path = os.path.join(s['top'], 'doc.' + ('yaml' if k == 'plan' else 'json'))
        fn = S.validate_plan_file if k == 'plan' else S.validate_result_file
        if op['root'] != 'ok':
            if os.path.exists(path):
                os.remove(path)
            text = dict(gone=None, empty='', list='[]', text='"x"', broken='{"a": [')[op['root']]
            if text is not None:
                open(path, 'w').write(text)
            r = fn(path)
            return dict(valid=r.valid, locs=[], other=0)
        d = self.doc(k, f)
        if op['file']:
            with open(path, 'w') as fp:
                yaml.safe_dump(d, fp) if k == 'plan' else json.dump(d, fp)
            r = fn(path)
        else:
            r = (S.validate_plan if k == 'plan' else S.validate_result)(d)
        cnt = {}
        for j, lst in ((0, r.errors), (1, r.warnings)):
            for e in lst:
                cnt.setdefault(str(e.path), [0, 0])[j] += 1
        locs = []

        def loc(name, real):
            e, w = cnt.pop(real, [0, 0])
            locs.append(dict(l=name, e=e, w=w))
        for n in ('', 'id', 'kind', 'backend', 'geometry', 'geometry.entities', 'acceptance', 'check', 'check.property',
                  'materials', 'loads') if k == 'plan' else ('', 'status', 'plan_id', 'metrics', 'acceptance_results', 'artifacts'):
            loc([n], n)
        if k == 'plan':
            loc(['bcs'], f['bckey'])
            miss = 'miss' in (f['id'], f['kind'], f['backend'])
            early = miss or f['kind'] not in KINDS
            sim = not early and f['kind'] in KINDS[3:]
            for i in range(len(f['acc']['v']) if not early and f['acc']['t'] == 'list' else 0):
                loc(['acc', i + 1], 'acceptance.m%d' % (i + 1))
                loc(['acc.cmp', i + 1], 'acceptance.m%d.comparison' % (i + 1))
            for n, key in (('loads', 'loads'), ('bcs', f['bckey'])):
                for i in range(len(f[n]['v']) if sim and f[n]['t'] == 'list' else 0):
                    loc([n, i + 1], '%s[%d]' % (key, i))
                    loc([n + '.type', i + 1], '%s[%d].type' % (key, i))
        else:
            early = 'miss' in (f['id'], f['status'])
            for i in range(len(f['acc']['v']) if not early and f['acc']['t'] == 'list' else 0):
                loc(['ar', i + 1], 'acceptance_results.m%d' % (i + 1))
            for i in range(len(f['arts']['v']) if not early and f['arts']['t'] == 'list' else 0):
                loc(['artifact', i + 1], 'artifacts[%d]' % i)
        for x in f['extra'] if not early else ():
            loc([x], x)
        return dict(valid=r.valid, locs=locs, other=sum(map(sum, cnt.values())))

    def apply(self, s, op):
        try:
            return getattr(self, {'plan': 'schema', 'result': 'schema'}.get(op['k'], op['k']))(s, op)
        except Exception as e:
            return dict(res=exc(e), msg=str(e)[:150])


KINDS = ['geometric', 'measurement', 'assembly', 'structural', 'thermal', 'cfd', 'multiphysics']
NAMES = dict(volume=['volume', 'volume_mm3', 'part_count'], area=['area', 'area_mm2', 'part_count'],
             bbox=['bbox.xmin', 'bbox.xmax', 'bbox.ymin', 'bbox.ymax', 'bbox.zmin', 'bbox.zmax', 'bbox.width', 'bbox.depth',
                   'bbox.height', 'bbox.x_mm', 'bbox.y_mm', 'bbox.z_mm', 'part_count'],
             mass=['volume_mm3', 'mass_kg', 'part_count'], centroid=['centroid.x', 'centroid.y', 'centroid.z', 'part_count'])
SPELL = {'bbox_width': 'bbox.width', 'bbox_height': 'bbox.height', 'volume.mm3': 'volume_mm3', 'mass.kg': 'mass_kg',
         'part.count': 'part_count', 'centroid_x': 'centroid.x', 'area.mm2': 'area_mm2'}


def record_ops(rng, n):
    ids = ['p1', 'P1', 'p1-hot', 'plan', 'bulk-fea', 'v2']
    rng.shuffle(ids)
    R0 = dict(status='passed', backend='', metrics=[], arts=[], notes='', path='summary.json', mark='', own=False)
    R0['raise'] = False
    for _ in range(n):
        p = dict(id=rng.choice(ids[:4]), kind=rng.choice(['geometric', 'structural']),
                 backend=rng.choice(['fake', 'FAKE', 'Fake', 'nosuch', 'abaqus']), mode=rng.choice(['local', 'local', 'remote']))
        p['path'] = 'validation/plans/' + rng.choice([p['id'], p['id'] + '-v2']) + '.yaml'
        r = dict(R0, status=rng.choice(['passed', 'failed', 'error', 'skipped', 'pending']), backend=rng.choice(['', '', 'Solver-9']),
                 metrics=[dict(k=k, v=rng.randint(0, 9)) for k in ('a', 'stress.max')[:rng.choice([0, 1, 2])]],
                 arts=['model.inp', 'run.log'][:rng.choice([0, 0, 1, 2])], notes=rng.choice(['', '', 'converged']),
                 path=rng.choice(['summary.json'] * 3 + ['report.json']), mark=rng.choice(['', 'own']), own=rng.random() < .3)
        r['raise'] = rng.random() < .08
        yield dict(k='analyze', p=p, r=r, arg=rng.choice(['pending', 'skipped', 'passed']), explicit=rng.random() < .5,
                   bad=rng.choice([''] * 9 + ['id', 'kind', 'backend', 'list', 'missing', 'climb']), how=rng.choice(['abs', 'rel', 'inside']),
                   planabs=rng.random() < .25, cli=rng.random() < .25, lax=False)


def accept_op(rng):
    c = rng.choice(['bbox', 'bbox', 'volume', 'area', 'mass', 'centroid'] * 4 + ['clearance', 'colour'])
    bs = [dict(x=rng.randint(-6, 6), y=rng.randint(-6, 6), z=rng.randint(-6, 6), w=rng.randint(1, 6), d=rng.randint(1, 6),
               h=rng.randint(1, 6)) for _ in range(rng.choice([0] + [1] * 6 + [2] * 5 + [3] * 3))]
    op = dict(k='accept', boxes=bs, check=c, rho=rng.choice([1, 2, 4]), crit=[], backend=rng.choice(['yapcad', 'yapCAD', 'yapcad-native']))
    V = sum(b['w'] * b['d'] * b['h'] for b in bs)
    A = sum(2 * (b['w'] * b['d'] + b['d'] * b['h'] + b['w'] * b['h']) for b in bs)
    val = {'volume': V, 'volume_mm3': V, 'area': A, 'area_mm2': A, 'mass_kg': V * op['rho'] / 4, 'part_count': len(bs)}
    for ax, e in zip('xyz', 'wdh'):
        val['centroid.' + ax] = sum(b['w'] * b['d'] * b['h'] * (b[ax] + b[e] / 2) for b in bs) / V if V else 0
        lo, hi = min([b[ax] for b in bs] or [0]), max([b[ax] + b[e] for b in bs] or [0])
        val['bbox.%smin' % ax], val['bbox.%smax' % ax], val['bbox.%s_mm' % ax] = lo, hi, hi - lo
        val['bbox.' + dict(x='width', y='depth', z='height')[ax]] = hi - lo
    names = NAMES.get(c, ['volume'])
    keys = set()
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        k = rng.choice(names + [a for a, b in SPELL.items() if b in names] * 2 + (['nothing', 'stress.max'] if rng.random() < .5 else []))
        if k in keys:
            continue
        keys.add(k)
        v = val.get(SPELL.get(k, k), 3)
        cr = dict(k=k, has=rng.random() > .06, lim=round(v * 4) + rng.choice([0, 0, 0, 1, -1, 2, -2, 9, -9]),
                  cmp=rng.choice(['<=', '<', '>=', '>', '==', '~=', ''] * 4 + ['!=', 'le']), tol=rng.choice([0, 0, 1, 2]),
                  how=rng.choice(['float', 'int', 'str']))
        exact = SPELL.get(k, k) == 'part_count'       # mesh coordinates carry rounding noise
        if not exact and min(abs(abs(v - cr['lim'] / 4) - t) for t in (0, cr['tol'] / 4)) < 1e-3:
            cr['lim'] += rng.choice([13, -13])
        if c == 'mass' and SPELL.get(k, k) == 'volume_mm3' and cr['lim'] % 4 == 0:
            cr['lim'] += 1
        op['crit'].append(cr)
    return op


def plan_op(rng):
    pick = lambda good, bad, p=.12: rng.choice(bad) if rng.random() < p else rng.choice(good)
    kind = pick(KINDS, ['miss', 'bad', 'unhash', 'Geometric', 'null'], .08)
    crit = lambda: dict(map=rng.random() > .08, lim=rng.random() > .1, tol=rng.random() < .5,
                        cmp=pick(['', '<=', '>=', '<', '>', '==', '~=', '~='], ['!=', 'unhash', '=<'], .15))

    def item(types):
        return dict(map=rng.random() > .08, type=pick(types, ['', 'unhash', 'glue', 'cyclic']), id=rng.random() < .6,
                    surf=rng.random() < .5, strat=rng.random() < .3)
    lst = lambda one, kinds=('none', 'none', 'list', 'list', 'list', 'notlist'): dict(t=rng.choice(kinds), v=[one() for _ in range(rng.randint(0, 3))])
    from_checks = ['volume', 'area', 'bbox', 'centroid', 'distance', 'clearance', 'dimension', 'mass', 'moment', 'interference',
                   'fit', 'alignment']
    own = dict(geometric=from_checks[:6], measurement=['dimension', 'mass', 'centroid', 'moment'],
               assembly=['interference', 'fit', 'alignment', 'clearance'])
    f = dict(id=pick(['ok'], ['miss', 'empty', 'blank', 'num']), kind=kind, backend=pick(['ok'], ['miss', 'empty', 'blank', 'num']),
             geometry=pick(['none', 'ok', 'nosource'], ['enttext', 'notmap']),
             check=pick(own.get(kind, ['none', 'none', 'volume']), ['none', 'notmap', 'noprop', 'unhash', 'weight'] + from_checks, .3),
             acc=lst(crit, ('none', 'list', 'list', 'list', 'notmap')), materials=pick(['none', 'ok', 'ok'], ['notmap']),
             loads=lst(lambda: item(['pressure', 'force', 'moment', 'gravity', 'thermal', 'displacement'])),
             bcs=lst(lambda: item(['fixed', 'pinned', 'roller', 'spring', 'symmetry', 'thermal'])),
             bckey=rng.choice(['boundaryConditions', 'boundary_conditions']),
             extra=rng.sample(['name', 'description', 'execution', 'metadata', 'attachments', 'backendOptions', 'faceNaming',
                               'zzz', 'Materials', 'x-y'], rng.choice([0, 0, 1, 2, 4])))
    return dict(k='plan', f=f, root='ok' if rng.random() > .06 else rng.choice(['gone', 'empty', 'list', 'text', 'broken']),
                file=rng.random() < .3)


def result_op(rng):
    pick = lambda good, bad, p=.15: rng.choice(bad) if rng.random() < p else rng.choice(good)
    lst = lambda vals, kinds: dict(t=rng.choice(kinds), v=[rng.choice(vals) for _ in range(rng.randint(0, 3))])
    f = dict(id=pick(['ok'], ['miss', 'empty', 'blank', 'num']),
             status=pick(['passed', 'failed', 'error', 'skipped', 'pending'], ['miss', 'ok', 'unhash', 'num', 'Passed']),
             metrics=pick(['none', 'ok'], ['notmap']), acc=lst(['notmap', 'empty', 'value', 'passed', 'ok', 'ok'], ('none', 'list', 'list', 'notmap')),
             arts=lst(['notmap', 'nopath', 'ok', 'ok'], ('none', 'list', 'list', 'notlist')),
             extra=rng.sample(['timestamp', 'backend', 'backend_version', 'execution_time_s', 'errors', 'warnings', 'notes', 'zzz', 'plan'],
                              rng.choice([0, 1, 2, 4])))
    return dict(k='result', f=f, root='ok' if rng.random() > .06 else rng.choice(['gone', 'empty', 'list', 'text', 'broken']),
                file=rng.random() < .3)


def record_check(ctx):
    a = Ana(ctx.scratch)
    tr = [a.record('r%d' % i, dict(section=ctx.rng.random() < .5), record_ops(ctx.rng, 12)) for i in range(ctx.n(60, 600))]
    ctx.report_bads(ctx.validate('AnaTrace', tr), tr, 'analysis run')


def verdict_check(ctx):
    a = Ana(ctx.scratch)
    tr = [a.record('v%d' % i, dict(section=False), [accept_op(ctx.rng) for _ in range(6)]) for i in range(ctx.n(60, 600))]
    tr += [a.record('s%d' % i, dict(section=False), [(plan_op if ctx.rng.random() < .7 else result_op)(ctx.rng) for _ in range(40)])
           for i in range(ctx.n(100, 1500))]
    ctx.report_bads(ctx.validate('AnaTrace', tr), tr, 'validation verdict')
