"""Assembly operation resolvers: binds Ops.tla to yapcad.assembly.resolver."""
import copy, logging, os, re
from unittest import mock
from ..core import Area, exc

NAMES = ['ta', 'tb', 'tc', 'ca', 'cb', 'cc', 'cd']
WORD = re.compile(r'\b(%s)\b' % '|'.join(NAMES))


def cells(op):
    r = list(range(op['lo'], op['hi']))
    return r + [8 + i for i in r] if op['wide'] else r


def meta(op):
    from yapcad import metadata as M
    o = op['o']
    m = {'schema': 'metadata-namespace-v1.1', 'tags': ['x']} if op['via'] != 'bare' else {}
    if not o['kind']:
        return m
    if op['via'] == 'api':
        M.set_operation(m, kind=o['kind'], target_filter=o['tf'] or None, priority=None if o['pr'] < 0 else o['pr'],
                        consume={'y': True, 'n': False}.get(o['co']), policy=None if o['po'] == '-' else o['po'],
                        stage=None if o['st'] == '-' else o['st'])
        return m
    d = dict(kind=o['kind'])
    if o['tf'] or op['lo'] % 2:
        d['target_filter'] = list(o['tf'])
    if o['pr'] >= 0:
        d['priority'] = o['pr']
    if o['co'] != '-':
        d['consume'] = o['co'] == 'y'
    if o['po'] != '-':
        d['policy'] = o['po']
    if o['st'] != '-':
        d['stage'] = o['st']
    m['operation'] = d
    return m


class Ops(Area):
    def __init__(self, scratch):
        logging.getLogger('yapcad').setLevel(logging.CRITICAL + 1)

    def new(self, init):
        return dict(ps={}, fails=[], res={})

    def close(self, s):
        pass

    def apply(self, s, op):
        try:
            return self._apply(s, op)
        except Exception as e:
            return dict(res=exc(e))

    def _resolver(self, op):
        from yapcad.assembly import resolver as R
        if op['how'] == 'basic':
            return R.BasicResolver()
        if op['how'] == 'staged':
            return R.StagedResolver(op['stages'])
        return None

    def _apply(self, s, op):
        from yapcad.assembly import resolver as R
        k = op['k']
        if k == 'put':
            s['ps'][op['n']] = dict(g=set(cells(op)) if op['geo'] else None, m=meta(op), op=op)
            return dict(res='ok')
        if k == 'fail':
            s['fails'] = op['ns']
            return dict(res='ok')
        if k == 'feed':
            for n in list(s['ps']):
                p = s['ps'][n]
                if n not in s['res'] or p['g'] is None:
                    del s['ps'][n]
                else:
                    p['g'] = set(s['res'][n])
                    p['m'].pop('operation', None)
            s['res'] = {}
            return dict(res='ok')
        if k == 'bad':
            with mock.patch.dict(os.environ, YAPCAD_ASSEMBLY_RESOLVER=op['env']):
                if op['how'] == 'stages':
                    R.StagedResolver([])
                elif op['how'] == 'kin':
                    R.KinematicResolver()
                else:
                    R.resolve_assembly({}, {})
            return dict(res='ok')
        if k == 'run':
            return self._real(s, op) if op['real'] else self._run(s, op)
        raise ValueError(k)

    def _run(self, s, op):
        from yapcad.assembly import resolver as R
        parts = {n: frozenset(p['g']) for n, p in s['ps'].items() if p['g'] is not None}
        names = {}
        geo = {n: ('geo', n, g) for n, g in parts.items()}
        engines = []

        def boolean(a, b, kind, engine=None, *_, **kw):
            engines.append(engine)
            if b[1] in s['fails']:
                raise RuntimeError('kernel said no')
            f = dict(subtract=lambda x, y: x - y, intersect=lambda x, y: x & y, union=lambda x, y: x | y)[kind]
            return ('geo', a[1], f(a[2], b[2]))
        with mock.patch.object(R.AssemblyResolver, '_apply_boolean', staticmethod(boolean)):
            return self._report(s, op, geo, 'Q', lambda g: sorted(g[2]), engines)

    def _report(self, s, op, geo, engine, show, engines):
        from yapcad.assembly import resolver as R
        metas = {n: p['m'] for n, p in s['ps'].items()}
        before = (copy.deepcopy(geo), copy.deepcopy(metas))
        if op['how'] == 'env':
            with mock.patch.dict(os.environ, YAPCAD_ASSEMBLY_RESOLVER='Basic'):
                r = R.resolve_assembly(geo, metas, boolean_engine=engine)
        elif op['how'] == 'basic' and len(geo) % 2:
            r = R.BasicResolver().resolve(geo, metas, boolean_engine=engine)
        else:
            r = R.resolve_assembly(geo, metas, resolver=self._resolver(op), boolean_engine=engine)
        kept = (geo, metas) == before
        order = [n for n in s['ps'] if n in r.parts] + [n for n in r.parts if n not in s['ps']]
        named = lambda t: [x for i, x in enumerate(WORD.findall(t)) if x not in WORD.findall(t)[:i]]
        cutter = lambda t: named(t)[0] if named(t) else t[:40]
        ps = [dict(n=n if r.parts[n].part_id == n else 'misnamed', g=show(r.parts[n].geometry), ap=list(r.parts[n].applied_operations), re=list(r.parts[n].retained_cutters),
                   wa=[cutter(t) for t in r.parts[n].warnings], er=[cutter(t) for t in r.parts[n].errors]) for n in order]
        lg = [named(t) for t in r.execution_log if len(named(t)) == 2]
        s['res'] = {n: r.parts[n].geometry[2] for n in r.parts} if not op['real'] else s['res']
        if op['real']:
            s['res'] = {}
        return dict(res='ok', ps=ps, good=r.success, er=[named(t) for t in r.errors], lg=lg, engine=all(e == engine for e in engines), kept=kept)

    def _real(self, s, op):
        from yapcad.geom3d_util import prism
        from yapcad.geom import point

        def solid(p):
            q = p['op']
            w = 20.0 if q['wide'] else 10.0
            return prism(10.0 * (q['hi'] - q['lo']), w, w, center=point(5.0 * (q['lo'] + q['hi']), 0, 0))
        geo = {n: solid(p) for n, p in s['ps'].items() if p['g'] is not None}
        def vol(g):
            t = 0
            for sf in g[1]:
                for a, b, c in sf[3]:
                    p, q, r = sf[1][a], sf[1][b], sf[1][c]
                    t += p[0] * (q[1] * r[2] - q[2] * r[1]) - p[1] * (q[0] * r[2] - q[2] * r[0]) + p[2] * (q[0] * r[1] - q[1] * r[0])
            return t / 6000
        return self._report(s, op, geo, 'trimesh', lambda g: [round(vol(g)) if abs(vol(g) - round(vol(g))) < 1e-3 else round(vol(g), 3)], [])


def ops_ops(rng, init, n, real=False):
    ts, cs = ['ta', 'tb', 'tc'], ['ca', 'cb', 'cc', 'cd']
    storm = not real and rng.random() < .25          # failures and warnings wherever one looks
    none = dict(kind='', tf=[], pr=-1, co='-', po='-', st='-')
    fed = [False]
    changed = [True]

    def put(nm, cut):
        lo = rng.randint(0, 5)
        hi = rng.randint(lo + 1, 8) if not cut or rng.random() < .5 else lo + 1
        if not cut and rng.random() < .5:
            lo, hi = 0, 8
        o = none
        if cut:
            tf = [] if rng.random() < .03 else rng.sample(ts + ['none'] + (cs if not real else []), rng.randint(1, 3))
            tf = [t for t in tf if t != nm] or ([] if rng.random() < .1 else ['ta'])
            if rng.random() < .04:
                tf = tf + tf[:1]
            o = dict(kind=rng.choice(['subtract', 'subtract', 'union', 'intersect']), tf=tf, pr=rng.choice([-1, -1, 0, 10, 49, 50, 51, 90]),
                     co=rng.choice(['-', 'y', 'n']), po=rng.choice(['warn', 'warn', 'strict']) if storm else rng.choice(['-', 'strict', 'warn', 'ignore']), st=rng.choice(['-', 's1', 's2', 's3']))
        return dict(k='put', n=nm, geo=real or rng.random() > .08, lo=lo, hi=hi, wide=cut and rng.random() < .6 if not real else cut, o=o,
                    via=rng.choice(['api', 'raw', 'bare']))
    first = True
    for nm in rng.sample(ts, rng.randint(1, 3)) + rng.sample(cs, rng.randint(1, 4)):
        yield put(nm, nm[0] == 'c' and rng.random() > .05)
    for i in range(n):
        r = rng.random()
        if r < .35:
            nm = rng.choice(ts + cs)
            yield put(nm, nm[0] == 'c')
        elif r < .42 and not real:
            yield dict(k='fail', ns=rng.sample(cs, rng.randint(2, 4) if storm else rng.randint(0, 2)))
        elif r < .46:
            yield rng.choice([dict(k='bad', how='stages', env='basic', e='exc:ValueError'), dict(k='bad', how='kin', env='basic', e='exc:NotImplementedError'),
                              dict(k='bad', how='env', env='staged', e='exc:ValueError'), dict(k='bad', how='env', env='none', e='exc:ValueError')])
        else:
            how = rng.choice(['basic', 'env', 'staged', 'staged'])
            yield dict(k='run', how=how, stages=rng.sample(['s1', 's2', 's3'], rng.randint(1, 3)) if how == 'staged' else [], real=real)
            if not real and rng.random() < .25:
                yield dict(k='feed')


def ops_check(ctx):
    ctx.model_check('OpsMC', ['InvKept', 'InvAlone', 'InvOne', 'InvOrder', 'InvCount', 'InvDone'], consts=dict(Depth=ctx.n(4, 5)), workers=6)
    a = Ops(ctx.scratch)
    a.replay(ctx, ctx.generate('OpsMC', consts=dict(Depth=10), simulate=ctx.n(300, 3000), depth=10), 'generated')
    tr = [a.record('o%d' % i, {}, ops_ops(ctx.rng, {}, ctx.rng.randint(4, 14))) for i in range(ctx.n(500, 6000))]
    tr += [a.record('s%d' % i, {}, ops_ops(ctx.rng, {}, ctx.rng.randint(1, 2), True)) for i in range(ctx.n(12, 60))]
    ctx.report_bads(ctx.validate('OpsTrace', tr, workers=6), tr, 'resolver history')
    ctx.assumptions += ['the boolean kernel is a stand-in over sets of cells that can fail, except in the histories with real boxes, which compare volumes',
                        'the declared check that a cut goes all the way through is not implemented in the code and is not judged']
