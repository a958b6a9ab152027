"""Datum registry: binds Reg.tla to yapcad.assembly.datum_registry."""
import json, logging, os, shutil
from ..core import Area, exc

TY = ['point', 'axis', 'plane', 'circle', 'frame']
BADS = [lambda e: dict(e, type='BOLT'), lambda e: dict(e, type='PLANE', normal=None), lambda e: dict(e, type='AXIS', direction=[0, 0, 0]),
        lambda e: 5, lambda e: dict(e, type='CIRCLE', normal=[0, 0, 1], radius=-1), lambda e: dict(e, type='FRAME', x_axis=[1, 0, 0], y_axis=None),
        lambda e: None, lambda e: ['PLANE'], lambda e: dict(e, type=7)]


PAIRS = [((0, 0, 1), (1, 0, 0)), ((3, 4, 0), (-4, 3, 0)), ((2, -1, 2), (2, 2, -1)), ((-1, 0, 0), (0, 1, 0)), ((2, 3, 6), (3, -6, 2)), ((0, -3, 4), (1, 0, 0))]


def vecs(m):
    k = 1 + m % 3
    return [[c * k for c in v] for v in PAIRS[m % 6]]


def long(v, w, m):
    return [float(c) for c in v] + ([float(w)] if m % 4 else [])


def entry(d):
    m = d['mark']
    v, w = vecs(m)
    e = dict(type=d['ty'].upper() if m % 2 else d['ty'], origin=long([m, -2 * m, 3], 1, m // 2), description='d%d' % m)
    if d['ty'] == 'axis':
        e['direction'] = long(v, 0, m)
    if d['ty'] in ('plane', 'circle'):
        e['normal'] = long(v, 0, m)
    if d['ty'] == 'circle':
        e['radius'] = m
    if d['ty'] == 'frame':
        e['x_axis'], e['y_axis'] = long(v, 0, m), long(w, 0, m // 3)
    if d['ty'] == 'point' and m % 2:
        del e['type']
    return e if d['good'] else BADS[m % len(BADS)](e)


def datum(d):
    from yapcad.assembly.datum import Datum, DatumType
    m = d['mark']
    v, w = [[float(c) for c in x] + [0.0] for x in vecs(m)]
    kw = dict(axis=dict(direction=v), plane=dict(normal=v), circle=dict(normal=v, radius=float(m)),
              frame=dict(x_axis=v, y_axis=w)).get(d['ty'], {})
    return Datum(d['n'], DatumType(d['ty']), [float(m), -2.0 * m, 3.0, 1.0], description='d%d' % m, **kw)


def summary(name, x):
    m = int(x.origin[0])
    v, w = [c + [0] for c in vecs(m)]
    t = x.datum_type.value
    want = dict(point={}, axis=dict(direction=v), plane=dict(normal=v), circle=dict(normal=v, radius=m), frame=dict(x_axis=v, y_axis=w))[t]
    okv = all(getattr(x, k) == want.get(k) for k in ('direction', 'normal', 'radius', 'x_axis', 'y_axis')) and x.description == 'd%d' % m
    return dict(n=x.name if x.name == name else 'misnamed', ty=t, mark=m if okv and list(x.origin) == [m, -2 * m, 3, 1] else -1)


def frame(x):
    """The frame of a datum: origin, the axis it names (in 105ths), for frames also the others, and whether it is square."""
    from yapcad.assembly.datum_registry import datum_to_transform_matrix
    import numpy as np
    M = np.array(datum_to_transform_matrix(x))
    c = lambda i: [int(round(y)) if abs(y - round(y)) < 1e-6 else 'off' for y in (M[:3, i] * 105).tolist()]
    R = M[:3, :3]
    return dict(o=[int(y) for y in M[:3, 3]], z=c(2), x=c(0) if x.datum_type.value in ('frame', 'point') else [],
                square=bool(np.allclose(R.T @ R, np.eye(3)) and np.linalg.det(R) > 0 and M[3].tolist() == [0, 0, 0, 1]))


class Reg(Area):
    def __init__(self, scratch):
        logging.getLogger('yapcad').setLevel(logging.CRITICAL + 1)
        self.scratch = scratch

    def new(self, init):
        from yapcad.assembly.datum_registry import DatumRegistry
        DatumRegistry.clear()
        base = os.path.join(self.scratch, 'reg')
        shutil.rmtree(base, ignore_errors=True)
        for p in ('p', 'q', 'lib.dsl'):
            os.makedirs(os.path.join(base, p))
        DatumRegistry._get_instance()._search_paths[:] = []
        for p in init['paths']:
            DatumRegistry.add_search_path(os.path.join(base, p))
        return dict(base=base)

    def close(self, s):
        from yapcad.assembly.datum_registry import DatumRegistry
        DatumRegistry.clear()
        shutil.rmtree(s['base'], ignore_errors=True)

    def apply(self, s, op):
        try:
            return self._apply(s, op)
        except Exception as e:
            return dict(res=exc(e))

    def _apply(self, s, op):
        from yapcad.assembly.datum_registry import DatumRegistry as R
        from yapcad.assembly.datum import PartDefinition
        k = op['k']
        if k == 'write':
            f = op['f']
            doc = {'datums': {d['n']: entry(d) for d in f['ds']}, 'manufacturer': 'x'}
            if f['pn']:
                doc['part_name'] = f['pn']
            t = json.dumps(doc)
            if not f['ok']:
                t = ['', t[:-3], json.dumps([doc]), '5', '{"datums": [1]}', '\xff{'][op['bad']]
            with open(os.path.join(s['base'], op['n']), 'w', encoding='latin-1') as fp:
                fp.write(t)
            return dict(res='ok')
        if k == 'path':
            R.add_search_path(os.path.join(s['base'], op['n']))
            return dict(res='ok')
        if k == 'source':
            ds = {d['n']: datum(d) for d in op['ds']}
            R.register_source(op['n'], ds)
            ds['late'] = None
            return dict(res='ok')
        if k == 'part':
            p = PartDefinition(op['n'])
            for d in op['ds']:
                p.add_datum(datum(d))
            R.register_part(p)
            return dict(res='ok')
        if k == 'one':
            R.register_datum(op['n'], datum(op['d']))
            return dict(res='ok')
        if k == 'get':
            d = R.get_datum(op['n'], op['d'])
            x = summary(op['d'], d)
            return dict(res='ok', ty=x['ty'], mark=x['mark'], fr=frame(d))
        if k == 'table':
            t = R.get_datums_for_source(op['n'])
            r = dict(res='ok', ds=[summary(n, x) for n, x in t.items()])
            t['late'] = None
            return r
        if k == 'list':
            return dict(res='ok', ds=R.list_datums(op['n']))
        if k == 'sources':
            t = R.list_sources()
            r = dict(res='ok', ns=list(t))
            t.append('late')
            return r
        if k == 'clear':
            R.clear()
            return dict(res='ok')
        raise ValueError(k)


def reg_ops(rng, init, n):
    files = ['s1.json', 's2.json', 's3.json', 'p1.dsl', 'p2.dsl', 'p1.datums.json', 'p2.datums.json']
    pns = {'s1.json': 'P1', 's2.json': 'P2', 's3.json': '', 'p1.datums.json': 'P3', 'p2.datums.json': ''}
    live = set()
    mark = [0]

    def gd():
        mark[0] += 1
        return dict(n='d%d' % rng.randint(0, 4), ty=rng.choice(TY), mark=mark[0], good=rng.random() > .15)

    def gds(prog=False):
        out = {}
        for _ in range(rng.randint(0, 4)):
            d = gd()
            if prog:
                d.pop('good')
            out[d['n']] = d
        return list(out.values())
    names = ['s1.json', 's2.json', 's3.json', 'p1.dsl', 'p2.dsl', 'P1', 'P2', 'P3', 'A', 'B', 'C', 'none']
    for i in range(n):
        r = rng.random()
        if r < .22:
            f = rng.choice(files)
            yield dict(k='write', n=rng.choice(['p', 'q', 'lib.dsl']) + '/' + f, f=dict(ok=rng.random() > .12, pn=pns.get(f, ''), ds=gds()), bad=rng.randint(0, 5))
        elif r < .27:
            yield dict(k='path', n=rng.choice(['p', 'q', 'lib.dsl']))
        elif r < .37:
            nm = rng.choice(['A', 'B', 'C'])
            yield dict(k=rng.choice(['source', 'part']), n=nm, ds=gds(True))
        elif r < .46:
            d = gd()
            d.pop('good')
            yield dict(k='one', n=rng.choice(['A', 'B', 'C']), d=d)
        elif r < .70:
            yield dict(k='get', n=rng.choice(names), d='d%d' % rng.randint(0, 4))
        elif r < .84:
            yield dict(k='table', n=rng.choice(names))
        elif r < .92:
            yield dict(k='list', n=rng.choice(names))
        elif r < .97:
            yield dict(k='sources')
        else:
            yield dict(k='clear')


def reg_check(ctx):
    ctx.model_check('RegMC', ['InvGood', 'InvTwice', 'InvOthers', 'InvTrace', 'InvAgree'], consts=dict(Depth=ctx.n(4, 5)), workers=6)
    a = Reg(ctx.scratch)
    a.replay(ctx, ctx.generate('RegMC', consts=dict(Depth=12), simulate=ctx.n(200, 3000), depth=12), 'generated')
    tr = []
    for i in range(ctx.n(400, 5000)):
        init = dict(paths=ctx.rng.sample(['p', 'q', 'lib.dsl'], ctx.rng.randint(0, 3)))
        tr.append(a.record('r%d' % i, init, reg_ops(ctx.rng, init, ctx.rng.randint(8, 40))))
    ctx.report_bads(ctx.validate('RegTrace', tr, workers=6), tr, 'registry history')
    ctx.assumptions += ['files are found along the search paths only; part names of files, file names and names used by programs are different',
                        'a file is not changed back and forth between being registered by a program and loaded']
