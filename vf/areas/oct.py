"""Spatial index: binds Oct.tla to yapcad.octtree.NTree, boxoverlap2 and geom3d.surface_octree."""
import math
from ..core import Area, exc


def pt(v):
    from yapcad.geom import point
    return point(*[x / 2 for x in v])


def hull(ps):
    return [min(p[i] for p in ps) for i in range(3)], [max(p[i] for p in ps) for i in range(3)]


class Oct(Area):
    def geo(self, e):
        """geometry of the wanted shape with box e.lo .. e.hi"""
        p = [pt(x) for x in e['pts']]
        sh = e['shape']
        if sh == 'closed':
            return p + [list(p[0])]
        if sh == 'nested':
            return [[p[i], p[i + 1]] for i in range(len(p) - 1)]
        return p

    def new(self, init):
        from yapcad.octtree import NTree
        given = [self.geo(e) if e['tag'] == '' else (self.geo(e), e['tag']) for e in init['els']]
        kw = dict(n=init['n'])
        for k in ('mindim', 'maxdepth'):
            if init[k]:
                kw[k] = init[k] / 4 if k == 'mindim' else init[k]
        if given or init['pass']:
            kw['geom'] = given
        if init['center']:
            kw['center'] = pt(init['center'][0])
        s = dict(given=given, n0=len(given), all=list(given), t=NTree(**kw))
        vs, fs = [], []
        for tri in init['tris']:
            fs.append([len(vs) + i for i in range(3)])
            vs += [pt(v) for v in tri]
        from yapcad.geom import point
        s['m'] = ['surface', vs, [point(0, 0, 1) for _ in vs], fs, [], []]
        return s

    def apply(self, s, op):
        try:
            return self._apply(s, op)
        except Exception as e:
            return dict(res=exc(e))

    def ident(self, found, pool):
        left, out = list(range(len(pool))), []
        for x in found:
            i = next((i for i in left if pool[i] is x), None)
            if i is None:
                i = next((i for i in left if pool[i] == x), None)
            if i is None:
                out.append(dict(i=0, tag='?'))
            else:
                left.remove(i)
                out.append(dict(i=i + 1, tag=x[1] if isinstance(x, tuple) else ''))
        return sorted(out, key=lambda h: h['i'])

    def _apply(self, s, op):
        from yapcad.octtree import NTree, boxoverlap2
        from yapcad import geom3d as g3
        from yapcad.geom import point
        k, t = op['k'], s['t']
        if k == 'add':
            e = op['e']
            g = self.geo(e)
            if e['tag'] == '':
                t.addElement(g)
            else:
                t.addElement(g, e['tag']) if op['pos'] else t.addElement(g, tag=e['tag'])
            s['all'].append(g if e['tag'] == '' else (g, e['tag']))
            return dict(res='ok')
        if k == 'center':
            t.updateCenter(pt(op['c'][0])) if op['c'] else t.updateCenter()
            return dict(res='ok')
        if k == 'limits':
            if op['what'] == 'mindim':
                t.mindim = op['v'] / 4
            else:
                t.maxdepth = op['v']
            return dict(res='ok')
        if k == 'bad':
            w = op['what']
            [lambda: t.addElement(5), lambda: t.addElement([[point(0, 0), 'x']]), lambda: NTree(n=6), lambda: NTree(n=8, geom=[5]), lambda: setattr(t, 'mindim', 0),
             lambda: setattr(t, 'maxdepth', 0), lambda: setattr(t, 'depth', 3), lambda: NTree(n=4, maxdepth=-1), lambda: NTree(n=4, mindim=-2),
             lambda: NTree(n=8, center=5)][w]()
            return dict(res='ok')
        if k == 'query':
            return dict(res='ok', hits=self.ident(t.getElements([pt(op['q']['lo']), pt(op['q']['hi'])]), s['all']))
        if k == 'given':
            return dict(res='ok', len=len(s['given']))
        if k == 'overlap':
            A, B = [[pt(op[x]['lo']), pt(op[x]['hi'])] for x in 'ab']
            return dict(res='ok', yes=boxoverlap2(A, B, dim3=op['n'] == 3))
        m = s['m']
        if k == 'mquery':
            tree = g3.surface_octree(m)
            hits = [] if tree is None else tree.getElements([pt(op['q']['lo']), pt(op['q']['hi'])])
            return dict(res='ok', hits=self.ident(hits, [[m[1][i] for i in f] for f in m[3]]))
        old = m
        if k == 'move':
            s['m'] = g3.translatesurface(m, point(*[x / 2 for x in op['d']]))
        elif k == 'turn':
            s['m'] = g3.rotatesurface(m, 90)
        elif k == 'flip':
            s['m'] = g3.mirrorsurface(m, {1: 'yz', 2: 'xz', 3: 'xy'}[op['a']])
        elif k == 'grow':
            s['m'] = g3.scalesurface(m, float(op['f']))
        if k in ('move', 'turn', 'flip', 'grow') and op['snap']:
            for v in s['m'][1]:
                for i in range(3):
                    v[i] = round(v[i] * 2) / 2
        return dict(res='ok')


def gel(rng, span, flat, tag):
    sh = rng.choice(['line', 'tri', 'open', 'closed', 'nested'])
    n = dict(line=2, tri=3, open=rng.randint(3, 5), closed=rng.randint(3, 4), nested=rng.randint(3, 4))[sh]
    c = [rng.randint(-span, span) for _ in range(3)]
    r = rng.choice([1, 2, 3, span])
    while True:
        p = [[x + rng.randint(-r, r) for x in c] for _ in range(n)]
        if flat:
            for x in p:
                x[2] = flat - 1
        if all(p[i] != p[i + 1] for i in range(n - 1)) and p[0] != p[-1]:
            break
    lo, hi = hull(p)
    return dict(shape=sh, pts=p, lo=lo, hi=hi, tag=tag)


def gbox(rng, span, deg=.3):
    lo = [rng.randint(-span - 2, span + 2) for _ in range(3)]
    return dict(lo=lo, hi=[x + (0 if rng.random() < deg else rng.randint(1, rng.choice([2, 4, 2 * span]))) for x in lo])


def ginit(rng):
    n = rng.choice([4, 8])
    span = rng.choice([3, 8, 20, 60])
    flat = rng.choice([0, 0, 1, 3]) if n == 8 else rng.choice([0, 1, 1, 3])
    tg = iter(range(10 ** 6))

    def tag():
        return '' if rng.random() < .6 else [next(tg) % 3, 'tag%d' % next(tg)][rng.random() < .5]
    els = [gel(rng, span, flat, tag()) for _ in range(rng.choice([0, 0, 1, 5, 12, 30, 80]))]
    tris = []
    for _ in range(rng.choice([0, 1, 6, 20, 50])):
        while True:
            e = gel(rng, span, 0, '')
            if e['shape'] == 'tri':
                break
        tris.append(e)
    init = dict(n=n, els=els, mesh=[dict(lo=e['lo'], hi=e['hi'], tag='') for e in tris], tris=[e['pts'] for e in tris], center=[],
                mindim=rng.choice([0, 0, 1, 2, 4, 40]), maxdepth=rng.choice([0, 0, 1, 3, 12]))
    init['pass'] = rng.random() < .5
    if els and rng.random() < .3:
        init['center'] = [inside(rng, els)]
    return init, span, flat, tag


def inside(rng, els):
    lo, hi = hull([e['lo'] for e in els] + [e['hi'] for e in els])
    return [rng.randint(a, b) for a, b in zip(lo, hi)]


def oct_ops(rng, init, span, flat, tag, n):
    els = list(init['els'])
    size = 1
    for _ in range(n):
        r = rng.random()
        if r < .25:
            for _ in range(rng.choice([1, 1, 2, 12])):
                e = gel(rng, span, flat, tag())
                els.append(e)
                yield dict(k='add', e=e, pos=rng.random() < .5)
        elif r < .32:
            yield dict(k='center', c=[inside(rng, els)] if els and rng.random() < .6 else [])
        elif r < .37:
            yield dict(k='limits', what=rng.choice(['mindim', 'maxdepth']), v=rng.randint(1, 9))
        elif r < .40:
            yield dict(k='bad', what=rng.randint(0, 9))
        elif r < .68:
            q = gbox(rng, span)
            if els and rng.random() < .3:      # touching an element
                e = rng.choice(els)
                a = rng.randint(0, 2)
                q['lo'][a] = e['hi'][a]
                q['hi'][a] = max(q['lo'][a], q['hi'][a])
            yield dict(k='query', q=q)
        elif r < .72:
            yield dict(k='given')
        elif r < .80:
            a, b = gbox(rng, 4), gbox(rng, 4)
            yield dict(k='overlap', a=a, b=b, n=rng.choice([2, 3]))
        elif r < .92:
            q = gbox(rng, span)
            yield dict(k='mquery', q=dict(lo=[size * x for x in q['lo']], hi=[size * x for x in q['hi']]))
        elif r < .95:
            yield dict(k='move', d=[rng.randint(-9, 9) for _ in range(3)], snap=True)
        elif r < .97:
            yield dict(k='turn', snap=True)
        elif r < .985 or size > 20:
            yield dict(k='flip', a=rng.randint(1, 3), snap=True)
        else:
            size *= 2
            yield dict(k='grow', f=2, snap=True)


def oct_check(ctx):
    ctx.model_check('OctMC', ['InvRefines'], consts=dict(Span=2, Boxes=ctx.n(2, 3)), view=None, workers=6)
    a = Oct()
    tr = []
    for i in range(ctx.n(300, 4000)):
        init, span, flat, tag = ginit(ctx.rng)
        tr.append(a.record('o%d' % i, init, oct_ops(ctx.rng, init, span, flat, tag, ctx.rng.randint(10, 40))))
    ctx.report_bads(ctx.validate('OctTrace', tr, workers=6), tr, 'index history')
    ctx.assumptions += ['chosen split points lie inside the current bounding box', 'boxes either touch exactly or differ by at least half a unit']
