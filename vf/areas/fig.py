"""Plane figures: construction, transformation, sampling (Fig.tla)."""
import contextlib
import io
import math
from copy import deepcopy

from vf.core import Area, exc

AX = [(0, 0, 1)] * 3 + [(1, 0, 0), (0, 1, 0), (0, 0, -1), (0, -1, 0), (0, 0, 2), (3, 0, 0), (1, 1, 1), (-1, 1, 1)]


def milli(p):
    return [int(round(max(-2e6, min(2e6, 1000 * c))))for c in p[:3]]


class Fig(Area):
    def __init__(self):
        import yapcad.geom as g
        import yapcad.xform as x
        from yapcad.geometry import Geometry
        self.g, self.x, self.Geometry = g, x, Geometry

    def new(self, init):
        return dict(figs=[], snap=[])

    def build(self, e):
        g = self.g
        pt = lambda v: g.point(*v)
        t = e['t']
        if t == 'point':
            return pt(e['a'])
        if t == 'line':
            return g.line(pt(e['a']), pt(e['b']))
        if t == 'circle':
            return g.arc(pt(e['c']), e['r'])
        if t == 'arc':
            return g.arc(pt(e['c']), e['r'], e['s'], e['e'], n=g.point(0, 0, 1) if e['n'] else False, samplereverse=e['rev'])
        if t == 'poly':
            return g.poly(*[pt(p) for p in e['p']])
        return [self.build(x) for x in e['g']]

    def raw(self, f):
        return f.geom if isinstance(f, self.Geometry) else f

    def apply(self, s, op):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = self._apply(s, op)
        except Exception as e:
            r = dict(res=exc(e))
        r['kept'] = all(self.raw(f) == q for f, q in zip(s['figs'], s['snap']))
        return r

    def add(self, s, f):
        s['figs'].append(f)
        s['snap'].append(deepcopy(self.raw(f)))
        return dict(res='ok')

    def _apply(self, s, op):
        g, k = self.g, op['k']
        if k == 'probe':
            z = [0, 0, 0]
            op['m'] = dict(pts=[z] * len(op['us']), len=0, ctr=z, lo=z, hi=z, closed=False, cont=False)
        if k == 'unsample':
            op.update(found=False, back=[0, 0, 0])
        if k == 'new':
            return self.add(s, self.build(op['fig']))
        f = s['figs'][op['i'] - 1]
        c = g.point(*op['c']) if 'c' in op else None
        if k == 'probe':
            us = [n / d for n, d in op['us']]
            if isinstance(f, self.Geometry):
                pts = [f.sample(u) for u in us]
                b, ln, ctr = f.bbox, f.length, f.center
                cl, co = f.isclosed(), f.iscontinuous()
            else:
                pts = [g.sample(f, u) for u in us]
                b, ln, ctr = g.bbox(f), g.length(f), g.center(f)
                cl, co = (g.isclosedgeomlist(f), g.iscontinuousgeomlist(f)) if op['list'] else (True, True)
            op['m'] = dict(pts=[milli(p) for p in pts], len=milli([ln])[0], ctr=milli(ctr), lo=milli(b[0]), hi=milli(b[1]),
                           closed=bool(cl), cont=bool(co))
            return dict(res='ok', sample=True, length=True, center=True, bbox=True, closed=True)
        if k == 'unsample':
            p = g.point(*[x / 1000 for x in op['p']])
            if op['on']:
                p = g.sample(self.raw(f), op['u'][0] / op['u'][1])
                op['p'] = milli(p)
            u = f.unsample(p) if isinstance(f, self.Geometry) else g.unsample(f, p)
            op['found'] = not isinstance(u, bool)
            op['back'] = milli(g.sample(self.raw(f), u)) if op['found'] else [0, 0, 0]
            return dict(res='ok', hit=True, miss=True)
        if k == 'copy':
            return self.add(s, deepcopy(self.raw(f)) if op['how'] == 'raw' else self.Geometry(f))
        if op.get('via') == 'obj' and k not in ('segment', 'reverse'):
            f = self.Geometry(f)
            f.length, f.center, f.bbox, f.isclosed()
            if k == 'translate':
                f.translate(g.point(*op['v']))
            elif k == 'rotate':
                f.rotate(op['deg'], cent=c, axis=g.point(*op['ax']))
            elif k == 'scale':
                n = [x / op['d'] for x in op['n']]
                f.scale(n[0], cent=c) if len(set(n)) == 1 and op['one'] else f.scale(*n, cent=c)
            elif k == 'mirror':
                f.mirror(op['pl'], keepSign=op['keep'])
            else:
                f.transform(self.matrix(op['gs']))
            return self.add(s, f)
        f = self.raw(f)
        if k == 'translate':
            r = g.translate(f, g.point(*op['v']))
        elif k == 'rotate':
            r = g.rotate(f, op['deg'], cent=c, axis=g.point(*op['ax']))
        elif k == 'scale':
            n = [x / op['d'] for x in op['n']]
            r = g.scale(f, n[0], cent=c) if len(set(n)) == 1 and op['one'] else g.scale(f, *n, cent=c)
        elif k == 'mirror':
            r = g.mirror(f, op['pl'])
        elif k == 'matrix':
            r = g.transform(f, self.matrix(op['gs']))
        elif k == 'segment':
            r = g.segment(f, op['n1'] / op['d'], op['n2'] / op['d'])
        elif k == 'reverse':
            r = g.reverseGeomList(f)
        return self.add(s, r)

    def matrix(self, gs):
        x, g = self.x, self.g
        m = x.Matrix()
        for f in gs:
            v = g.point(*f['v'])
            m = m.mul(x.Translation(v, inverse=f['inv']) if f['m'] == 'T' else x.Rotation(v, f['deg'], inverse=f['inv'])
                      if f['m'] == 'R' else x.Scale(v, inverse=f['inv']))
        if gs and gs[-1]['inv']:
            m = x.Matrix(m)
        return m


def ipt(rng, z=None, b=5):
    return [rng.randint(-b, b), rng.randint(-b, b), rng.choice([0, 0, 0, 2, -1]) if z is None else z]


def gline(rng, z, flat=True):
    while True:
        a, b = ipt(rng, z if flat else None), ipt(rng, z if flat else None)
        if a != b:
            return dict(t='line', a=a, b=b)


def garc(rng, z, rev=None):
    s = rng.randrange(0, 360, 15)
    w = rng.randrange(15, 360, 15)
    if rng.random() < .35:
        s = rng.choice([0, 90, 270, 180, 345])
    if rng.random() < .35:
        w = rng.choice([90, 180, 270])
    k1, k2 = rng.choice([(0, 0)] * 4 + [(360, 360), (-360, -360), (0, -360), (-360, 0), (360, 0)])
    a, b = s + k1, s + w + k2
    if (a, b) == (0, 360):
        b = 270
    return dict(t='arc', c=ipt(rng, z), r=rng.randint(1, 5), s=a, e=b, rev=rng.random() < .3 if rev is None else rev, n=rng.random() < .15)


def gpoly(rng, z, closed=None):
    n = rng.choice([3, 3, 4, 5, 6])
    p = [ipt(rng, z)]
    while len(p) < n:
        q = ipt(rng, z)
        if q != p[-1] and q != p[0]:
            p.append(q)
    if closed if closed is not None else rng.random() < .5:
        p.append(list(p[0]))
    return dict(t='poly', p=p)


def rounded(rng, z):
    """closed outline: rectangle whose corners may be rounded, in either direction"""
    x0, y0 = rng.randint(-5, -1), rng.randint(-5, -1)
    x1, y1 = rng.randint(1, 5), rng.randint(1, 5)
    r = rng.choice([0, 1, 1])
    rd = [rng.random() < .6 and r for _ in range(4)]
    cs = [(x1, y0, 270), (x1, y1, 0), (x0, y1, 90), (x0, y0, 180)]
    ins = [(-1, 1), (-1, -1), (1, -1), (1, 1)]
    pieces, pts = [], []
    for i, (x, y, s) in enumerate(cs):
        dx, dy = ins[i]
        if rd[i]:
            c = [x + dx, y + dy, z]
            st = [x, y + dy] if s in (0, 180) else [x + dx, y]
            en = [x + dx, y] if s in (0, 180) else [x, y + dy]
            pts.append((st + [z], en + [z], dict(t='arc', c=c, r=1, s=s, e=s + 90, rev=False, n=rng.random() < .1)))
        else:
            pts.append(([x, y, z], [x, y, z], None))
    for i in range(4):
        a = pts[i]
        b = pts[(i + 1) % 4]
        if a[2]:
            pieces.append(a[2])
        if a[1] != b[0]:
            pieces.append(dict(t='line', a=a[1], b=b[0]))
        if rng.random() < .15:
            pieces.append(dict(t='point', a=b[0]))
    if rng.random() < .3:                       # travelled the other way round
        pieces = [dict(p, a=p['b'], b=p['a']) if p['t'] == 'line' else dict(p, rev=True) if p['t'] == 'arc' else p for p in reversed(pieces)]
    if rng.random() < .4:
        k = rng.randrange(len(pieces))
        pieces = pieces[k:] + pieces[:k]
    if rng.random() < .25:                      # open outline or one with a gap
        pieces = [x for x in pieces if x['t'] != 'point']
        del pieces[rng.randrange(len(pieces))]
    if rng.random() < .25 and len(pieces) > 3:  # nested lists
        k = rng.randrange(1, len(pieces) - 1)
        inner = dict(t='list', g=pieces[k:])
        if len(inner['g']) > 2 or all(x['t'] != 'point' for x in inner['g']):
            pieces = pieces[:k] + [inner]
    if all(p['t'] == 'point' for p in pieces):
        pieces.append(gline(rng, z))
    return dict(t='list', g=pieces)


def glist(rng, z):
    if rng.random() < .6:
        return rounded(rng, z)
    g, at = [], None
    for _ in range(rng.randint(1, 4)):
        q = rng.random()
        e = gline(rng, z) if q < .4 else gpoly(rng, z, False if rng.random() < .7 else True) if q < .7 else garc(rng, z)
        if at and rng.random() < .7:
            if e['t'] == 'line' and e['b'] != at:
                e['a'] = at
            elif e['t'] == 'poly' and e['p'][1] != at and e['p'][0] != e['p'][-1]:
                e['p'][0] = at
        at = e['b'] if e['t'] == 'line' else e['p'][-1] if e['t'] == 'poly' else None
        g.append(e)
    return dict(t='list', g=g)


def hasarc(e):
    return e['t'] in ('arc', 'circle') or any(hasarc(x) for x in e.get('g', []))


def us_for(rng, k):
    d = rng.choice([1, 2, 3, 4, 6, 8, 12, 24])
    lo, hi = (0, d)
    if k in ('line', 'arc', 'circle', 'gon'):
        lo, hi = rng.choice([(0, d), (0, d), (-d, 2 * d)])
    us = [[rng.randint(lo, hi), d] for _ in range(4)] + [[0, 1], [1, 1], [1, 2]]
    return us


def fig_ops(rng, n, only=None):
    figs = []          # (kind, arcs, reach, flat)
    while len(figs) < n:
        q = rng.random()
        if not figs or q < .12:
            z = rng.choice([0, 0, 0, 2, -1])
            k = only or rng.choice(['line', 'arc', 'circle', 'poly', 'gon', 'list', 'list'])
            e = dict(line=lambda: gline(rng, z, rng.random() < .6), arc=lambda: garc(rng, z),
                     circle=lambda: dict(t='circle', c=ipt(rng, z), r=rng.randint(1, 5)), poly=lambda: gpoly(rng, z, False),
                     gon=lambda: gpoly(rng, z, True), list=lambda: glist(rng, z))[k]()
            o = yield dict(k='new', fig=e)
            figs.append((k, hasarc(e), 10 if hasarc(e) else 6, False))
        else:
            i = rng.randrange(len(figs))
            k, arcs, reach, free = figs[i]
            kinds = ['translate', 'rotate', 'rotate', 'scale', 'mirror', 'mirror', 'copy']
            if not arcs:
                kinds += ['matrix', 'matrix']
            if not free:                    # a turned circle may start anywhere
                kinds += ['segment']
            if k == 'list':
                kinds += ['reverse']
            t = rng.choice(kinds)
            via = rng.choice(['func', 'func', 'obj'])
            op = dict(k=t, i=i + 1, via=via)
            nk = k
            if t == 'translate':
                op['v'] = ipt(rng, b=3)
                reach += 3
            elif t == 'rotate':
                op['c'] = rng.choice([[0, 0, 0], ipt(rng, b=2)])
                op['ax'] = [0, 0, 1] if arcs else list(rng.choice(AX))
                ax = op['ax']
                op['deg'] = rng.choice([120, 240, -120]) if 0 not in ax else rng.choice([90, 180, 270, -90, 450]) if ax != [0, 0, 1] else \
                    rng.choice([90, 180, 270, -90, 45, 30, 75, 135, -15, 360, 400])
                if op['deg'] % 90 or any(op['c']):
                    reach = reach * 1.42 + (4 if any(op['c']) else 0)
            elif t == 'scale':
                op['c'] = rng.choice([[0, 0, 0], ipt(rng, b=2)])
                op['d'] = rng.choice([1, 2])
                m = rng.choice([1, 2, 3])
                op['n'] = [m] * 3 if arcs or rng.random() < .6 else [rng.choice([1, 2, 3, -1]) for _ in range(3)]
                op['one'] = rng.random() < .6
                reach = reach * max(abs(x) for x in op['n']) / op['d'] + 3 * any(op['c'])
            elif t == 'mirror':
                op['pl'] = rng.choice(['xz', 'yz', 'xy'])
                op['keep'] = via == 'obj' and rng.random() < .6
            elif t == 'matrix':
                gs = []
                for _ in range(rng.randint(1, 3)):
                    m = rng.choice('TRRS')
                    v = ipt(rng, b=3) if m == 'T' else list(rng.choice(AX[3:])) if m == 'R' else [rng.choice([1, 1, 2, -1]) for _ in range(3)]
                    gs.append(dict(m=m, v=v, deg=(rng.choice([120, 240]) if 0 not in v else rng.choice([90, 180, 270])) if m == 'R' else 0,
                                   inv=rng.random() < .35 and (m != 'S')))
                    reach = reach + 3 if m == 'T' else reach * 2 if m == 'S' else reach
                op['gs'] = gs
            elif t == 'segment':
                op['via'] = 'func'
                op['d'] = rng.choice([2, 3, 4, 8, 12])
                a, b = rng.sample(range(op['d'] + 1), 2)
                if k not in ('line', 'poly', 'poly?', 'gon'):
                    a, b = min(a, b), max(a, b)
                if k in ('gon', 'poly?') and (a, b) == (op['d'], 0):
                    a, b = b, a
                op['n1'], op['n2'] = a, b
                nk = 'poly?' if k in ('gon', 'poly') else 'arc' if k == 'circle' and b - a < op['d'] else k
            elif t == 'copy':
                op['how'] = rng.choice(['raw', 'obj'])
            if reach > 13:
                continue
            o = yield op
            if o['res'] != 'ok':
                return
            figs.append((nk, arcs, reach, free or k == 'circle' and t in ('rotate', 'mirror')))
        k = figs[-1][0]
        us = us_for(rng, k)
        o = yield dict(k='probe', i=len(figs), us=us, list=k == 'list')
        if k in ('line', 'arc', 'circle', 'poly', 'gon', 'list') and rng.random() < .6:
            on = rng.random() < .75
            yield dict(k='unsample', i=len(figs), on=on, u=rng.choice(us[:4]) if k != 'gon' else [rng.randint(0, 5), 6],
                       p=[rng.randint(-7000, 7000), rng.randint(-7000, 7000), 0])
    for i in range(len(figs)):
        if rng.random() < .3:
            yield dict(k='probe', i=i + 1, us=us_for(rng, figs[i][0]), list=figs[i][0] == 'list')


def fig_check(ctx):
    ctx.model_check('FigMC', ['InvGood', 'InvTwice', 'InvQuarter', 'InvAgree', 'InvLength', 'InvBox', 'InvClosed'], consts=dict(Depth=ctx.n(3, 4)), workers=6)
    a = Fig()
    tr = []
    for i in range(ctx.n(900, 9000)):
        tr.append(a.record('f%d' % i, 0, fig_ops(ctx.rng, ctx.rng.randint(3, 6))))
    ctx.report_bads(ctx.validate('FigTrace', tr, workers=6), tr, 'figure history')
