"""Intersections and inside tests of plane figures (Meet.tla)."""
import contextlib
import io
from copy import deepcopy

from vf.core import exc
from vf.areas.fig import Fig, milli, gpoly, rounded


class Meet(Fig):
    def new(self, init):
        return {}

    def wrap(self, f, how):
        return self.Geometry(f) if how == 'obj' else f

    def apply(self, s, op):
        k = op['k']
        if k == 'meet':
            op['pts'] = []
        elif k == 'params':
            op.update(uv=[], sa=[], sb=[])
        else:
            op['got'] = [False] * len(op['ps'])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return self._do(op, k)
        except Exception as e:
            return dict(res=exc(e))

    def _do(self, op, k):
        g = self.g
        a = self.build(op['a'])
        a0 = deepcopy(a)
        if k == 'inside':
            A = self.wrap(a, op['via'])
            ps = [g.point(x / 2, y / 2, op['z']) for x, y in op['ps']]
            op['got'] = [bool(A.isinsideXY(p) if op['via'] == 'obj' else g.isinsideXY(a, p)) for p in ps]
            return dict(res='ok', kept=a == a0, each=[True] * len(ps))
        b = self.build(op['b'])
        b0 = deepcopy(b)
        if op['via'] == 'obj':
            A = self.wrap(a, 'obj')
            B = self.wrap(b, 'obj') if op['both'] else b
            r = A.intersectXY(B, op['inside'], k == 'params')
        else:
            r = g.intersectXY(a, b, op['inside'], k == 'params')
        if k == 'meet':
            op['pts'] = [] if r is False else [milli(p) for p in r]
            return dict(res='ok', kept=a == a0 and b == b0, meet=True, found=r is not False)
        if r is not False:
            us, vs = r
            assert len(us) == len(vs)
            op['uv'] = [milli((u * 1000, v * 1000, 0))[:2] for u, v in zip(us, vs)]
            op['sa'] = [[milli(g.sample(a, u + e)) for e in (0, -1e-7, 1e-7)] for u in us]
            op['sb'] = [[milli(g.sample(b, v + e)) for e in (0, -1e-7, 1e-7)] for v in vs]
        return dict(res='ok', kept=a == a0 and b == b0, meet=True, same=True, ext=True)


def ip(rng, z, b=6):
    return [rng.randint(-b, b), rng.randint(-b, b), z]


def mline(rng, z):
    while True:
        a, b = ip(rng, z), ip(rng, z)
        if rng.random() < .3:
            b[rng.randrange(2)] = a[0] if rng.random() < .3 else a[1]
        if rng.random() < .3:
            j = rng.randrange(2)
            b[j] = a[j]
        if a != b:
            return dict(t='line', a=a, b=b)


def marc(rng, z, q=False):
    st = 90 if q or rng.random() < .4 else 15
    s = rng.randrange(0, 360, st)
    w = rng.randrange(st, 360, st)
    k = rng.choice([0, 0, 0, 360, -360])
    if (s + k, s + w + k) == (0, 360):
        w = 270
    return dict(t='arc', c=ip(rng, z), r=rng.randint(1, 5), s=s + k, e=s + w + k, rev=rng.random() < .3, n=rng.random() < .15)


def mpoly(rng, z, closed=None):
    n = rng.choice([2, 3, 3, 4, 5, 6])
    p = [ip(rng, z)]
    while len(p) < n:
        q = ip(rng, z)
        if q != p[-1]:
            p.append(q)
    if closed if closed is not None else rng.random() < .5:
        if len(p) < 3 or p[0] == p[-1]:
            return mpoly(rng, z, closed)
        p.append(list(p[0]))
    elif len(p) < 3 or p[0] == p[-1]:
        return mpoly(rng, z, closed)
    return dict(t='poly', p=p)


def mlist(rng, z):
    if rng.random() < .5:
        return rounded(rng, z)
    g = [mfig(rng, z, ['line', 'arc', 'poly', 'circle'] if rng.random() < .8 else ['line', 'list']) for _ in range(rng.randint(1, 3))]
    return dict(t='list', g=g)


def mfig(rng, z, kinds=('line', 'arc', 'circle', 'poly', 'poly', 'list', 'list')):
    k = rng.choice(kinds)
    if k == 'line':
        return mline(rng, z)
    if k == 'arc':
        return marc(rng, z)
    if k == 'circle':
        return dict(t='circle', c=ip(rng, z), r=rng.randint(1, 5))
    if k == 'poly':
        return mpoly(rng, z)
    return mlist(rng, z)


def closed_fig(rng, z):
    q = rng.random()
    if q < .15:
        return dict(t='circle', c=ip(rng, z), r=rng.randint(1, 5))
    if q < .5:
        return mpoly(rng, z, True)
    while True:
        e = outline(rng, z)
        if e:
            return e


def outline(rng, z):
    """a closed chain of lines and quarter, half or three-quarter arcs"""
    at = start = ip(rng, z)
    g = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < .5:
            b = ip(rng, z)
            if b == at:
                continue
            g.append(dict(t='line', a=at, b=b))
            at = b
        else:
            r, k, w = rng.randint(1, 3), rng.randrange(4), rng.randint(1, 3)
            D = [(1, 0), (0, 1), (-1, 0), (0, -1)]
            c = [at[0] - r * D[k][0], at[1] - r * D[k][1], z]
            rev = rng.random() < .5
            m = (k - w) % 4 if rev else (k + w) % 4
            s, e = (90 * m, 90 * k) if rev else (90 * k, 90 * m)
            g.append(dict(t='arc', c=c, r=r, s=s, e=e if e else rng.choice([0, 360]) if s else 0, rev=rev, n=False))
            at = [c[0] + r * D[m][0], c[1] + r * D[m][1], z]
            if max(map(abs, at)) > 12:
                return None
    if at != start:
        g.append(dict(t='line', a=at, b=start))
    if len(g) < 2:
        return None
    if any(x['t'] == 'arc' and (x['s'], x['e']) == (0, 360) for x in g):
        return None
    if rng.random() < .2:
        k = rng.randrange(1, len(g))
        g = g[:k] + [dict(t='list', g=g[k:])]
    return dict(t='list', g=g)


def verts(e):
    t = e['t']
    if t == 'line':
        return [e['a'], e['b']]
    if t in ('circle', 'arc'):
        c, r = e['c'], e['r']
        return [c, [c[0] + r, c[1]], [c[0], c[1] + r], [c[0] - r, c[1]], [c[0], c[1] - r]]
    return [v for x in e['g'] for v in verts(x)] if t == 'list' else e['p'] if t == 'poly' else [e['a']]


def meet_ops(rng, n):
    for _ in range(n):
        z = rng.choice([0, 0, 0, 2])
        if rng.random() < .4:
            a = closed_fig(rng, z) if rng.random() < .8 else rng.choice([mline, lambda r, z: mpoly(r, z, False)])(rng, z)
            vs = verts(a)
            ps = []
            for _ in range(8):
                q = rng.random()
                if q < .4:
                    x, y = rng.choice(vs)[0], rng.choice(vs)[1]
                    ps.append([2 * x + rng.choice([-1, 0, 0, 1]), 2 * y + rng.choice([0, 0, 0, 1])])
                elif q < .6:
                    (x0, y0), (x1, y1) = rng.choice(vs)[:2], rng.choice(vs)[:2]
                    ps.append([x0 + x1, y0 + y1])
                else:
                    ps.append([rng.randint(-13, 13), rng.randint(-13, 13)])
            yield dict(k='inside', a=a, ps=ps, z=z, via=rng.choice(['func', 'func', 'obj']))
        else:
            a, b = mfig(rng, z), mfig(rng, z)
            simple = all(x['t'] in ('line', 'arc', 'circle') for x in (a, b))
            yield dict(k='meet' if rng.random() < .6 else 'params', a=a, b=b, inside=not (simple and rng.random() < .3),
                       via=rng.choice(['func', 'func', 'obj']), both=rng.random() < .5)


def meet_check(ctx):
    ctx.model_check('MeetMC', ['InvSym', 'InvOn', 'InvMore', 'InvFlip', 'InvSide', 'InvCirc', 'InvTri'], consts=dict(Depth=ctx.n(2, 3)), workers=6)
    a = Meet()
    tr = [a.record('m%d' % i, 0, meet_ops(ctx.rng, 6)) for i in range(ctx.n(1100, 15000))]
    ctx.report_bads(ctx.validate('MeetTrace', tr, workers=6), tr, 'pair of figures')
