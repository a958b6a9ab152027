"""Closed plane figures: outlines, offsets, booleans, cached answers (Out.tla)."""
import contextlib
import copy
import io
import math

import numpy as np

from vf.core import Area, exc

H = 100


def cent(p):
    return [int(round(max(-1e6, min(1e6, H * float(c))))) for c in p[:2]]


class Out(Area):
    def __init__(self):
        import yapcad.geom as g
        import yapcad.geom3d as g3
        import yapcad.poly as poly
        import yapcad.xform as x
        from yapcad.combine import Boolean
        from yapcad.geometry import Geometry
        self.g, self.g3, self.x, self.poly, self.Boolean, self.Geometry = g, g3, x, poly, Boolean, Geometry

    def new(self, init):
        return dict(objs=[])

    def pt(self, p):
        return self.g.point(p[0] / H, p[1] / H)

    def corner(self, p, r):
        return self.g.arc(self.pt(p), r / H) if r else self.pt(p)

    def apply(self, s, op):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return self._apply(s, op)
        except Exception as e:
            return dict(res=exc(e))

    def build(self, op):
        g, P, how = self.g, self.poly.Polygon, op['how']
        p, r = op['p'], op['r']
        if how == 'circle':
            return self.poly.Circle(self.pt(p[0]), r[0] / H)
        if how == 'rect':
            (x0, _), (_, y0), (x1, _), (_, y1) = p
            return self.poly.Rect((x1 - x0) / H, (y1 - y0) / H, g.point((x0 + x1) / 2 / H, (y0 + y1) / 2 / H))
        if how == 'rrect':
            (x0, _), (_, y0), (x1, _), (_, y1) = p
            c = 2 * r[0]
            return self.poly.RoundRect((x1 - x0 + c) / H, (y1 - y0 + c) / H, c / H, g.point((x0 + x1) / 2 / H, (y0 + y1) / 2 / H))
        e = [self.corner(*z) for z in zip(p, r)]
        if how == 'geom':
            return self.Geometry(e + e[:1])
        if how == 'lines':
            return self.Geometry([g.line(a, b) for a, b in zip(e, e[1:] + e[:1])])
        if how == 'list':
            return P(e)
        if how == 'closed':
            return P(e + e[:1])
        o = P()
        for z in e:
            o.addPoint(z) if g.ispoint(z) else o.addArc(z)
        return o

    def _apply(self, s, op):
        g, k, O = self.g, op['k'], s['objs']
        if k == 'probe':
            op['m'] = dict(pts=[[0, 0]] * len(op['us']), len=0, ctr=[0, 0], lo=[0, 0], hi=[0, 0], area=-1, inside=[], empty=False)
        if k == 'new':
            O.append(self.build(op))
            return dict(res='ok')
        if k == 'bool':
            O.append(self.Boolean(op['op'], [O[i - 1] for i in op['a']]))
            return dict(res='ok')
        o = O[op['i'] - 1]
        if k == 'copy':
            import copy
            O.append(self.Geometry(o) if op['wrap'] else self.poly.Polygon(o) if isinstance(o, self.poly.Polygon) else copy.deepcopy(o))
            return dict(res='ok')
        if k == 'move':
            h, q, v = op['how'], op['q'], self.pt(op['v'])
            if h == 'translate':
                o.translate(v)
            elif h == 'rotate':
                o.rotate(90 * q, v)
            elif h == 'scale':
                o.scale(q, cent=v)
            elif h == 'mirror':
                o.mirror('xz' if q == 0 else 'yz')
            else:
                o.transform(self.x.Translation(v).mul(self.x.Rotation(g.point(0, 0, 1), 90 * q)))
            return dict(res='ok')
        if k == 'add':
            c = self.corner(op['p'], op['r'])
            o.addArc(c) if op['r'] else o.addPoint(c)
            return dict(res='ok')
        if k == 'set':
            o.setPoint(op['j'] - 1, self.pt(op['p']))
            return dict(res='ok')
        if k == 'remove':
            o.remove(o.elem[op['j'] - 1])
            return dict(res='ok')
        if k == 'grow':
            o.grow(op['r'] / H)
            return dict(res='ok')
        return self.probe(s, o, op)

    def probe(self, s, o, op):
        g, m = self.g, op['m']
        res = dict(res='ok', inside=[], sample=True, length=True, centre=True, box=True, area=True, closed=True, empty=False)
        out = None
        if not self.flat(copy.deepcopy(o).geom):
            m['empty'] = True                           # nothing to ask about
            return dict(res, empty=True)
        for w in op['order']:
            if w == 'geom':
                out = o.geom
                flat = self.flat(out)
                res['closed'] = self.loops(flat)
                while out:                              # what is given out is the caller's
                    out.pop()
            elif w == 'box':
                b = o.bbox
                m['lo'], m['hi'] = cent(b[0]), cent(b[1])
            elif w == 'len':
                m['len'] = cent([o.length, 0])[0]
            elif w == 'ctr':
                c = o.center
                m['ctr'] = cent(c) if c else [10 ** 6, 0]
            elif w == 'inside':
                m['inside'] = [q for q in op['q'] if o.isinsideXY(self.pt(q))]
                res['inside'] = m['inside']
            elif w == 'sample':
                m['pts'] = [cent(o.sample(n / d)) for n, d in op['us']]
            elif w == 'area':
                f = copy.deepcopy(o).geom
                if len(self.parts(f)) == 1:             # a surface has one outer border
                    m['area'] = int(round(H * self.g3.surfacearea(o.surface())))
        return res

    def parts(self, f):
        import yapcad.geom_util as gu
        g = self.g
        return gu.geomlist2poly_components([f] if g.isarc(f) or g.isline(f) or g.ispoly(f) else f)

    def flat(self, x):
        g = self.g
        if x == []:
            return []
        if g.ispoint(x):
            return []
        if g.isline(x) or g.isarc(x):
            return [x]
        if g.ispoly(x):
            return [g.line(a, b) for a, b in zip(x, x[1:])]
        return [y for e in x for y in self.flat(e)]

    def loops(self, flat):
        """every end of a piece is shared with exactly one other"""
        g = self.g
        ends = []
        for e in flat:
            if g.isarc(e) and g.iscircle(e):
                continue
            for u in (0., 1.):
                p = g.sample(e, u)
                for i, q in enumerate(ends):
                    if abs(p[0] - q[0]) < 3e-3 and abs(p[1] - q[1]) < 3e-3:
                        del ends[i]
                        break
                else:
                    ends.append(p)
        return not ends


# ------------------------------------------------------------------ generator
def outline(p, r, step=5.):
    """points and directions along the border of a leaf (hundredths), for tests of general position"""
    n = len(p)
    if n == 1:
        t = np.arange(0, 2 * math.pi, step / max(r[0], 20))
        return np.stack([p[0][0] + r[0] * np.cos(t), p[0][1] + r[0] * np.sin(t)], 1)
    pts = []
    dirs = []
    for i in range(n):
        (x0, y0), (x1, y1) = p[i], p[(i + 1) % n]
        L = math.hypot(x1 - x0, y1 - y0)
        a = math.atan2(y1 - y0, x1 - x0) - math.asin(max(-1, min(1, (r[(i + 1) % n] - r[i]) / L)))
        dirs.append(a)
    for i in range(n):
        a0, a1 = dirs[i - 1] - math.pi / 2, dirs[i] - math.pi / 2
        w = (a1 - a0 + math.pi) % (2 * math.pi) - math.pi
        k = max(2, int(abs(w) * r[i] / step) + 2)
        for j in range(k):
            t = a0 + w * j / (k - 1)
            pts.append((p[i][0] + r[i] * math.cos(t), p[i][1] + r[i] * math.sin(t)))
        q0 = (p[i][0] + r[i] * math.cos(a1), p[i][1] + r[i] * math.sin(a1))
        j = (i + 1) % n
        q1 = (p[j][0] + r[j] * math.cos(a1), p[j][1] + r[j] * math.sin(a1))
        L = math.hypot(q1[0] - q0[0], q1[1] - q0[1])
        k = int(L / step) + 1
        for m in range(1, k):
            pts.append((q0[0] + (q1[0] - q0[0]) * m / k, q0[1] + (q1[1] - q0[1]) * m / k))
    return np.array(pts)


def good_round(p, r):
    """convex, counterclockwise, and every corner disc shows"""
    n = len(p)
    if n < 3:
        return False
    d, tot = [], 0
    for i in range(n):
        (x0, y0), (x1, y1) = p[i], p[(i + 1) % n]
        L = math.hypot(x1 - x0, y1 - y0)
        if L < 100 or abs(r[(i + 1) % n] - r[i]) > .8 * L:
            return False
        d.append(math.atan2(y1 - y0, x1 - x0) - math.asin((r[(i + 1) % n] - r[i]) / L))
    for i in range(n):
        w = (d[i] - d[i - 1]) % (2 * math.pi)
        if not .12 < w < math.pi - .12:
            return False
        tot += w
        h = [x * math.sin(d[i]) - y * math.cos(d[i]) + q for (x, y), q in zip(p, r)]
        if max(h) > h[i] + 1:
            return False
    return abs(tot - 2 * math.pi) < .01


def crossing(A, B):
    """do the borders cross properly wherever they come near each other"""
    for P, Q in ((A, B), (B, A)):
        q1 = np.roll(Q, -1, 0) - Q
        n2 = (q1 ** 2).sum(1)
        n2[n2 == 0] = 1
        near = np.empty(len(P))
        for i in range(0, len(P), 256):
            w = P[i:i + 256, None] - Q[None]
            t = np.clip((w * q1[None]).sum(2) / n2[None], 0, 1)
            near[i:i + 256] = np.sqrt(((w - t[..., None] * q1[None]) ** 2).sum(2)).min(1)
        x = P[:, 0][:, None], P[:, 1][:, None]
        ya, yb = Q[:, 1][None], np.roll(Q[:, 1], -1)[None]
        with np.errstate(divide='ignore', invalid='ignore'):
            c = ((ya > x[1]) != (yb > x[1])) & (x[0] < Q[:, 0][None] + (x[1] - ya) * q1[:, 0][None] / (yb - ya))
        sd = np.where(c.sum(1) % 2 == 1, -near, near)
        seg = np.linalg.norm(np.roll(P, -1, 0) - P, axis=1)
        d = np.abs(np.roll(sd, -1) - sd)
        close = (np.minimum(near, np.roll(near, -1)) < 12) & (seg > 1e-6)
        if np.any(close & (d < .25 * seg)):
            return False
    return True


def hull(ps):
    ps = sorted(set(ps))

    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h
    a, b = half(ps), half(ps[::-1])
    return [list(x) for x in a[:-1] + b[:-1]]


def gleaf(rng, grid):
    """(p, r, ways of building it)"""
    def co(lo, hi):
        return 100 * rng.randint(lo, hi) + (0 if grid is not None else rng.choice([0, 0, rng.randint(0, 99)]))
    q = rng.random()
    if grid is None and q < .12:
        return [[co(-5, 5), co(-5, 5)]], [co(1, 5) or 100], ['circle']
    while True:
        if grid is not None or q < .5:
            x0, y0 = co(-7, 3), co(-7, 3)
            w, h = 100 * rng.randint(2, 8), 100 * rng.randint(2, 8)
            if grid is not None:                       # corners on even (odd) coordinates only: sides never overlap
                x0, y0 = (200 * (v // 200) + 100 * grid for v in (x0, y0))
                w, h = (200 * max(1, v // 200) for v in (w, h))
            x1, y1 = x0 + w, y0 + h
            if rng.random() < .5:
                r = rng.choice([50, 100, 120]) if grid is None and rng.random() < .5 else 0
                return [[x0, y1], [x0, y0], [x1, y0], [x1, y1]], [r] * 4, ['rrect' if r else 'rect', 'steps', 'list']
            st = 200 if grid is not None else 100
            if w < 3 * st or h < 3 * st:
                continue
            xm, ym = x0 + st * rng.randint(1, w // st - 1), y0 + st * rng.randint(1, h // st - 1)
            xn = x0 + st * rng.randint(1, w // st - 1)
            p = rng.choice([[[x0, y0], [x1, y0], [x1, ym], [xm, ym], [xm, y1], [x0, y1]],
                            [[x0, y0], [x1, y0], [x1, y1], [max(xm, xn), y1], [max(xm, xn), ym], [min(xm, xn), ym], [min(xm, xn), y1], [x0, y1]]])
            if len(p) == 8 and xm == xn:
                continue
            k = rng.randrange(len(p))
            return p[k:] + p[:k], [0] * len(p), ['steps', 'list', 'geom', 'lines', 'closed']
        p = hull([(co(-7, 7), co(-7, 7)) for _ in range(rng.randint(3, 6))])
        k = rng.randrange(len(p))
        p = p[k:] + p[:k]
        r = rng.choice([[0] * len(p)] * 3 + [[rng.choice([50, 100, 200])] * len(p)] + [[rng.choice([50, 100, 150, 200]) for _ in p]])
        if rng.random() < .2:
            r = [rng.choice([0, x]) for x in r]
        if good_round(p, r):
            return p, r, ['steps', 'list', 'closed'] + (['geom', 'lines'] if not any(r) else [])


def reflex(p):
    n = len(p)
    return any((p[i][0] - p[i - 1][0]) * (p[(i + 1) % n][1] - p[i][1]) - (p[i][1] - p[i - 1][1]) * (p[(i + 1) % n][0] - p[i][0]) < 0 for i in range(n))


def room(p):
    """how far a square-cornered polygon may grow without meeting itself"""
    n = len(p)
    return min(math.hypot(p[i][0] - p[i - 1][0], p[i][1] - p[i - 1][1]) for i in range(n)) / 2 - 10


class Gen:
    """mirrors where the figures are, only to choose sensible operations"""

    def __init__(self, rng, grid):
        self.rng, self.grid, self.o = rng, grid, []

    def leaves(self, t):
        return [t['leaf']] if 'leaf' in t else [x for a in t['a'] for x in self.leaves(a)]

    def map(self, t, f, s, flip):
        if 'leaf' in t:
            p, r = t['leaf']
            p, r = [f(x) for x in p], [s * x for x in r]
            return dict(leaf=(p[::-1], r[::-1]) if flip else (p, r))
        return dict(a=[self.map(x, f, s, flip) for x in t['a']])

    def box(self, t):
        L = self.leaves(t)
        return [min(x[i] - q for p, r in L for x, q in zip(p, r)) for i in (0, 1)] + [max(x[i] + q for p, r in L for x, q in zip(p, r)) for i in (0, 1)]

    def ops(self, n):
        rng = self.rng
        made = 0
        for _ in range(n):
            q = rng.random()
            if not self.o or (q < .22 and len(self.o) < 7):
                g = None if self.grid is None else made % 2
                p, r, ways = gleaf(rng, g)
                made += 1
                how = rng.choice(ways)
                kind = 'wrap' if how in ('circle', 'geom', 'lines') else 'polygon'
                if kind == 'polygon' and how in ('steps', 'list') and len(p) > 3 and not reflex(p) and rng.random() < .3 and self.grid is None:
                    self.o.append(dict(t=dict(leaf=(p[:3], r[:3])), kind=kind, fresh=True))
                    yield dict(k='new', kind=kind, how='steps', p=p[:3], r=r[:3], i=1)
                    i = len(self.o)
                    if good_round(p[:3], r[:3]) and rng.random() < .7:
                        yield self.probe(i)
                    for j in range(3, len(p)):
                        self.o[i - 1]['t'] = dict(leaf=(p[:j + 1], r[:j + 1]))
                        yield dict(k='add', i=i, p=p[j], r=r[j]) if r[j] or rng.random() < .5 else dict(k='set', i=i, j=j + 1, p=p[j])
                        if good_round(p[:j + 1], r[:j + 1]) and rng.random() < .5:
                            yield self.probe(i)
                    continue
                self.o.append(dict(t=dict(leaf=(p, r)), kind=kind, fresh=how in ('steps', 'list')))
                yield dict(k='new', kind=kind, how=how, p=p, r=r, i=1)
                continue
            i = rng.randint(1, len(self.o))
            o = self.o[i - 1]
            if q < .36 and len(self.o) > 1:
                a = [i] + rng.sample([j for j in range(1, len(self.o) + 1) if j != i], 1 if rng.random() < .75 or len(self.o) < 3 else 2)
                L = [x for j in a for x in self.leaves(self.o[j - 1]['t'])]
                if len(L) > 4 or (self.grid is not None and any(max(map(abs, self.box(self.o[j - 1]['t']))) > 1100 for j in a)):
                    continue
                B = [outline(*x) for x in L]
                if not all(crossing(B[x], B[y]) for x in range(len(B)) for y in range(x)):
                    continue
                self.o.append(dict(t=dict(a=[self.o[j - 1]['t'] for j in a]), kind='bool', fresh=False))
                yield dict(k='bool', op=rng.choice(['union', 'intersection', 'difference']), a=a, i=1)
                if rng.random() < .6:
                    yield self.probe(len(self.o))
            elif q < .42 and len(self.o) < 9:
                w = rng.random() < .5
                self.o.append(dict(t=o['t'], kind='wrap' if w else o['kind'], fresh=o['fresh'] and not w))
                yield dict(k='copy', i=i, wrap=w)
            elif q < .62:
                m = self.move(o)
                if m:
                    yield dict(m, i=i)
            elif q < .72 and o['kind'] == 'polygon' and 'leaf' in o['t'] and self.grid is None:
                p, r = o['t']['leaf']
                g = rng.choice([50, 100, 130, 200, -50])
                if reflex(p) and (any(r) and max(r) + g > room(p) or g > room(p)) or max(r) + g > 900:
                    continue
                if g > 0 and len(p) > 2:
                    if not reflex(p) and not good_round(p, [x + g for x in r]):
                        continue
                    o['t'] = dict(leaf=(p, [x + g for x in r]))
                    yield dict(k='grow', i=i, r=g)
                elif g < 0:
                    yield dict(k='grow', i=i, r=g)
            elif q < .78 and o['fresh'] and 'leaf' in o['t'] and not reflex(o['t']['leaf'][0]):
                p, r = o['t']['leaf']
                j = rng.randrange(len(p))
                if rng.random() < .5:
                    p2, r2 = p[:j] + p[j + 1:], r[:j] + r[j + 1:]
                    op = dict(k='remove', i=i, j=j + 1)
                else:
                    z = [p[j][0] + rng.randint(-200, 200), p[j][1] + rng.randint(-200, 200)] if self.grid is None else p[j]
                    p2, r2 = p[:j] + [z] + p[j + 1:], r[:j] + [0] + r[j + 1:]
                    op = dict(k='set', i=i, j=j + 1, p=z)
                if self.grid is None and good_round(p2, r2):
                    o['t'] = dict(leaf=(p2, r2))
                    yield op
                elif rng.random() < .1:
                    yield dict(k='set', i=i, j=len(p) + 2, p=[0, 0])
            else:
                yield self.probe(i)
        for i in range(1, len(self.o) + 1):
            yield self.probe(i)

    def move(self, o):
        rng = self.rng
        st = 200 if self.grid is not None else 1
        how = rng.choice(['translate', 'translate', 'rotate', 'scale', 'mirror', 'matrix'])
        if how == 'matrix' and any(any(r) for _, r in self.leaves(o['t'])):      # not offered for arcs
            how = 'rotate'
        v = [st * rng.randint(-300 // st, 300 // st), st * rng.randint(-300 // st, 300 // st)] if how != 'mirror' else [0, 0]
        q = rng.randint(1, 3) if how in ('rotate', 'matrix') else rng.choice([0, 1]) if how == 'mirror' else rng.choice([2, 3])
        if self.grid is not None and how in ('scale',):
            return None

        def quarter(x, q):
            for _ in range(q):
                x = [-x[1], x[0]]
            return x
        f = dict(translate=lambda x: [x[0] + v[0], x[1] + v[1]],
                 rotate=lambda x: [a + b for a, b in zip(v, quarter([x[0] - v[0], x[1] - v[1]], q))],
                 scale=lambda x: [v[0] + q * (x[0] - v[0]), v[1] + q * (x[1] - v[1])],
                 mirror=lambda x: [x[0], -x[1]] if q == 0 else [-x[0], x[1]],
                 matrix=lambda x: [a + b for a, b in zip(v, quarter(x, q))])[how]
        t = self.map(o['t'], f, q if how == 'scale' else 1, how == 'mirror')
        if max(map(abs, self.box(t))) > (1300 if self.grid is not None else 3500):
            return None
        o['t'] = t
        if how in ('mirror', 'rotate', 'scale', 'matrix') and how == 'mirror':
            o['fresh'] = False
        return dict(k='move', how=how, v=v, q=q)

    def probe(self, i):
        rng = self.rng
        t = self.o[i - 1]['t']
        b = self.box(t)
        qs = [[rng.randint(b[0] - 60, b[2] + 60), rng.randint(b[1] - 60, b[3] + 60)] for _ in range(5)]
        for _ in range(3):                                  # near borders
            p, r = rng.choice(self.leaves(t))
            B = outline(p, r, 20.)
            x = B[rng.randrange(len(B))]
            qs.append([int(x[0]) + rng.randint(-30, 30), int(x[1]) + rng.randint(-30, 30)])
        if rng.random() < .4:                               # level with a corner
            qs[0][1] = rng.choice(self.leaves(t)[0][0])[1]
        d = rng.choice([2, 4, 5, 8, 16])
        leaf = 'leaf' in t
        order = ['geom', 'box', 'len', 'ctr', 'inside'] + ([] if leaf and self.o[i - 1]['kind'] == 'polygon' and False else ['sample'])
        cells = self.grid is not None and max(map(abs, b)) <= 1600 and rng.random() < .5
        if leaf and len(t['leaf'][0]) > 1 or cells:
            order.append('area')
        rng.shuffle(order)
        return dict(k='probe', i=i, q=qs, us=[[rng.randint(0, d), d] for _ in range(4)], order=order, cells=cells)


def out_check(ctx):
    a = Out()
    tr = []
    for i in range(ctx.n(70, 1500)):
        g = Gen(ctx.rng, ctx.rng.choice([None, None, 0]))
        tr.append(a.record('o%d' % i, {}, g.ops(ctx.rng.randint(8, 22))))
    ctx.model_check('OutMC', ['InvSplit', 'InvSym', 'InvMove', 'InvScale', 'InvGrow', 'InvBox'], consts=dict(Depth=ctx.n(1, 2)), workers=8)
    ctx.report_bads(ctx.validate('OutTrace', tr, workers=6), tr, 'outline history')
