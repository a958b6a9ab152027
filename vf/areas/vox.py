"""Solids on a grid (Vox.tla): constructors, transforms, patterns, stacking, booleans, queries."""
import contextlib
import copy
import io
import json
import math
import os

from vf.core import Area, exc


def num(v):
    """an integer if it is one up to rounding, else its text"""
    r = round(v)
    return int(r) if abs(v - r) < 1e-5 * max(1, abs(v)) ** .5 else 'x%.4f' % v


AX = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1), '-x': (-1, 0, 0), '-y': (0, -1, 0), '-z': (0, 0, -1), 'd': (1, 1, 1)}


class Vox(Area):
    def __init__(self):
        import yapcad.geom as g
        import yapcad.geom3d as g3
        import yapcad.geom3d_util as gu
        from yapcad.geometry import Geometry
        from yapcad import xform
        self.g, self.g3, self.gu, self.G, self.xform = g, g3, gu, Geometry, xform

    def new(self, init):
        return dict(live=[], u=init['u'])

    # --- measures taken here, not by the library
    def tris(self, e):
        for s in e[1]:
            for f in s[3]:
                yield [s[1][i] for i in f], [s[2][i] for i in f]

    def show(self, s, e):
        u = s['u']
        v6 = area = 0.0
        edges, normals, pts = {}, True, []
        for (a, b, c), ns in self.tris(e):
            pts += [a, b, c]
            n = [(b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1]),
                 (b[2] - a[2]) * (c[0] - a[0]) - (b[0] - a[0]) * (c[2] - a[2]),
                 (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])]
            m = math.sqrt(sum(x * x for x in n))
            area += m / 2
            v6 += sum(x * y for x, y in zip(a, n))
            K = [tuple(round(x / u * 1e5) for x in p[:3]) for p in (a, b, c)]
            for i in range(3):
                p, q = K[i], K[(i + 1) % 3]
                if p != q:
                    edges[p, q] = edges.get((p, q), 0) + 1
            if m > 1e-6 * u * u:
                for k in ns:
                    if abs(k[3]) > 1e-9 or sum(x * y for x, y in zip(k, n)) / m < .02 or abs(sum(x * x for x in k[:3]) - 1) > 1e-3:
                        normals = False
        tight = all(edges.get((q, p), 0) == k for (p, q), k in edges.items())
        ok = all(abs(p[3] - 1) < 1e-9 for p in pts)
        return dict(vol=num(v6 / 6 / u ** 3), area=num(area / u ** 2), box=self.box(s, self.g3.solidbbox(e)), tight=tight and ok, normals=normals)

    def planes(self, s, e):
        """grid planes holding faces: only decides which of two observations the
        specification is asked about (it computes the same and would disagree)"""
        out = set()
        for ps, _ in self.tris(e):
            for a in range(3):
                c = {round(p[a] / s['u'] * 1e4) for p in ps}
                if len(c) == 1:
                    out.add((a, c.pop()))
        return out

    def box(self, s, b):
        return [[num(c / s['u']) for c in p[:3]] for p in b] if b else []

    def digest(self, e):
        e = self.elem(e)
        return json.dumps([[x[0:6] for x in e[1]], e[2], e[3]], default=str)

    def elem(self, e):
        return e.elem if isinstance(e, self.G) else e

    # --- events
    def apply(self, s, op):
        L = s['live']
        before = [self.digest(e) for e in L]
        changes = op['i'] - 1 if op['k'] in ('tr', 'rot', 'mir', 'scl') and isinstance(L[op['i'] - 1], self.G) else -1
        out = dict(res='ok', new=[])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                new, extra = self._do(s, op)
                out.update(extra)
                if 'vol' in extra:
                    del out['new']
                else:
                    out['new'] = [self.show_any(s, e) for e in new]
                if op['k'] == 'native':
                    return out
                if changes < 0:
                    L.extend(new)
        except Exception as e:
            out['res'] = exc(e)
        out['kept'] = all(self.digest(e) == d for i, (e, d) in enumerate(zip(L, before)) if i != changes)
        return out

    def show_any(self, s, e):
        if not isinstance(e, self.G):
            return self.show(s, e)
        r = self.show(s, e.geom)
        b = self.box(s, e.bbox)
        return r if b == r['box'] else dict(r, box=['bbox', b])

    def pt(self, s, v, m=1):
        return self.g.point(*[c * s['u'] / m for c in v])

    def vec(self, s, v, m=1, kind=0):
        q = [c * s['u'] / m for c in v]
        return q if kind == 1 else self.g.vect(*q, 0) if kind == 2 else self.g.point(*q)

    def prism(self, s, op):
        u, lo, d = s['u'], op['lo'], op['d']
        c = [(a + b / 2) * u for a, b in zip(lo, d)]
        if op.get('moved'):
            return self.g3.translatesolid(self.gu.prism(*[x * u for x in d]), self.g.point(*c))
        return self.gu.prism(*[x * u for x in d], center=self.g.point(*c))

    def extrude(self, s, op):
        u, g, g3 = s['u'], self.g, self.g3
        P = lambda ps, z: [g.point(x * u, y * u, z * u) for x, y in ps]
        close = lambda ps: ps + [ps[0]] if op['close'] else ps
        z = op['z']
        ply, holes = close(P(op['p'], z)), [close(P(h, z)) for h in op['holes']]
        if op['via'] == 'xy':
            srf, _ = g3.poly2surfaceXY(ply, holes, checkclosed=op['close'] and not z)
        else:
            srf, _ = g3.poly2surface(ply, holes)
        if op['flip']:
            srf = g3.reversesurface(srf)
        h = op['h'] * u
        if op['dir'] > 0:
            return self.gu.extrude(srf, h)
        return self.gu.extrude(srf, h, self.g.vect(0, 0, -1, 0))

    def _do(self, s, op):
        g, g3, gu, L, u, k = self.g, self.g3, self.gu, s['live'], s['u'], op['k']
        A = L[op['i'] - 1] if 'i' in op else None
        B = self.elem(L[op['j'] - 1]) if 'j' in op else None
        E = self.elem(A) if A is not None else None
        obj = isinstance(A, self.G)
        gen = op.get('gen')
        if k == 'box':
            return [self.prism(s, op)], {}
        if k == 'ext':
            return [self.extrude(s, op)], {}
        if k == 'wrap':
            return [self.G(A)], {}
        if k == 'copy':
            return [g3.solid(E)], {}
        if k == 'tr':
            v = self.vec(s, op['v'], kind=op.get('kind', 0))
            if obj:
                A.translate(v)
                return [A], {}
            return [(g3.translate if gen else g3.translatesolid)(E, v)], {}
        if k == 'rot':
            c = self.pt(s, op['c2'], 2)
            ang = op['q'] * (120 if op['ax'] == 'd' else 90)
            ax = g.point(*[x * op.get('long', 1) for x in AX[op['ax']]])
            if obj:
                A.rotate(ang, cent=c, axis=ax)
                return [A], {}
            f = g3.rotate if gen else g3.rotatesolid
            if op.get('mat'):
                m = self.xform.Translation(c).mul(self.xform.Rotation(ax, ang)).mul(self.xform.Translation(c, inverse=True))
                return [f(E, ang, cent=c, axis=ax, mat=m)], {}
            return [f(E, ang, cent=c, axis=ax)], {}
        if k == 'mir':
            if obj:
                A.mirror(op['pl'])
                return [A], {}
            return [(g3.mirror if gen else g3.mirrorsolid)(E, op['pl'])], {}
        if k == 'scl':
            q, c = op['s'], self.pt(s, op['c'])
            uni = q[0] == q[1] == q[2]
            if obj:
                A.scale(q[0], cent=c)
                return [A], {}
            a = (q[0],) if uni and op.get('short') else tuple(q)
            f = g3.scale if gen else g3.scalesolid
            if op['c'] == [0, 0, 0]:
                return [f(E, *[float(x) for x in a])], {}
            return [f(E, *[float(x) for x in a], cent=c)], {}
        if k == 'bool':
            r = g3.solid_boolean(E, B, op['op'], engine='trimesh')
            if self.planes(s, E) & self.planes(s, B):
                return [], dict(vol=self.show(s, r)['vol'])
            return [r], {}
        if k == 'native':
            a, b = self.prism(s, op['a']), self.prism(s, op['b'])
            if op['warm']:
                a = g3.translatesolid(a, g.point(3, 1, -2))
                g3.solid_boolean(a, b, op['op'], engine='native')
                a = g3.translatesolid(a, g.point(-3, -1, 2))
            d = self.digest(a), self.digest(b)
            r = g3.solid_boolean(a, b, op['op'], engine='native')
            if d != (self.digest(a), self.digest(b)):
                return [], dict(res='input changed')
            return [], dict(vol=self.show(s, r)['vol'])
        if k == 'stack':
            es = ['space:%r' % (-x * u) if x < 0 else self.elem(L[x - 1]) for x in op['es']]
            return list(gu.stack_solids(es, axis=op['ax'], start=op['start'] * u, gap=op['gap'] * u, align=op['align'])), {}
        if k == 'row':
            return list(gu.linear_pattern_solid(E, op['n'], self.vec(s, op['v'], kind=op.get('kind', 0)))), {}
        if k == 'ring':
            kw = dict(center=self.pt(s, op['c2'], 2), axis=g.point(*AX[op['ax']]))
            if not op['full']:
                kw['angle'] = float(op['q'] * (120 if op['ax'] == 'd' else 90) * (op['n'] - 1))
            return list(gu.radial_pattern_solid(E, op['n'], **kw)), {}
        if k == 'at':
            return [], dict(inside=[bool(g3.solid_contains_point(E, self.pt(s, p, 4))) for p in op['pts']])
        if k == 'meet':
            return [], dict(meet=bool(g3.solids_intersect(E, B)))
        if k == 'measure':
            ok = g3.issolidclosed(E)
            return [], dict(closed=ok, volume=num(g3.volumeof(E) / u ** 3) if ok else -1, box=self.box(s, g3.bbox(E)))
        raise KeyError(k)


# ---------------------------------------------------------------- histories
def polyomino(rng, n):
    """outline and holes of a random set of cells without corner contacts"""
    while True:
        cells = {(0, 0)}
        while len(cells) < n:
            x, y = rng.choice(sorted(cells))
            dx, dy = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
            if -2 <= x + dx <= 3 and -2 <= y + dy <= 3:
                cells.add((x + dx, y + dy))
        if any(((x + 1, y + d) in cells) and (x + 1, y) not in cells and (x, y + d) not in cells for x, y in cells for d in (1, -1)):
            continue
        nxt = {}
        for x, y in cells:
            for (dx, dy), (a, b) in {(0, -1): ((0, 0), (1, 0)), (1, 0): ((1, 0), (1, 1)), (0, 1): ((1, 1), (0, 1)), (-1, 0): ((0, 1), (0, 0))}.items():
                if (x + dx, y + dy) not in cells:
                    nxt[x + a[0], y + a[1]] = (x + b[0], y + b[1])
        loops = []
        while nxt:
            p, q = nxt.popitem()
            loop = [p]
            while q != p:
                loop.append(q)
                q = nxt.pop(q)
            if rng.random() < .7:       # drop the points along straight runs
                loop = [b for a, b, c in zip([loop[-1]] + loop[:-1], loop, loop[1:] + [loop[0]])
                        if (b[0] - a[0], b[1] - a[1]) != (c[0] - b[0], c[1] - b[1])]
            k = rng.randrange(len(loop))
            loops.append([list(t) for t in loop[k:] + loop[:k]])
        ar = lambda l: sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(l, l[1:] + l[:1]))
        outer = max(loops, key=ar)
        holes = [l for l in loops if l is not outer]
        return outer, holes


def hist(rng, size):
    R = rng.randint
    pt = lambda a, b: [R(a, b) for _ in range(3)]
    live = []           # [box, volume, wrapped]

    def rbox():
        if rng.random() < .5:       # on one of two lattices, so that pairs are often in general position
            o = R(0, 1)
            return dict(lo=[2 * R(-2, 1) + o for _ in range(3)], d=[2 * R(1, 3) for _ in range(3)], moved=rng.random() < .3)
        return dict(lo=pt(-3, 3), d=pt(1, 4), moved=rng.random() < .3)

    def whole(op):
        ax = 'xyz'.index(op['ax'])
        bs = [live[x - 1][0] for x in op['es'] if x > 0]
        return op['align'] != 'center' or all(len({(b[0][a] + b[1][a]) % 2 for b in bs}) == 1 for a in range(3) if a != ax)

    def c2():
        a = R(0, 1)
        return [2 * R(-2, 2) + a for _ in range(3)]

    for step in range(size):
        plain = [i for i, e in enumerate(live) if not e[2]]
        full = [i for i in plain if live[i][0]]
        ok = [i for i, e in enumerate(live) if e[0] and max(map(abs, e[0][0] + e[0][1])) < 12]
        r = rng.random()
        if len(live) < 2 or r < .08:
            op = dict(k='box', **rbox())
        elif r < .18:
            p, holes = polyomino(rng, R(1, 12))
            if rng.random() < .2:
                p = p[::-1]
            z, h = rng.choice([0, 0, 2, -3]), R(1, 3) if rng.random() < .95 else rng.choice([0, -2])
            if rng.random() < .3:
                o = R(0, 1)
                up = lambda l: [[2 * c + o for c in q] for q in l]
                p, holes, z, h = up(p), [up(q) for q in holes], 2 * z + o, 2 * h
            holes = [q[::-1] if rng.random() < .5 else q for q in holes]
            op = dict(k='ext', p=p, holes=holes, z=z, h=h,
                      dir=rng.choice([1, 1, -1]), via=rng.choice(['xy', 'any']), close=rng.random() < .5, flip=rng.random() < .2)
        elif r < .22:
            op = dict(k=rng.choice(['wrap', 'copy']), i=rng.choice(plain) + 1) if plain else None
        elif r < .30 and ok:
            op = dict(k='tr', i=rng.choice(ok) + 1, v=pt(-3, 3), gen=rng.random() < .5, kind=0)
        elif r < .42 and ok:
            op = dict(k='rot', i=rng.choice(ok) + 1, ax=rng.choice(list(AX)), q=R(-3, 5), c2=rng.choice([[0, 0, 0], c2(), c2()]), gen=rng.random() < .5,
                      mat=rng.random() < .2, long=rng.choice([1, 1, 2]))
            if op['q'] % (3 if op['ax'] == 'd' else 4) == 0:
                op['q'] = 1
        elif r < .48 and ok:
            op = dict(k='mir', i=rng.choice(ok) + 1, pl=rng.choice(['xy', 'xz', 'yz'] * 6 + ['zz']), gen=rng.random() < .5)
        elif r < .54 and ok:
            small = [i for i in ok if live[i][1] <= 30]
            if small:
                i = rng.choice(small)
                if live[i][2] or rng.random() < .5:
                    q = [rng.choice([2, -1, 1, 2, -2])] * 3
                else:
                    q = [rng.choice([1, 1, 2, -1]) for _ in range(3)]
                op = dict(k='scl', i=i + 1, s=q, c=rng.choice([[0, 0, 0], pt(-2, 2)]), short=rng.random() < .5, gen=rng.random() < .5)
            else:
                op = None
        elif r < .70 and len(full) > 1:
            a, b = rng.choice(full), rng.choice(full)
            op = dict(k='bool', op=rng.choice(['union', 'intersection', 'difference']), i=a + 1, j=b + 1)
        elif r < .74 and full:
            es = []
            for _ in range(R(1, 4)):
                es.append(rng.choice(full) + 1 if rng.random() < .8 else -R(1, 3))
            op = dict(k='stack', es=es, ax=rng.choice('xyz'), start=R(-3, 3), gap=rng.choice([0, 0, 1, 2]), align=rng.choice(['center', 'min', 'max']))
            if not any(x > 0 for x in es) or not whole(op):
                continue
        elif r < .77 and full:
            op = dict(k='row', i=rng.choice(full) + 1, n=R(0, 3), v=pt(-2, 3), kind=R(0, 2))
        elif r < .81 and full:
            ax = rng.choice(list(AX))
            if rng.random() < .5:
                op = dict(k='ring', i=rng.choice(full) + 1, n=3 if ax == 'd' else rng.choice([1, 2, 4]), ax=ax, full=True, q=0, c2=c2())
                if ax == 'd':
                    op['full'], op['q'] = False, 1
            else:
                op = dict(k='ring', i=rng.choice(full) + 1, n=R(0, 3), ax=ax, full=False, q=1, c2=c2())
        elif r < .90 and plain:
            i = rng.choice(plain)
            b = live[i][0] or [[0, 0, 0], [1, 1, 1]]
            op = dict(k='at', i=i + 1, pts=[[4 * R(b[0][c] - 1, b[1][c]) + R(1, 3) for c in range(3)] for _ in range(6)])
        elif r < .94 and len(plain) > 1:
            op = dict(k='meet', i=rng.choice(plain) + 1, j=rng.choice(plain) + 1)
        elif plain:
            op = dict(k='measure', i=rng.choice(plain) + 1)
        else:
            op = None
        if op is None:
            continue
        obs = yield op
        if obs['res'] != 'ok':
            continue
        for n in obs.get('new', []):
            b = n['box']
            good = b and b[0] != 'bbox' and all(isinstance(c, int) for p in b for c in p)
            e = [b if good else [], n['vol'] if isinstance(n['vol'], int) else 999, op['k'] == 'wrap']
            if op['k'] in ('tr', 'rot', 'mir', 'scl') and live[op['i'] - 1][2]:
                e[2] = True
                live[op['i'] - 1] = e
            else:
                live.append(e)


INVS = ('VInvSets', 'VInvIso', 'VInvBack', 'VInvScale', 'VInvBool', 'VInvShape')


def natives():
    """fixed pairs of boxes without a common face plane, for the native engine; with
    warm, the first one took part in another operation elsewhere before"""
    import random
    rng = random.Random('native pairs')
    ops = []
    for n in range(50):
        b = lambda o: dict(lo=[2 * rng.randint(0, 2) + o for _ in range(3)], d=[2 * rng.randint(1, 3) for _ in range(3)])
        for op in ('intersection', 'union', 'difference') if n < 6 else ('intersection',):
            ops.append(dict(k='native', op=op, a=b(0), b=b(1), warm=n % 2))
    return ops


def vox_check(ctx):
    a = Vox()
    ctx.model_check('VoxMC', INVS, consts=dict(Depth=ctx.n(2, 3)), timeout=700)
    beh = ctx.generate('VoxMC', consts=dict(Depth=6), simulate=ctx.n(40, 400), depth=6, timeout=600)
    a.replay(ctx, [dict(b, init=dict(u=1.0)) for b in beh], 'specification behaviours')
    traces = []
    for i in range(ctx.n(220, 1800)):
        u = ctx.rng.choice([1.0, 1.0, .5, 2.5, 10.0, .1, .01, 1 / 3])
        traces.append(a.record('h%d' % i, dict(u=u), hist(ctx.rng, ctx.rng.randint(6, 16))))
    ctx.report_bads(ctx.validate('VoxTrace', traces, workers=8, chunk=500), traces, 'solids')
    traces = []
    for i, op in enumerate(natives()):
        def one():
            yield op
        traces.append(a.record('n%d' % i, dict(u=1.0), one()))
    for b in ctx.validate('VoxTrace', traces, workers=8, chunk=500):
        o = b['op']
        ctx.violation('native engine: %s of boxes %s and %s%s: expected %s got %s' % (
            o['op'], o['a'], o['b'], ' (moved after an earlier operation)' if o['warm'] else '', b['expected'], b['got']),
            key='native %s %s %s%s' % (o['op'], o['a'], o['b'], ' warm' if o['warm'] else ''))
    ctx.assumptions += ['boolean operations run on the trimesh engine with the installed backend (no OCC here)']
