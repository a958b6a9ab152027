"""Shape functions of the DSL (Shape.tla): programs of definitions, compiled and run; what they denote is measured."""
import contextlib
import io
import json
import os

from vf.core import Area, exc
from vf.areas.vox import Vox, num


class Shape(Area):
    def __init__(self):
        os.environ['YAPCAD_BOOLEAN_ENGINE'] = 'trimesh'
        self.vox = Vox()
        from yapcad.dsl.runtime.interpreter import compile_and_run
        self.run = compile_and_run

    def new(self, init):
        return dict(lets=[], vals=[], w=init['w'])

    # --- text
    def text(self, e, style):
        f, n = e['f'], e['n']
        F = lambda v: '%d.0' % v
        x = [self.text(q, style) for q in e['x']]
        vec = lambda v: 'vector(%s)' % ', '.join(F(c) for c in v)
        pt = lambda v: 'point(%s)' % ', '.join(F(c) for c in v)
        if f == 'var':
            return 'v%d' % n[0]
        if f in ('plus', 'minus'):
            return '(%s %s %s)' % (x[0], '+' if f == 'plus' else '-', x[1])
        if f in ('times', 'over'):
            return '(%s %s %s)' % (x[0], '*' if f == 'times' else '/', F(n[0]) if style else str(n[0]))
        if f == 'neg':
            return '(-%s)' % x[0]
        if f == 'coord':
            return '%s.%s' % (x[0], 'xyz'[n[0] - 1])
        if f == 'list':
            return '[%s]' % ', '.join(x)
        if f == 'index':
            return '%s[%d]' % (x[0], n[0])
        if f == 'point' and style and n[2] == 0:
            return pt(n[:2])
        if f == 'mirror':
            return 'mirror(%s, %s)' % (x[0], vec(n))
        if f == 'rotate_xform':
            return 'rotate_xform(%s, %s)' % (vec(n[:3]), F(n[3]))
        if f in ('translate_xform', 'scale_xform'):
            return '%s(%s)' % (f, vec(n))
        if f == 'mirror_2d':
            return 'mirror_2d(vector2d(%s, %s))' % tuple(F(c) for c in n)
        if f == 'linear_pattern':
            return 'linear_pattern(%s, %d, %s)' % (x[0], n[0], vec(n[1:]))
        if f == 'radial_pattern':
            return 'radial_pattern(%s, %d, %s, %s)' % (x[0], n[0], vec(n[1:4]), pt(n[4:]))
        if f == 'oblate_spheroid':
            return 'oblate_spheroid(%s, %s)' % (F(n[0]), n[1] / 4)
        if f == 'rectangle':
            return 'rectangle(%s)' % ', '.join([F(c) for c in n[:2]] + ([pt(n[2:])] if len(n) > 2 else []))
        if f == 'polygon':
            return 'polygon([%s])' % ', '.join(pt(n[i:i + 2]) for i in range(0, len(n), 2))
        if f == 'regular_polygon':
            return 'regular_polygon(%d, %s)' % (n[0], F(n[1]))
        if f == 'disk':
            return 'disk(point(%s, %s), %s%s)' % (F(n[1]), F(n[2]), F(n[0]), ', 64' if style else '')
        if f in ('arc', 'circle'):
            return '%s(%s, %s)' % (f, x[0], ', '.join([F(n[0])] + [F(90 * q) for q in n[1:]] * (f == 'arc')))
        if f in ('sample_curve', 'path3d_eval'):
            return '%s(%s, %r)' % (f, x[0], n[0] / n[1])
        if f == 'sample_curve_n':
            return 'sample_curve_n(%s, %d)' % (x[0], n[0])
        if f == 'distance':
            return 'distance(%s, %s, 0.001)' % (x[0], x[1])
        if f == 'path3d':
            segs = ['path3d_line(%s, %s)' % (a, b) for a, b in zip(x, x[1:])]
            return segs[0] if len(segs) == 1 and style else 'make_path3d(%s)' % ', '.join(segs)
        return '%s(%s)' % (f, ', '.join(x + [F(c) for c in n]))

    def deps(self, s, e, out):
        if e['f'] == 'var':
            i = e['n'][0]
            if i not in out:
                out.add(i)
                self.deps(s, s['lets'][i - 1]['e'], out)
        for q in e['x']:
            self.deps(s, q, out)
        return out

    TYPES = dict(sol='solid', num='float', int='int', pt='point', vec='vector', xf='transform', reg='region2d', path='path3d',
                 lsol='list<solid>', lreg='list<region2d>', lpt='list<point>', seg='line_segment', arc='arc', circle='circle')

    def program(self, s, want, i):
        L = ['module shapes', '', 'command GO() -> %s:' % self.TYPES[s['lets'][i - 1]['ty']]]
        for j in sorted(want):
            op = s['lets'][j - 1]
            ann = ': ' + self.TYPES[op['ty']] if op['ann'] else ''
            L.append('    let v%d%s = %s' % (j, ann, self.text(op['e'], op['style'])))
        return '\n'.join(L + ['    emit v%d' % i, ''])

    def value(self, s, i, more=()):
        want = self.deps(s, dict(f='var', n=[i], x=[]), set())
        for j in more:
            self.deps(s, dict(f='var', n=[j], x=[]), want)
        src = self.program(s, want, i)
        with contextlib.redirect_stdout(io.StringIO()):
            r = self.run(src, 'GO', {})
        if not r.success:
            return False, r.error_message
        return True, r.emit_result.data

    # --- observations
    def told(self, ty, d):
        if ty in ('num', 'int'):
            return num(float(d))
        if ty in ('pt', 'vec'):
            return self.co(d)
        if ty == 'xf':
            m = [d.getrow(i) for i in range(4)]
            if [num(c) for c in m[3]] != [0, 0, 0, 1]:
                return 'row %s' % m[3]
            return [[[num(c) for c in r[:3]] for r in m[:3]], [num(r[3]) for r in m[:3]]]
        if ty[0] == 'l':
            return [self.told(ty[1:], getattr(q, 'data', q)) for q in d]
        return []

    def co(self, d):
        return [num(2 * c) for c in d[:3]] if abs(d[3] - 1) < 1e-9 else 'w %s' % d

    def apply(self, s, op):
        try:
            return self._apply(s, op)
        except Exception as e:
            return dict(res=exc(e), val=[])

    def _apply(self, s, op):
        if op['k'] == 'let':
            s['lets'].append(op)
            s['vals'].append(None)
            good, d = self.value(s, len(s['lets']))
            if not good:
                return dict(res='fails', val=[])
            s['vals'][-1] = d
            return dict(res='ok', val=self.told(op['ty'], d))
        i, ty = op['i'], s['lets'][op['i'] - 1]['ty']
        if op['k'] == 'gauge':
            out = []
            for f in ('area', 'perimeter'):
                s['lets'].append(dict(e=dict(f=f, n=[], x=[dict(f='var', n=[i], x=[])]), ty='num', ann=False, style=0))
                good, d = self.value(s, len(s['lets']))
                s['lets'].pop()
                out.append(round(d * 1000) if good else -1)
            op['saw'] = out
            return dict(res='ok', val=[True, True])
        # everything defined so far is evaluated before the value is looked at
        more = [j + 1 for j, v in enumerate(s['vals']) if v is not None] if op['k'] == 'look' else ()
        good, d = self.value(s, i, more)
        if op['k'] == 'near':
            op['saw'] = self.measure(d) if good else dict(vol=-1, box=[[0] * 3] * 2, tight=False, normals=False)
            return dict(res='ok' if good else 'fails', val=dict(vol=True, box=True, tight=True, normals=True))
        if not good:
            return dict(res='fails', val=[])
        r = self.vox.show(dict(u=1.0), d)
        return dict(res='ok', val=r['vol'] if op['k'] == 'vol' else r)

    def measure(self, d):
        r = self.vox.show(dict(u=1.0), d)
        val = lambda c, m: round(m * (float(c[1:]) if isinstance(c, str) else c))
        box = self.vox.show(dict(u=.01), d)['box']
        return dict(vol=val(r['vol'], 100), box=[[val(c, 1) for c in p] for p in box], tight=r['tight'], normals=r['normals'])


# --- programs

AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (0, 0, 2), (0, 3, 0)]
QUARTERS = [0, 90, 180, 270, -90, -180, 360, 450]


def E(f, x=(), n=()):
    return dict(f=f, x=list(x), n=list(n))


class Gen:
    def __init__(self, rng):
        self.r, self.env = rng, []                      # env: (ty, size, round)

    def var(self, ok):
        c = [i for i, (t, z, q) in enumerate(self.env) if ok(t, z, q)]
        return self.r.choice(c[-4:] if self.r.random() < .7 else c) if c else None

    def vec3(self, m=6):
        return [self.r.choice([0, 0, 1, -1, 2, 3, -4, 5, -m, m, -3]) for _ in range(3)]

    # solids: expression, size, round
    def box(self):
        r = self.r
        d = [r.choice([2, 2, 4, 4, 6, 8]) for _ in range(3)]
        return E('box', (), d), d[0] * d[1] * d[2], False

    def rounded(self):
        r = self.r
        f = r.choice(['cylinder', 'cone', 'tube', 'conic_tube', 'spherical_shell', 'sphere', 'oblate_spheroid', 'dodecahedron'])
        a, b, c = r.choice([2, 3, 4]), r.choice([1, 2, 5]), r.choice([2, 4, 6])
        n = dict(cylinder=[a, c], cone=r.choice([[a, b, c], [a, 0, c]]), tube=[2 * a + 2, r.choice([1, 2]), c], conic_tube=[2 * a + 2, r.choice([4, 6, 8]), 1, c],
                 spherical_shell=[2 * a + 2, r.choice([1, 2])], sphere=[b], oblate_spheroid=[c, r.choice([0, 1, 2])], dodecahedron=[c])[f]
        return E(f, (), n), 100, True

    def solid(self, d=0, exact=False):
        r = self.r
        if r.random() < (.35 if d else .2):
            i = self.var(lambda t, z, q: t == 'sol' and z < 400 and not (exact and q))
            if i is not None:
                return E('var', (), [i + 1]), self.env[i][1], self.env[i][2]
        if d > 2 or r.random() < .2:
            return self.rounded() if not exact and r.random() < .35 else self.box()
        k = r.choice(['move'] * 5 + ['bool'] * 4 + ['cross', 'cross', 'all', 'compound', 'index'])
        if k == 'cross':
            xs = self.crossing(r.choice([2, 3, 3, 4]))
            f = r.choice(['union', 'difference', 'intersection'])
            if r.random() < .3:
                return (E('difference_all', [xs[0], E('list', xs[1:])]) if f[0] == 'd' else E(f + '_all', [E('list', xs)])), 300, False
            return E(f, xs), 300, False
        if k == 'move':
            x, z, q = self.solid(d + 1, exact)
            f = r.choice(['translate', 'translate', 'rotate', 'scale', 'mirror', 'apply', 'apply'])
            if f == 'translate':
                return E(f, [x], self.vec3()), z, q
            if f == 'rotate':
                return E(f, [x], [r.choice(QUARTERS) for _ in range(3)]), z, q
            if f == 'scale':
                n = [r.choice([1, 1, -1, 2, -2, 3]) if z < 60 else r.choice([1, -1]) for _ in range(3)]
                return E(f, [x], n), z * abs(n[0] * n[1] * n[2]), q
            if f == 'mirror':
                return E(f, [x], r.choice([list(v) for v in AXES] + [[1, 1, 0], [0, 1, -1], [2, 0, -2]] if r.random() < .98 else [[0, 0, 0]])), z, q
            t, m = self.xform(z < 60)
            return E('apply', [t, x]), z * m, q
        if k == 'bool':
            n = r.choice([2, 2, 2, 3])
            xs = [self.shifted(d) for _ in range(n)]
            return E(r.choice(['union', 'difference', 'intersection']), [x for x, z in xs]), sum(z for x, z in xs), False
        if k == 'all':
            l, z, q = self.solids(d + 1, True)
            f = r.choice(['union_all', 'union_all', 'intersection_all', 'difference_all'])
            if f == 'difference_all':
                x, y = self.shifted(d)
                return E(f, [x, l]), y, False
            return E(f, [l]), z, False
        if k == 'compound':
            xs, z, at = [], 0, 0
            for _ in range(r.choice([2, 2, 3])):
                x, y, q = self.box()
                if r.random() < .9:
                    x = E('translate', [x], [at, r.choice([0, 1, 3]), 0])
                xs.append(x)
                z += y
                at += r.choice([9, 10, 12])
            return E('compound', xs), z, False
        l, z, q = self.solids(d + 1, exact)
        return E('index', [l], [0 if r.random() < .6 else r.choice([0, 1, 1, 2])]), z, q

    def crossing(self, n):
        """boxes around a common cell without a common plane (mostly)"""
        r = self.r
        ax = []
        for _ in range(3):
            lo, hi = list(range(-n, 0)), list(range(1, n + 3))
            r.shuffle(lo)
            r.shuffle(hi)
            ax.append([(a, hi.pop(next(i for i, b in enumerate(hi) if (b - a) % 2 == 0))) if any((b - a) % 2 == 0 for b in hi) else (a, a + 2) for a in lo])
        out = []
        for b in zip(*ax):
            d = [h - l for l, h in b]
            c = [l + v // 2 for (l, h), v in zip(b, d)]
            out.append(E('translate', [E('box', (), d)], c if r.random() < .95 else [c[0] + 9, c[1], c[2]]))
        return out

    def shifted(self, d):
        x, z, q = self.solid(d + 1, True)
        if self.r.random() < .7:
            x = E('translate', [x], self.vec3(4))
        return x, z

    def solids(self, d=0, exact=False):
        r = self.r
        i = self.var(lambda t, z, q: t == 'lsol' and z < 600 and not (exact and q)) if r.random() < .3 else None
        if i is not None:
            return E('var', (), [i + 1]), self.env[i][1], self.env[i][2]
        k = r.choice(['list', 'linear_pattern', 'linear_pattern', 'radial_pattern', 'reverse', 'concat'] if d < 3 else ['list'])
        if k == 'list':
            xs = [self.solid(d + 1, exact) for _ in range(r.choice([1, 2, 2, 3]))]
            return E('list', [x for x, z, q in xs]), sum(z for x, z, q in xs), any(q for x, z, q in xs)
        if k in ('reverse', 'concat'):
            xs = [self.solids(d + 1, exact) for _ in range(1 if k == 'reverse' else 2)]
            return E(k, [x for x, z, q in xs]), sum(z for x, z, q in xs), any(q for x, z, q in xs)
        x, z, q = self.solid(d + 1, exact)
        if r.random() < .6:
            x = E('translate', [x], self.vec3())
        if k == 'linear_pattern':
            n = r.choice([1, 2, 3, 3]) if r.random() < .97 else 0
            return E(k, [x], [n] + (self.vec3() if r.random() < .6 else [r.choice([9, -11, 3]), 0, 0])), z * max(n, 1), q
        n, ax = r.choice([(1, AXES[2]), (2, r.choice(AXES)), (4, r.choice(AXES)), (3, (1, 1, 1)), (3, (-2, -2, -2)), (2, (0, 0, 1)) if r.random() < .9 else (0, AXES[0])])
        return E(k, [x], [n] + list(ax) + self.vec3(4)), z * max(n, 1), q

    def xform(self, grow=True):
        r = self.r
        if r.random() < .2:
            i = self.var(lambda t, z, q: t == 'xf' and (z == 1 or grow))
            if i is not None:
                return E('var', (), [i + 1]), self.env[i][1]
        f = r.choice(['translate_xform', 'rotate_xform', 'rotate_2d', 'scale_xform', 'scale_uniform', 'mirror_2d', 'mirror_y', 'identity_transform'])
        s = [1, -1, 2, -2, 3] if grow else [1, -1]
        n = dict(translate_xform=self.vec3(), rotate_xform=r.choice([list(r.choice(AXES)) + [r.choice(QUARTERS)], [1, 1, 1, 120], [2, 2, 2, 240], [1, 1, 0, 180]]),
                 rotate_2d=[r.choice(QUARTERS)], scale_xform=[r.choice(s) for _ in range(3)], scale_uniform=[r.choice(s)],
                 mirror_2d=r.choice([[1, 0], [0, 1], [1, 1], [1, -1], [-2, 0], [3, 3]] if r.random() < .95 else [[0, 0]]), mirror_y=[], identity_transform=[])[f]
        m = abs(n[0] * n[1] * n[2]) if f == 'scale_xform' else abs(n[0]) ** 3 if f == 'scale_uniform' else 1
        return E(f, (), n), m

    def point(self, d=0, kind=None):
        """expression and whether it is a point or a vector"""
        r = self.r
        kind = kind or r.choice(['pt', 'vec'])
        if r.random() < .3:
            i = self.var(lambda t, z, q: t == kind)
            if i is not None:
                return E('var', (), [i + 1]), kind
        if d > 2 or r.random() < .25:
            return E('point' if kind == 'pt' else 'vector', (), self.vec3()), kind
        f = r.choice(['plus', 'minus', 'times', 'over', 'neg', 'apply', 'apply', 'centroid', 'sample', 'eval'])
        if f in ('plus', 'minus'):
            return E(f, [self.point(d + 1, kind)[0], self.point(d + 1, r.choice([kind, 'vec']))[0]]), kind
        if f in ('times', 'over'):
            return E(f, [self.point(d + 1, kind)[0]], [r.choice([2, 3, -1, -2] + ([0] if f == 'times' or r.random() < .1 else [4]))]), kind
        if f == 'neg':
            return E(f, [self.point(d + 1, kind)[0]]), kind
        if f == 'apply' or kind == 'vec':
            return E('apply_point' if kind == 'pt' else 'apply_vector', [self.xform()[0], self.point(d + 1, kind)[0]]), kind
        if f == 'centroid':
            x, z, q = self.box()
            for _ in range(r.choice([1, 2])):
                x = E('translate', [x], self.vec3()) if r.random() < .7 else E('rotate', [x], [r.choice(QUARTERS) for _ in range(3)])
            return E(f, [x]), 'pt'
        if f == 'eval':
            return E('path3d_eval', [E('path3d', [self.point(d + 1, 'pt')[0] for _ in range(2)])], r.choice([[0, 1], [1, 1], [1, 2], [1, 4], [3, 4]])), 'pt'
        c, t = self.curve(d + 1)
        return E('sample_curve', [c], r.choice([[0, 1], [1, 1], [1, 2], [1, 4], [1, 3]])), 'pt'

    def curve(self, d=0):
        r = self.r
        i = self.var(lambda t, z, q: t in ('seg', 'arc', 'circle')) if r.random() < .3 else None
        if i is not None:
            return E('var', (), [i + 1]), self.env[i][0]
        if r.random() < .5:
            p = self.vec3()
            return E('line', [E('point', (), p), E('point', (), [a + b for a, b in zip(p, r.choice([[4, 0, 0], [0, 4, 0], [3, 4, 0], [0, 0, 6], [2, 2, 1], [1, 5, 3]]))])]), 'seg'
        c = E('point', (), self.vec3()[:2] + [0])
        if r.random() < .3:
            return E('circle', [c], [r.choice([1, 2, 5])]), 'circle'
        a = r.choice([0, 1, 2, 3])
        return E('arc', [c], [r.choice([1, 2, 5]), a, a + r.choice([1, 2, 3])]), 'arc'

    def region(self, d=0):
        r = self.r
        if r.random() < .3:
            i = self.var(lambda t, z, q: t == 'reg')
            if i is not None:
                return E('var', (), [i + 1])
        if d > 1 or r.random() < .35:
            if r.random() < .35:
                a, b, c, e = r.choice([1, 2, 3]), r.choice([4, 5]), r.choice([1, 2]), r.choice([3, 6])
                x, y = r.choice([-5, -2, 0, 1]), r.choice([-4, -1, 0])
                o = r.choice([[0, 0, b, 0, b, c, a, c, a, e, 0, e], [0, 0, b, 0, b, e, 0, e], [0, 0, b, 0, b, e, a, e, a, c, 0, c],
                              [0, 0, b + 2, 0, b + 2, e, b, e, b, c, a, c, a, e, 0, e]])
                if r.random() < .5:
                    o = [v for i in range(len(o) - 2, -1, -2) for v in o[i:i + 2]]
                return E('polygon', (), [v + (x, y)[i % 2] for i, v in enumerate(o)] if r.random() < .95 else [0, 0, 2, 0])
            n = [r.choice([2, 4, 6, 8]), r.choice([2, 4, 6, 8])]
            return E('rectangle', (), n + ([r.choice([0, 1, 2, -3]), r.choice([0, 1, -2])] if r.random() < .6 else []))
        k = r.choice(['bool', 'bool', 'cross', 'cross', 'hole', 'all', 'index'])
        if k == 'cross':
            xs = []
            for x in self.crossing(r.choice([2, 2, 3])):
                b, c = x['x'][0]['n'], x['n']
                xs.append(E('rectangle', (), b[:2] + c[:2]))
            f = r.choice(['union2d', 'difference2d', 'intersection2d'])
            if len(xs) == 2 and r.random() < .5:
                return E(f, xs)
            return E(f + '_all', [xs[0], E('list', xs[1:])] if f[0] == 'd' else [E('list', xs)])
        if k == 'bool':
            return E(r.choice(['union2d', 'difference2d', 'intersection2d']), [self.region(d + 1), self.region(d + 1)])
        if k == 'hole':
            x = E('rectangle', (), [r.choice([10, 12, 14]), r.choice([10, 12])])
            for _ in range(r.choice([1, 2])):
                x = E('difference2d', [x, E('rectangle', (), [2, r.choice([2, 4]), r.choice([-3, 0, 3]), r.choice([-2, 0, 2])])])
            return x
        if k == 'all':
            l = self.regions(d + 1)
            f = r.choice(['union2d_all', 'intersection2d_all', 'difference2d_all'])
            return E(f, [self.region(d + 1), l] if f[0] == 'd' else [l])
        return E('index', [self.regions(d + 1)], [r.choice([0, 0, 0, 1])])

    def regions(self, d=0):
        r = self.r
        if r.random() < .5:
            return E('list', [self.region(d + 1) for _ in range(r.choice([1, 2, 3]))])
        if r.random() < .5:
            return E('linear_pattern', [self.region(d + 1)], [r.choice([1, 2, 3]), r.choice([1, 3, -3, 0]), r.choice([1, 0, 5]), 0])
        return E('radial_pattern', [self.region(d + 1)], [r.choice([1, 2, 4]), 0, 0, 1, r.choice([0, 1, -2]), r.choice([0, 3]), 0])

    def number(self):
        r = self.r
        f = r.choice(['volume', 'volume', 'surface_area', 'area', 'area', 'perimeter', 'distance', 'coord', 'curve_length', 'path3d_length', 'len'])
        if f in ('volume', 'surface_area'):
            return E(f, [self.solid(1, True)[0]]), 'num'
        if f in ('area', 'perimeter'):
            return E(f, [self.region()]), 'num'
        if f == 'len':
            return E(f, [self.solids(1, True)[0]]), 'int'
        if f == 'curve_length':
            return E(f, [self.curve()[0]]), 'num'
        if f == 'coord':
            i = self.var(lambda t, z, q: t in ('pt', 'vec'))
            return (E(f, [E('var', (), [i + 1])] if i is not None else [E('point', (), self.vec3())], [r.choice([1, 2, 3])])), 'num'
        p = self.vec3()
        q = lambda p: [a + b for a, b in zip(p, r.choice([[4, 0, 0], [3, 4, 0], [0, -3, 4], [2, 2, 1], [0, 0, -5], [6, 2, 3], [8, 0, 6]]))]
        if f == 'distance':
            return E(f, [E('point', (), p), E('point', (), q(p))]), 'num'
        ps = [p]
        for _ in range(r.choice([1, 2, 3])):
            ps.append(q(ps[-1]))
        return E(f, [E('path3d', [E('point', (), v) for v in ps])]), 'num'

    def let(self):
        r = self.r
        k = r.choice(['sol'] * 6 + ['num'] * 3 + ['pt'] * 3 + ['reg'] * 2 + ['lsol', 'xf', 'curve', 'lpt', 'rreg'])
        z, q = 0, False
        if k == 'sol':
            e, z, q = self.solid()
        elif k == 'lsol':
            e, z, q = self.solids()
        elif k == 'num':
            e, k = self.number()
        elif k == 'pt':
            e, k = self.point()
        elif k == 'reg':
            e = self.region()
        elif k == 'xf':
            e, z = self.xform()
        elif k == 'curve':
            e, k = self.curve()
        elif k == 'lpt':
            c, t = self.curve()
            e = E('sample_curve_n', [c], [r.choice([2, 2, 3, 4, 5, 1])])
        else:
            k, q = 'reg', True
            e = E('regular_polygon', (), [r.choice([3, 4, 6, 8, 12]), r.choice([1, 2, 5])]) if r.random() < .6 else E('disk', (), [r.choice([1, 2, 5])] + [r.choice([0, 3, -2]), 1])
        self.env.append(('rreg' if k == 'reg' and q else k, z, q))
        return dict(k='let', e=e, ty=k, ann=r.random() < .4, style=r.choice([0, 1]))

    def ops(self, n):
        r = self.r
        for _ in range(n):
            yield self.let()
            t, z, q = self.env[-1]
            i = len(self.env)
            if r.random() < .25 and len(self.env) > 1:
                j = self.var(lambda t, z, q: t in ('sol', 'rreg'))
                if j is not None:
                    i = j + 1
                    t, z, q = self.env[j]
            if t == 'sol':
                yield dict(k='near' if q else r.choice(['look', 'look', 'vol']), i=i)
            elif t == 'rreg':
                yield dict(k='gauge', i=i)
            elif t == 'reg' and r.random() < .7:
                self.env.append(('num', 0, False))
                yield dict(k='let', e=E(r.choice(['area', 'perimeter']), [E('var', (), [i])]), ty='num', ann=r.random() < .4, style=0)


def shape_check(ctx):
    a = Shape()
    ctx.model_check('ShapeMC', ['InvMove', 'InvAngles', 'InvXform', 'InvBool', 'InvPattern', 'InvRegion', 'InvGood'], consts=dict(Depth=ctx.n(2, 3)), timeout=700, workers=7)
    beh = ctx.generate('ShapeMC', consts=dict(Depth=6), simulate=ctx.n(80, 800), depth=6, timeout=600)
    a.replay(ctx, [dict(b, init=dict(w=0)) for b in beh], 'specification behaviours')
    traces = []
    for i in range(ctx.n(200, 2500)):
        traces.append(a.record('p%d' % i, dict(w=0), Gen(ctx.rng).ops(ctx.rng.randint(3, 9))))
    ctx.report_bads(ctx.validate('ShapeTrace', traces, workers=7), traces, 'DSL shapes')
    ctx.assumptions += ['numbers of the text are whole (dimensions of centred boxes even); turns are quarter turns or thirds about a diagonal; mirrors keep the grid',
                        'booleans run on the trimesh engine; solids with faces in a common plane are judged by volume only, outlines that touch or share lines not at all',
                        'round solids are judged by volume and box within the facet error of the default resolution',
                        'apply_vector with a translation, revolve, extrude, sweep, loft and fillet are not judged']
