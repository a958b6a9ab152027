"""Space paths: binds Path.tla to yapcad.manufacturing.path_utils."""
import copy, math, random
import numpy as np
from ..core import Area, exc

UNIT = 256


class Spine:
    """a path with the shape w, in some place; answers where points lie on it"""

    def __init__(self, w, seed):
        for k in range(200):
            self.build(w, random.Random(seed * 1000 + k))
            pts = np.concatenate([[self.point(i, u) for u in range(UNIT)] for i in range(len(w))] + [[self.point(len(w) - 1, UNIT)]])
            d = pts[:, None] - pts[None]
            d = (d * d).sum(2)
            np.fill_diagonal(d, 1)
            if d.min() > 1e-8:
                return
        raise RuntimeError('no path without crossings')

    def build(self, w, rng):
        vec = lambda: np.array([rng.gauss(0, 1) for _ in range(3)])
        unit = lambda v: v / np.linalg.norm(v)
        flat = rng.random() < .3
        p = np.array([float(rng.randint(-20, 20)) for _ in range(3)])
        self.g, self.segs = [], []
        for x in w:
            if x['k'] == 'line':
                d = np.eye(3)[rng.randint(0, 2)] * rng.choice([1, -1]) if flat else unit(vec())
                g = dict(k='line', p=p, d=d, L=x['w'])
                e = p + d * x['w']
                s = dict(type='line', start=p.tolist(), end=e.tolist())
                if rng.random() < .2:
                    del s['type']
            else:
                q = rng.choice([q for q in (1, 2, 3) if x['w'] % q == 0])
                r = x['w'] // q
                n = np.eye(3)[rng.choice([2, 2, 1, 0])] * rng.choice([1, 1, -1]) if flat else unit(vec())
                d = np.roll(n, rng.choice([1, 2])) * rng.choice([1, -1]) if flat and rng.random() < .6 else unit(np.cross(n, vec()))
                g = dict(k='arc', c=p - r * d, r=r, d=d, f=np.cross(n, d), ang=q * math.pi / 2)
                e = self.arc(g, 1)
                s = dict(type='arc', center=g['c'].tolist(), start=p.tolist(), end=e.tolist(), normal=(n * rng.choice([1, 1, .5, 3])).tolist())
                if n[2] == 1 and rng.random() < .5:
                    del s['normal']
            if rng.random() < .2:
                for k in ('start', 'end', 'center'):
                    if k in s:
                        s[k] = s[k] + [1.0]
            self.g.append(g)
            self.segs.append(s)
            p = e

    def arc(self, g, t):
        a = t * g['ang']
        return g['c'] + g['r'] * (math.cos(a) * g['d'] + math.sin(a) * g['f'])

    def point(self, i, u):
        g = self.g[i]
        return g['p'] + g['d'] * g['L'] * u / UNIT if g['k'] == 'line' else self.arc(g, u / UNIT)

    def tangent(self, i, u):
        g = self.g[i]
        if g['k'] == 'line':
            return g['d']
        a = u / UNIT * g['ang']
        return -math.sin(a) * g['d'] + math.cos(a) * g['f']

    def seglen(self, i):
        g = self.g[i]
        return g['L'] if g['k'] == 'line' else g['r'] * g['ang']

    def locate(self, p):
        """all (segment, fraction) at which the path passes p"""
        p = np.array(p[:3], float)
        out = []
        for i, g in enumerate(self.g):
            if g['k'] == 'line':
                t = float((p - g['p']) @ g['d']) / g['L']
            else:
                v = p - g['c']
                a = math.atan2(v @ g['f'], v @ g['d'])
                t = a / g['ang'] if a > -1e-7 else (a + 2 * math.pi) / g['ang']
            if -1e-7 < t < 1 + 1e-7 and np.linalg.norm(self.point(i, t * UNIT) - p) < 1e-6:
                out.append((i, t))
        return out

    def label(self, p):
        """(segment, Unit-ths), the end of a segment being the start of the next"""
        for i, t in self.locate(p)[::-1]:
            u = round(t * UNIT)
            if abs(u - t * UNIT) < 1e-4:
                return [i + 1, 0] if u == UNIT and i + 1 < len(self.g) else [i, u]
        return None

    def along(self, p):
        """length from the start to p"""
        for i, t in self.locate(p):
            return sum(self.seglen(j) for j in range(i)) + t * self.seglen(i)
        return None


class Paths(Area):
    def new(self, init):
        sp = Spine(init['w'], init['seed'])
        w = [[(i, 0, UNIT) for i in range(len(init['w']))]]
        return dict(sp=sp, ps=[dict(segments=sp.segs)], qs=w)

    def lab(self, s, p):
        x = s['sp'].label(p)
        return dict(s=x[0] + 1, u=x[1]) if x else 'off %s' % np.round(p, 4).tolist()

    def at(self, s, x, i, j):
        q = s['qs'][x][i - 1]
        return q[0], q[1] + (q[2] - q[1]) * j / 4

    def reflen(self, s, x, i=None, j=0):
        q = s['qs'][x]
        if i is None:
            i, j = len(q), 4
        r = sum((b - a) / UNIT * s['sp'].seglen(k) for k, a, b in q[:i - 1])
        k, a, b = q[i - 1]
        return r + (b - a) * j / 4 / UNIT * s['sp'].seglen(k)

    def pair(self, s, x, L, i=None, j=0):
        """a length, as Unit-ths of line and of quarter arc when it is that of the path up to quarter j of piece i"""
        a = b = 0
        q = s['qs'][x]
        if i is None:
            i, j = len(q), 4
        for y, (k, lo, hi) in enumerate(q[:i]):
            u = (hi - lo) * (4 if y < i - 1 else j) // 4
            g = s['sp'].g[k]
            if g['k'] == 'line':
                a += u * g['L']
            else:
                b += u * g['r'] * round(g['ang'] / math.pi * 2)
        return dict(a=a, b=b) if abs(L - (a + b * math.pi / 2) / UNIT) < 1e-5 else 'off %.6f' % L

    def measure(self, s, segs):
        """a returned path as pieces of the whole one"""
        out = []
        for g in segs:
            if g.get('type', 'line') == 'line':
                m = (np.array(g['start'][:3]) + np.array(g['end'][:3])) / 2
            else:
                c, a, b = (np.array(g[k][:3], float) for k in ('center', 'start', 'end'))
                n = np.array(g.get('normal', [0, 0, 1]), float)
                n /= np.linalg.norm(n)
                v, w = a - c, b - c
                ang = math.atan2(np.cross(v, w) @ n, v @ w) % (2 * math.pi)
                m = c + v * math.cos(ang / 2) + np.cross(n, v) * math.sin(ang / 2)
            lo, mid, hi = (s['sp'].locate(p) for p in (g['start'], m, g['end']))
            if not (lo and mid and hi):
                out.append('off')
                continue
            # (other segments may pass through the middle)
            fit = [(i, a, b) for i, c in mid for k, a in lo for h, b in hi
                   if k == h == i and abs(a + b - 2 * c) < 1e-5 and s['sp'].g[i]['k'] == g.get('type', 'line')]
            if not fit:
                out.append('bent')
                continue
            even = lambda x: abs(x * UNIT - round(x * UNIT)) < 1e-4
            f = ([f for f in fit if even(f[1]) and even(f[2])] or fit)[0]
            i, lo, hi = f[0], [f[1]], [f[2]]
            u = [round(x[0] * UNIT) if abs(x[0] * UNIT - round(x[0] * UNIT)) < 1e-4 else 'off %.4f' % (x[0] * UNIT) for x in (lo, hi)]
            out.append(dict(s=i + 1, lo=u[0], hi=u[1]))
        return out

    def apply(self, s, op):
        try:
            return self._apply(s, op)
        except Exception as e:
            return dict(res=exc(e))

    def _apply(self, s, op):
        from yapcad.manufacturing import path_utils as P
        from yapcad.manufacturing.segmentation import compute_optimal_cuts
        from yapcad.manufacturing.data import SweptElementProvenance
        k = op['k']
        if k == 'empty':
            try:
                P.evaluate_path3d_at_t({'segments': []}, .5)
                e = 'ok'
            except Exception as x:
                e = exc(x)
            return dict(res='ok', eval=e, sub=len(P.extract_sub_path({'segments': []}, 0, 1)['segments']), len=P.path_length({'segments': []}) + 0,
                        t=P.length_to_parameter({'segments': []}, 1) + 0)
        x = op['p'] - 1
        if x >= len(s['ps']):
            return dict(res='none')
        p, q = s['ps'][x], s['qs'][x]
        n = len(q)
        t = lambda i, j: (i - 1 + j / 4) / n
        keep = copy.deepcopy(p)
        if k == 'eval':
            i, u = self.at(s, x, op['i'], op['j'])
            T = t(op['i'], op['j'])
            pt, d = P.evaluate_path3d_at_t(p, T)
            c = P.compute_cut_plane(p, T)
            dirs = [s['sp'].tangent(i, u)]
            if op['j'] == 0 and op['i'] > 1:
                dirs.append(s['sp'].tangent(*self.at(s, x, op['i'] - 1, 4)))
            if op['j'] == 4 and op['i'] < n:
                dirs.append(s['sp'].tangent(*self.at(s, x, op['i'] + 1, 0)))
            return dict(res='ok', at=self.lab(s, pt), dir=any(np.linalg.norm(np.array(d) - e) < 1e-5 for e in dirs),
                        same=np.allclose(c[0], pt) and np.allclose(c[1], d) and p == keep)
        if k == 'beyond':
            pt, d = P.evaluate_path3d_at_t(p, op['by'] / 4 + 1 if op['end'] else -op['by'] / 4)
            return dict(res='ok', at=self.lab(s, pt))
        if k == 'sub':
            r = P.extract_sub_path(p, t(op['i'], op['j']), t(op['m'], op['l']))
            m = self.measure(s, r['segments'])
            s['ps'].append(r)
            s['qs'].append([(d['s'] - 1, d['lo'], d['hi']) if isinstance(d, dict) and not isinstance(d['lo'], str) and not isinstance(d['hi'], str) else (0, 0, UNIT) for d in m])
            return dict(res='ok', q=m, kept=p == keep)
        if k == 'stretch':          # within one piece, in millionths of it
            i, a, b = op['i'], op['a'], op['b']
            h, lo, hi = q[i - 1]
            T = lambda x: (i - 1 + x / 1e6) / n
            whole = s['sp'].seglen(h) * (hi - lo) / UNIT
            r = P.extract_sub_path(p, T(a), T(b))
            g = r['segments']

            def where(pt):
                for y, t0 in s['sp'].locate(pt):
                    if y == h:
                        return round((t0 * UNIT - lo) / (hi - lo) * 1e6)
                return 'off'
            L = P.parameter_to_length(p, T(b))
            par = P.length_to_parameter(p, L) * n - (i - 1)
            return dict(res='ok', n=len(g), lo=where(g[0]['start']), hi=where(g[-1]['end']), mid=where(P.evaluate_path3d_at_t(r, .5)[0]),
                        len=round(P.path_length(r) / whole * 1e6), to=round((L - (self.reflen(s, x, i, 0))) / whole * 1e6), par=round(par * 1e6), kept=p == keep)
        if k == 'len':
            return dict(res='ok', len=self.pair(s, x, P.path_length(p)))
        if k == 'tolen':
            return dict(res='ok', len=self.pair(s, x, P.parameter_to_length(p, t(op['i'], op['j'])), op['i'], op['j']))
        if k in ('topar', 'outside'):
            L = self.reflen(s, x, op['i'], op['j']) if k == 'topar' else self.reflen(s, x) + op['by'] if op['end'] else -op['by']
            r = P.length_to_parameter(p, L) * 4 * n
            return dict(res='ok', t=round(r) if abs(r - round(r)) < 1e-5 else 'off %.5f' % r)
        if k == 'cuts':
            pr = SweptElementProvenance(id='e', operation='sweep', outer_profile=None, spine=p)
            m = op['m4'] / 4
            cs = compute_optimal_cuts(pr, m)
            ts = [c.parameter for c in cs]
            ls = [0.0]
            for v in ts:
                i = min(int(v * n), n - 1)
                ls.append(self.reflen(s, x, i + 1, (v * n - i) * 4))
            ls.append(self.reflen(s, x))
            d = [b - a for a, b in zip(ls, ls[1:])]
            return dict(res='ok', n=len(cs), rising=all(a < b for a, b in zip(ls, ls[1:])) and all(c.element_id == 'e' for c in cs), short=all(v <= m + 1e-6 for v in d),
                        even=max(d) - min(d) < 1e-6)
        raise ValueError(k)


def path_ops(rng, init, n):
    w = init['w']
    whole = lambda q: sum((b - a) * (w[s]['w'] if w[s]['k'] == 'line' else w[s]['w'] * math.pi / 2) / UNIT for s, a, b in q)
    qs = [[(i, 0, UNIT) for i in range(len(w))]]
    ok = lambda q: all((b - a) % 4 == 0 for _, a, b in q)

    def spot(q):
        return (rng.randint(1, len(q)), rng.randint(0, 3)) if rng.random() < .85 else (len(q), 4) if rng.random() < .6 else (1, 0)
    for _ in range(n):
        x = rng.choice([i for i, q in enumerate(qs) if ok(q)][-4:])
        q = qs[x]
        p = x + 1
        r = rng.random()
        i, j = spot(q)
        if r < .22:
            yield dict(k='eval', p=p, i=i, j=j)
        elif r < .5:
            m, l = spot(q)
            if rng.random() < .9 and 4 * i + j > 4 * m + l:
                (i, j), (m, l) = (m, l), (i, j)
            yield dict(k='sub', p=p, i=i, j=j, m=m, l=l)
            if 4 * i + j < 4 * m + l:
                at = lambda y, z: q[y][1] + (q[y][2] - q[y][1]) * z // 4
                out = []
                for y in range(i - 1, m):
                    a, b = at(y, j) if y == i - 1 else q[y][1], at(y, l) if y == m - 1 else q[y][2]
                    if a < b:
                        out.append((q[y][0], a, b))
                qs.append(out)
        elif r < .55:
            a, b = sorted(rng.sample(range(1, 10 ** 6), 2))
            if rng.random() < .4:
                b = a + rng.choice([20, 100, 500, 2000])
            elif rng.random() < .7:         # close to a half turn, if this is an arc of one or three quarters more
                a, b = 0, rng.choice([10 ** 6 * 2 // 3, 10 ** 6, 10 ** 6 // 3]) + rng.choice([-1, 1]) * rng.choice([60, 150, 250])
            if 0 <= a < b < 10 ** 6 and (b - a) % 2 == 0:
                z = rng.randint(1, len(q))
                if a == 0 and z > 1:
                    p, z = 1, rng.randint(1, len(w))
                yield dict(k='stretch', p=p, i=z, a=a or 2, b=b)
        elif r < .6:
            yield dict(k='len', p=p)
        elif r < .72:
            yield dict(k='tolen', p=p, i=i, j=j)
        elif r < .84:
            yield dict(k='topar', p=p, i=i, j=j)
        elif r < .88:
            yield dict(k='beyond' if rng.random() < .5 else 'outside', p=p, end=rng.random() < .5, by=rng.randint(1, 9))
        elif r < .89:
            yield dict(k='empty')
        else:
            L = whole(q)
            m4 = max(1, round(L * 4 / (rng.random() * 7 + .3)))
            if abs(L * 4 / m4 - round(L * 4 / m4)) > 1e-3 * max(1, L / m4):
                yield dict(k='cuts', p=p, m4=m4)


def gpath(rng):
    w = []
    for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])):
        w.append(dict(k='line', w=rng.randint(1, 30)) if rng.random() < .55 else dict(k='arc', w=rng.randint(1, 12)))
    return dict(w=w, seed=rng.randint(1, 10 ** 6))


def path_check(ctx):
    ctx.model_check('PathMC', ['InvGood', 'InvCut', 'InvRise'], consts=dict(Depth=ctx.n(2, 3)), workers=6)
    a = Paths()
    a.replay(ctx, ctx.generate('PathMC', consts=dict(Depth=10), simulate=ctx.n(60, 600), depth=10), 'generated')
    tr = []
    for i in range(ctx.n(300, 3000)):
        init = gpath(ctx.rng)
        tr.append(a.record('p%d' % i, init, path_ops(ctx.rng, init, ctx.rng.randint(10, 30))))
    ctx.report_bads(ctx.validate('PathTrace', tr, workers=6), tr, 'path history')
