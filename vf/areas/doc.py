"""Geometry documents (Doc.tla): written from live entities, read back, in any order of events."""
import contextlib
import copy
import io
import json
import math

from vf.core import Area, exc


def I(x, m=1):
    v = x * m
    return int(round(v)) if math.isfinite(v) and abs(v) < 2e9 else 1999999999


RAW = dict(layer='layer', mat='material', name='name')


class Doc(Area):
    def __init__(self):
        import yapcad.geom as g
        import yapcad.geom3d as g3
        import yapcad.io.geometry_json as gj
        import yapcad.metadata as md
        self.g, self.g3, self.gj, self.md = g, g3, gj, md

    def new(self, init):
        return dict(live=[], docs=[], names={}, fresh=0)

    # --- metadata
    def meta(self, m, ident=''):
        d = {}
        if m['layer'] not in ('', 'default'):
            d['layer'] = m['layer']
        if m.get('hastags') or m['tags']:
            d['tags'] = list(m['tags'])
        if m['mat']:
            d['material'] = m['mat']
        if m['note']:
            d['notes'] = {'deep': [{'text': m['note']}]}
        if m['name']:
            d['name'] = m['name']
        if ident:
            d['entityId'] = ident
        return d

    def show_meta(self, d):
        n = d.get('notes')
        return dict(layer=d.get('layer') or 'default', tags=list(d.get('tags') or []), mat=d.get('material') or '',
                    note=n['deep'][0]['text'] if n else '', name=d.get('name') or '')

    def set(self, d, f, val):
        if f == 'tag':
            d.setdefault('tags', []).append(val)
        elif f == 'note':
            if d.get('notes'):
                d['notes']['deep'][0]['text'] = val
            else:
                d['notes'] = {'deep': [{'text': val}]}
        else:
            d[RAW[f]] = val

    def raw(self, e):
        i = 6 if e[0] == 'surface' else 4
        return e[i] if len(e) > i and isinstance(e[i], dict) else {}

    # --- sketches
    def turned(self, a, o):
        a[1][3] = o
        return a

    def build(self, q):
        g = self.g
        p = [g.point(*[c / 2 for c in x]) for x in q['p']]
        x, k = q['x'], q['k']
        if k == 'line':
            return g.line(*p)
        if k == 'point':
            return p[0]
        if k == 'poly':
            return p
        if k == 'circle':
            return self.turned(g.arc(p[0], x[0] / 1000, 0, 360), x[1])
        if k == 'arc':
            return self.turned(g.arc(p[0], g.vect(x[0] / 1000, x[1] / 1000, x[2] / 1000, -1)), x[3])
        if k == 'arcn':
            return self.turned(g.arc(p[0], g.vect(x[0] / 1000, x[1] / 1000, x[2] / 1000, -1), g.point(0, 0, x[4])), x[3])
        if k == 'ellipse':
            return g.ellipse(p[0], x[0] / 1000, x[1] / 1000, rotation=x[2] / 1000, start=x[3] / 1000 or 0,
                             end=360 if x[4] == 360000 else x[4] / 1000)
        if k == 'cat':
            return g.catmullrom(p, closed=bool(x[0]), alpha=x[1] / 1000)
        if k == 'nurbs':
            n = len(p)
            return g.nurbs(p, degree=x[0], weights=[w / 1000 for w in x[1:1 + n]], knots=[w / 1000 for w in x[1 + n:]])
        return [self.build(s) for s in q['sub']]

    def prim(self, e):
        g = self.g
        r = dict(k='?', p=[], x=[], sub=[])
        P = lambda ps: [[I(c, 2) for c in p[:3]] for p in ps]
        T = lambda *v: [I(c, 1000) for c in v]
        if g.ispoint(e):
            r.update(k='point', p=P([e]))
        elif g.isline(e):
            r.update(k='line', p=P(e))
        elif g.iscircle(e) and len(e) < 3:
            r.update(k='circle', p=P(e[:1]), x=T(e[1][0]) + [int(e[1][3])])
        elif g.isarc(e):
            r.update(k='arc', p=P(e[:1]), x=T(*e[1][:3]) + [int(e[1][3])])
            if len(e) > 2:
                r.update(k='arcn', x=r['x'] + [int(e[2][2])])
        elif g.isellipse(e):
            m = e[2]
            r.update(k='ellipse', p=P([e[1]]), x=T(*[m[k] for k in ('semi_major', 'semi_minor', 'rotation', 'start', 'end')]))
        elif g.iscatmullrom(e):
            r.update(k='cat', p=P(e[1]), x=[int(bool(e[2]['closed'])), I(e[2]['alpha'], 1000)])
        elif g.isnurbs(e):
            r.update(k='nurbs', p=P(e[1]), x=[e[2]['degree']] + T(*e[2]['weights']) + T(*e[2]['knots']))
        elif g.ispoly(e):
            r.update(k='poly', p=P(e))
        elif isinstance(e, list):
            r.update(k='group', sub=[self.prim(x) for x in e])
        return r

    # --- entities
    def surface(self, op):
        q = op['geo']
        pt = lambda v: [c / 2 for c in v] + [1.0]
        v = [pt(x) for x in q['v']]
        if q['bad']:
            v[-1] = [v[-1][0], float(q.get('how', 'nan')), 0.0, 1.0]
        s = ['surface', v, [[float(c) for c in x] + [0.0] for x in q['n']],
             [list(f) for f in q['f']], list(q['b']), [list(h) for h in q['h']]]
        m = self.meta(op['meta'], op['id'])
        return s + ([m] if m else [])

    def geo(self, e, q):
        if e[0] == 'surface':
            P = lambda vs, m: [[I(c, m) for c in v[:3]] for v in vs]
            w = all(v[3] == 1 for v in e[1]) and all(v[3] == 0 for v in e[2])
            r = dict(bad=not all(math.isfinite(c) for v in e[1] for c in v), v=P(e[1], 2), n=P(e[2], 1), f=[list(f) for f in e[3]],
                     b=list(e[4]), h=[list(h) for h in e[5]])
            return r if w else dict(r, w='?')
        return dict(bad=False, mat=self.material(e), con=e[3])

    def material(self, e):
        return [] if any(isinstance(x, list) for x in e[2]) else e[2]

    def voids(self, e):
        return [v for v in e[2] if isinstance(v, list)]

    def add(self, s, e, voids=None):
        s['live'].append(e)
        return len(s['live'])

    def handle(self, s, e):
        for i, x in enumerate(s['live']):
            if x is e:
                return i + 1
        return 0

    def ident(self, s, e, h):
        i = self.raw(e).get('entityId')
        if not i:
            return 'auto%d' % h
        return s['names'].setdefault(i, 'auto%d' % h)

    def show(self, s, h, e):
        r = dict(t='sketch', id='', meta=self.show_meta({}), geo=dict(bad=False), shell=[], voids=[], prims=[])
        if e and e[0] == 'surface':
            r.update(t='surface', id=self.ident(s, e, h), meta=self.show_meta(self.raw(e)), geo=self.geo(e, None))
        elif e and e[0] == 'solid':
            r.update(t='solid', id=self.ident(s, e, h), meta=self.show_meta(self.raw(e)), geo=self.geo(e, None),
                     shell=[self.handle(s, x) for x in e[1]],
                     voids=[[self.handle(s, x) for x in v] for v in self.voids(e)])
        else:
            r.update(prims=[self.prim(x) for x in e])
        return r

    def register(self, s, e):
        """live handles for an entity just read: itself, then surfaces not met yet"""
        self.add(s, e)
        if e and e[0] == 'solid':
            for x in list(e[1]) + [y for v in self.voids(e) for y in v]:
                if not self.handle(s, x):
                    self.add(s, x)

    def docid(self, s, i):
        if not i:
            return ''
        if i not in s['names']:
            s['fresh'] += 1
            s['names'][i] = '?%d' % s['fresh']
        return s['names'][i]

    def show_doc(self, s, d):
        es = d['entities']
        by = {}
        for e in es:
            by.setdefault(e['id'], e)
        owned = {i for e in es if e['type'] == 'solid' for i in e['shell'] + [x for v in e['voids'] for x in v]}

        def sgeo(e):
            return self.geo(['surface', e['vertices'], e['normals'], e['faces'], e['boundary'], e['holes']], None)

        def ref(i):
            e = by.get(i)
            if e is None:
                return ['none']
            return [self.docid(s, i), self.show_meta(e['metadata']), sgeo(e)]

        def agrees(e):
            m = e['metadata']
            assert 'entityId' not in m or not e['id'] or m['entityId'] == e['id'], 'two ids'
            b = e.get('boundingBox')
            vs = []
            if e['type'] == 'surface':
                vs = e['vertices']
            elif e['type'] == 'solid':
                vs = [v for i in e['shell'] if i in by for v in by[i]['vertices']]
                if any(i not in by for i in e['shell']):
                    return
            if vs and not d.get('shared'):
                want = [f(v[k] for v in vs) for f in (min, max) for k in range(3)]
                assert all(abs(x - y) < 1e-6 for x, y in zip(b, want)), 'box'

        out = []
        for e in es:
            t = e['type']
            if t == 'surface' and e['id'] in owned:
                agrees(e)
                continue
            r = dict(t=t if t in ('surface', 'solid', 'sketch') else 'other', id=self.docid(s, e['id']),
                     meta=self.show_meta(e.get('metadata', {})), geo=dict(bad=False), shell=[], voids=[], prims=[])
            if t == 'surface':
                agrees(e)
                r['geo'] = sgeo(e)
            elif t == 'solid':
                agrees(e)
                r.update(geo=dict(bad=False, mat=e['material'], con=e['construction']), shell=[ref(i) for i in e['shell']],
                         voids=[[ref(i) for i in v] for v in e['voids']])
            elif t == 'sketch':
                r['prims'] = d['prims'][e['id0']] if 'id0' in e else []
            else:
                r['geo'] = []
            out.append(r)
        return out

    # --- events
    def apply(self, s, op):
        res = 'ok'
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self._do(s, op)
        except Exception as e:
            res = type(e).__name__
            if not isinstance(e, ValueError):
                res = exc(e)
        if op['k'] == 'write' and res != 'ok':
            return dict(res=res)
        try:
            return dict(res=res, live=[self.show(s, h + 1, e) for h, e in enumerate(s['live'])],
                        docs=[self.show_doc(s, d) for d in s['docs']])
        except Exception as e:
            return dict(res='show:' + exc(e) + str(e)[:80])

    def _do(self, s, op):
        k, L = op['k'], s['live']
        for i in (op.get('id'), *[it['over']['id'] for it in op.get('items', [])]):
            if i:
                s['names'].setdefault(i, i)
        if k == 'surface':
            self.add(s, self.surface(op))
        elif k == 'solid':
            m = self.meta(op['meta'], op['id'])
            vs = [[L[h - 1] for h in v] for v in op['voids']]
            self.add(s, ['solid', [L[h - 1] for h in op['shell']], vs or list(op['geo']['mat']), copy.deepcopy(op['geo']['con'])]
                     + ([m] if m else []))
        elif k == 'sketch':
            e = [self.build(q) for q in op['prims']]
            self.add(s, e)
            op['prims'] = [self.prim(x) for x in e]      # as the code represents them
        elif k == 'copy':
            e = L[op['h'] - 1]
            c = copy.deepcopy(e)
            # surfaces used twice in one solid stay separate handles in the model
            self.add(s, c)
            c[1] = [copy.deepcopy(x) for x in e[1]]
            if self.voids(e):
                c[2] = [[copy.deepcopy(x) for x in v] for v in e[2]]
            for x in c[1] + [y for v in self.voids(c) for y in v]:
                self.add(s, x)
        elif k == 'set':
            e = L[op['h'] - 1]
            m = self.raw(e)
            i = 6 if e[0] == 'surface' else 4
            if len(e) <= i:
                e.append(m)
            self.set(m, op['f'], op['val'])
        elif k == 'write':
            self.write(s, op)
        elif k == 'tamper':
            self.tamper(s, s['docs'][op['d'] - 1], op)
        elif k == 'read':
            d = s['docs'][op['d'] - 1]
            clean = {x: v for x, v in d.items() if x not in ('prims', 'shared')}
            got = self.gj.geometry_from_json(clean)
            for e in got:
                self.register(s, e)

    def write(self, s, op):
        L = s['live']
        items, overs = [], []
        for it in op['items']:
            e = L[it['h'] - 1] if it['h'] else 'nonsense'
            v = self.meta(it['over'], it['over']['id'])
            if it['over']['hastags']:
                v['tags'] = list(it['over']['tags'])
            overs.append(v)
            items.append({'geometry': e, 'metadata': v} if it['form'] == 'dict' else (e, v) if it['form'] == 'tuple' else e)
        before = copy.deepcopy(overs)
        opts = op.get('opts', {})
        d = self.gj.geometry_to_json(iter(items) if op.get('iter') else items, **copy.deepcopy(opts))
        assert before == overs, 'override changed'
        for k2, v in opts.items():
            assert d.get(k2) == v, 'lost ' + k2
        assert d['schema'] == self.gj.SCHEMA_ID
        if op['text']:
            d = json.loads(json.dumps(d, allow_nan=False))
        # the writer names live entities; learn those names before the fresh ones of the document
        for h, e in enumerate(L):
            if e and e[0] in ('surface', 'solid') and self.raw(e).get('entityId'):
                self.ident(s, e, h + 1)
        # fresh ids in the order of the items, each followed by its surfaces
        order = [e for e in d['entities'] if e['type'] != 'surface' or e['id'] not in
                 {i for x in d['entities'] if x['type'] == 'solid' for i in x['shell'] + [y for v in x['voids'] for y in v]}]
        d['prims'] = {}
        for e, it in zip(order, op['items']):
            self.docid(s, e['id'])
            for i in (e['shell'] + [y for v in e['voids'] for y in v]) if e['type'] == 'solid' else []:
                self.docid(s, i)
            if e['type'] == 'sketch':
                e['id0'] = e['id']
                d['prims'][e['id']] = [self.prim(x) for x in L[it['h'] - 1]]
        s['docs'].append(d)

    def tamper(self, s, d, op):
        es, i, how = d['entities'], op.get('i', 1) - 1, op['how']
        if how == 'schema':
            d['schema'] = 'some-other-schema-v9'
        elif how == 'noid':
            es[i]['id'] = ''
        elif how == 'drop':
            es.pop(i)
        elif how == 'front':
            es.insert(0, es.pop(i))
        elif how == 'other':
            es.insert(i, dict(id='o%d' % (i + 1), type='group', children=[]))
            s['names']['o%d' % (i + 1)] = 'o%d' % (i + 1)
        elif how == 'share':
            es[i]['shell'].append(es[op['j'] - 1]['id'])
            d['shared'] = True
        elif how == 'legacy':
            for e in es:
                if e['type'] == 'sketch':
                    e.pop('primitives')
        elif how == 'edit':
            self.set(es[i]['metadata'], op['f'], op['val'])


NOOVER = dict(layer='', tags=[], hastags=False, mat='', note='', name='', id='')
ROOT = dict(layer='default', tags=[], mat='', note='', name='')


def rmeta(rng):
    m = dict(ROOT)
    if rng.random() < .5:
        m['layer'] = rng.choice(['L1', 'L2', 'default'])
    if rng.random() < .4:
        m['tags'] = rng.sample(['a', 'b', 'c'], rng.randint(1, 2))
    for k in ('mat', 'note', 'name'):
        if rng.random() < .25:
            m[k] = rng.choice(['u', 'v', 'w x'])
    return m


def rsurf(rng, bad=False):
    n = rng.randint(3, 5)
    geo = dict(bad=bad, v=[[rng.randint(-9, 9) for _ in range(3)] for _ in range(n)],
               n=[rng.choice([[0, 0, 1], [0, 1, 0], [-1, 0, 0]]) for _ in range(n)],
               f=[rng.sample(range(n), 3) for _ in range(rng.randint(1, 3))],
               b=rng.sample(range(n), rng.choice([0, n])), h=[rng.sample(range(n), 3)] if rng.random() < .2 else [])
    if bad:
        geo['v'] = geo['v']
    return geo


def rprims(rng, flat=False, deep=0):
    pt = lambda z: [rng.randint(-8, 8), rng.randint(-8, 8), z]
    out = []
    for _ in range(rng.randint(1, 3)):
        z = 0 if rng.random() < .7 else rng.choice([-3, 5])
        k = rng.choice(['line', 'poly'] if flat else
                       ['line', 'line', 'poly', 'circle', 'arc', 'arcn', 'ellipse', 'cat', 'nurbs', 'group', 'point'])
        q = dict(k=k, p=[], x=[], sub=[])
        if k == 'group':
            if deep > 1:
                continue
            q['sub'] = rprims(rng, flat, deep + 1)
            if not q['sub'] or all(s['k'] == 'point' for s in q['sub']):
                continue
        elif k == 'line':
            a = pt(z)
            q['p'] = [a, [a[0] + rng.randint(1, 5), a[1] + rng.randint(-3, 3), z]]
        elif k == 'poly':
            q['p'] = [pt(z) for _ in range(rng.randint(3, 5))]
            q['p'] = [p for i, p in enumerate(q['p']) if not i or p != q['p'][i - 1]]
            if len(q['p']) < 3:
                continue
        elif k in ('point', 'circle', 'arc', 'arcn', 'ellipse'):
            q['p'] = [pt(z)]
            a, w = rng.randint(0, 23) * 15, rng.randint(1, 20) * 15
            if k == 'circle':
                q['x'] = [rng.randint(1, 9) * 500, rng.choice([-1, -1, -2])]
            elif k == 'arc' or k == 'arcn':
                q['x'] = [rng.randint(1, 9) * 500, a * 1000, (a + w) % 360 * 1000, rng.choice([-1, -1, -2])]
                if q['x'][1] == q['x'][2]:
                    continue
                if k == 'arcn':
                    q['x'].append(1)
            elif k == 'ellipse':
                b = rng.randint(1, 4) * 500
                q['x'] = [b + rng.randint(1, 4) * 500, b, rng.choice([0, 30, 45, 200]) * 1000]
                q['x'] += [0, 360000] if rng.random() < .5 else [a * 1000, (a + w) * 1000]
        elif k == 'cat':
            q['p'] = [pt(z) for _ in range(rng.randint(4, 5))]
            if len({tuple(p) for p in q['p']}) < len(q['p']):
                continue
            q['x'] = [rng.randint(0, 1), rng.choice([0, 500, 1000])]
        elif k == 'nurbs':
            deg = rng.randint(1, 3)
            n = deg + rng.randint(1, 3)
            q['p'] = [pt(z) for _ in range(n)]
            kn = [0] * (deg + 1) + [i * 250 for i in range(1, n - deg)] + [1000] * (deg + 1)
            q['x'] = [deg] + [rng.choice([1000, 1000, 2000, 500]) for _ in range(n)] + kn
        out.append(q)
    return out


def rover(rng):
    v = dict(NOOVER)
    if rng.random() < .5:
        return v
    for k, vals in (('layer', ['L1', 'L3']), ('mat', ['m1', 'm2']), ('note', ['n1']), ('name', ['N']), ('id', ['A', 'B', 'X'])):
        if rng.random() < .3:
            v[k] = rng.choice(vals)
    if rng.random() < .4:
        v['hastags'] = True
        v['tags'] = rng.sample(['a', 'x', 'y'], rng.randint(0, 2))
    return v


def events(rng, area):
    """a history; knows only the kinds of the live entities"""
    kinds, docs, flat, obs = [], [], rng.random() < .25, None
    prev = ''
    for _ in range(rng.randint(5, 11)):
        S = [h + 1 for h, k in enumerate(kinds) if k == 'surface']
        D = [h + 1 for h, k in enumerate(kinds) if k == 'solid']
        c = rng.random()
        op = None
        if prev in ('write', 'tamper') and rng.random() < (.6 if prev == 'write' else .5) and len(kinds) < 14:
            c = .95
        if not S or c < .22:
            op = dict(k='surface', id=rng.choice(['', '', '', 'A', 'B']), meta=rmeta(rng), geo=rsurf(rng, rng.random() < .03))
            if op['geo']['bad']:
                n = len(op['geo']['v'])
                op['geo'].update(v=op['geo']['v'][:-1] + [[op['geo']['v'][-1][0], 1999999999, 0]])
        elif c < .38 and len(kinds) < 9:
            sh = rng.sample(S, rng.randint(1, min(3, len(S))))
            vo = [[rng.choice(S)]] if rng.random() < .2 else []
            if rng.random() < .15 and S:
                vo = [rng.sample(S, min(2, len(S))), [rng.choice(S)]]
            mat = [] if vo or rng.random() < .7 else ['steel', 'x']
            op = dict(k='solid', id=rng.choice(['', '', '', 'A', 'C']), meta=rmeta(rng), shell=sh, voids=vo,
                      geo=dict(bad=False, mat=mat, con=rng.choice([[], ['procedure', 'prism(1,2)']])))
        elif c < .5 and len(kinds) < 10:
            ps = rprims(rng, flat)
            if ps and not all(p['k'] == 'point' for p in ps):
                op = dict(k='sketch', prims=ps, geo=dict(bad=False))
        elif c < .56 and D and len(kinds) < 9:
            op = dict(k='copy', h=rng.choice(D))
        elif c < .66:
            hs = S + D
            op = dict(k='set', h=rng.choice(hs), f=rng.choice(['layer', 'tag', 'mat', 'note', 'name']), val=rng.choice(['p', 'q']))
        elif c < .84 and len(docs) < 2:
            hs = [rng.randint(1, len(kinds)) for _ in range(rng.randint(1, 4))]
            if rng.random() < .03:
                hs.append(0)
            items = []
            for h in hs:
                v = rover(rng)
                items.append(dict(h=h, over=v, form='bare' if v == NOOVER and rng.random() < .6 else rng.choice(['dict', 'tuple'])))
            op = dict(k='write', items=items, text=rng.random() < .6, iter=rng.random() < .2)
            if rng.random() < .3:
                op['opts'] = dict(units='mm', generator={'name': 'x'}, relationships=[{'type': 'mated', 'entities': ['a']}],
                                  attachments=[{'id': 's', 'path': 'p'}])
        elif c < .9 and docs and docs[-1]:
            d = rng.randint(1, len(docs))
            n = docs[d - 1]
            if n:
                ty = n
                i = rng.randint(1, len(ty))
                how = rng.choice(['front', 'front', 'other', 'edit', 'edit', 'edit', 'drop', 'noid', 'schema', 'share', 'legacy'])
                op = dict(k='tamper', d=d, how=how, i=i, j=1, f='layer', val='Z')
                if how == 'edit':
                    if ty[i - 1] == 'other':
                        op = None
                    else:
                        op.update(f=rng.choice(['layer', 'tag', 'mat', 'note', 'name']), val=rng.choice(['r', 's']))
                elif how == 'share':
                    so = [x + 1 for x, t in enumerate(ty) if t == 'solid']
                    su = [x + 1 for x, t in enumerate(ty) if t == 'surface']
                    if so and su:
                        op.update(i=rng.choice(so), j=rng.choice(su))
                    else:
                        op = None
                elif how == 'legacy' and not flat:
                    op = None
                elif how == 'front':
                    ty.insert(0, ty.pop(i - 1))
                elif how == 'other':
                    if 'other' in ty:
                        op = None
                    else:
                        ty.insert(i - 1, 'other')
                elif how == 'drop':
                    ty.pop(i - 1)
                if how in ('noid', 'schema') and op:
                    docs[d - 1] = []
        elif docs and len(kinds) < 14:
            op = dict(k='read', d=rng.randint(1, len(docs)))
        if op is None:
            continue
        o = yield op
        if 'live' not in o:
            return
        kinds = [e['t'] for e in o['live']]
        prev = op['k']
        if op['k'] == 'write':
            docs.append([e['type'] for e in area.sut['docs'][-1]['entities']])


class Rec(Doc):
    def new(self, init):
        self.sut = super().new(init)
        return self.sut


def doc_check(ctx):
    ctx.model_check('DocMC', ['InvUnique', 'InvRound', 'InvApart'], consts=dict(Depth=ctx.n(4, 5)))
    area = Rec()
    beh = ctx.generate('DocMC', consts=dict(Depth=7), simulate=ctx.n(300, 3000), depth=7)
    area.replay(ctx, beh, 'generated')
    traces = [area.record(i, {'x': 0}, events(ctx.rng, area)) for i in range(ctx.n(1500, 20000))]
    ctx.report_bads(ctx.validate('DocTrace', traces), traces)
