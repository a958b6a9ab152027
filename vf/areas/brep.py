"""Topology graphs of boundary representations: binds Brep.tla to yapcad.native_brep and the solid operations of geom3d."""
import copy
import json
import math
from ..core import Area, exc

AX = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def num(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool) and abs(x) < 1e9 and abs(x - round(x)) < 1e-6:
        return round(x)
    return '%.5g' % x if isinstance(x, (int, float)) else str(x)


def vec(p):
    return [num(c) for c in p[:3]]


def name(x):
    return x[2].get('tags', {}).get('n', '?') if isinstance(x, list) and len(x) == 3 else '?'


class Brep(Area):
    def new(self, init):
        from yapcad import native_brep as nb
        if not getattr(nb.TopologyGraph, '_vf_coarse', False):
            full = nb.TopologyGraph.tessellate_shell
            nb.TopologyGraph.tessellate_shell = lambda self, sid, u_divisions=4, v_divisions=4: full(self, sid, u_divisions, v_divisions)
            nb.TopologyGraph._vf_coarse = True
        return dict(gs=[nb.TopologyGraph()], ids=[dict()])

    def apply(self, s, op):
        try:
            return self._apply(s, op)
        except Exception as e:
            return dict(res=exc(e))

    # -- making
    def surf(self, r, rd):
        from yapcad import analytic_surfaces as an
        from yapcad.geom import point
        if r['has']:
            sf = an.plane_surface(point(*r['lo']), r['nrm'] + [0])
            d = [b - a for a, b in zip(r['lo'], r['hi'])]
            for ax, rg in (('u_axis', 'u_range'), ('v_axis', 'v_range')):
                x = sum(a * b for a, b in zip(sf[2][ax], d))
                sf[2][rg] = (min(0.0, x), max(0.0, x))
            return sf
        if rd['kind'] == 'ball':
            return an.sphere_surface(point(*rd['o']), rd['r1'])
        v = (float(rd.get('v0', 0)), float(rd.get('v1', 0)))
        if rd['kind'] == 'cyl':
            return an.cylinder_surface(point(*rd['o']), rd['ax'] + [0], rd['r1'], v_range=v)
        if rd['kind'] == 'cone':
            return an.cone_surface(point(*rd['o']), rd['ax'] + [0], math.pi / 4, v_range=tuple(x * math.sqrt(2) for x in v))
        if rd['kind'] == 'tor':
            return an.torus_surface(point(*rd['o']), rd['ax'] + [0], rd['r1'], rd['r2'])
        return None

    def face(self, g, ids, n, loops, r, rd, sense):
        from yapcad import native_brep as nb
        ls = []
        for l in loops:
            ts = []
            for t in l['t']:
                tr = nb.brep_trim(g.edges[ids[t['e']]] if t.get('obj') else ids[t['e']], sense=t['s'])
                g.add_trim(tr)
                ts.append(tr)
            lp = nb.brep_loop(ts, loop_type=l['ty'])
            g.add_loop(lp)
            ls.append(lp)
        f = nb.brep_face(self.surf(r, rd), ls, sense=sense, tags={'n': n})
        ids[n] = g.add_face(f)

    def shell(self, g, ids, op, fs):
        from yapcad import native_brep as nb
        sh = nb.brep_shell([g.faces[ids[f]] for f in fs], shell_type=op['ty'], closed={'yes': True, 'no': False, '?': None}[op['closed']], tags={'n': op['n']})
        ids[op['n']] = sh[2]['id']
        try:
            g.add_shell(sh, validate_closure=op['check'])
        except nb.ShellClosureError as e:
            return dict(res=exc(e), n1=len(e.details['boundary_edges']), n3=len(e.details['non_manifold_edges']))
        return dict(res='ok')

    def copyof(self, s, g, ids):
        s['gs'].append(g)
        s['ids'].append({name(x): x[2]['id'] for k in ('vertices', 'edges', 'faces', 'shells', 'solids') for x in getattr(g, k).values()})

    def host(self, g):
        from yapcad import native_brep as nb
        from yapcad.geom import point
        from yapcad.geom3d import solid, poly2surface, poly2surfaceXY
        from yapcad.geom3d_util import prism
        sl = prism(2.0, 3.0, 4.0)
        if g is not None:
            nb.attach_native_brep_to_solid(sl, g)
        return sl

    def fn(self, m):
        from yapcad import geom
        from yapcad.geom import point
        if m['m'] == 'move':
            return lambda p: point(*[p[i] + m['d'][i] for i in range(3)])
        if m['m'] == 'turn':
            return lambda p: geom.rotate(p, 90 * m['q'], cent=point(*m['c']), axis=point(*AX[m['a'] - 1]))
        if m['m'] == 'flip':
            return lambda p: geom.mirror(p, ['yz', 'xz', 'xy'][m['a'] - 1])
        return lambda p: point(*[m['c'][i] + m['f'] * (p[i] - m['c'][i]) for i in range(3)])

    def moved(self, sl, m):
        from yapcad import geom3d as g3
        from yapcad.geom import point
        if m['m'] == 'move':
            return g3.translatesolid(sl, point(*m['d']))
        if m['m'] == 'turn':
            return g3.rotatesolid(sl, 90 * m['q'], cent=point(*m['c']), axis=point(*AX[m['a'] - 1]))
        if m['m'] == 'flip':
            return g3.mirrorsolid(sl, ['yz', 'xz', 'xy'][m['a'] - 1])
        return g3.scalesolid(sl, float(m['f']), cent=point(*m['c']))

    def _apply(self, s, op):
        from yapcad import native_brep as nb
        from yapcad.geom import point
        k, g, ids = op['k'], s['gs'][op['g'] - 1], s['ids'][op['g'] - 1]
        ok = dict(res='ok')
        if k == 'vert':
            ids[op['n']] = g.add_vertex(nb.brep_vertex(point(*op['p']), tolerance=op['t'], tags={'n': op['n']}))
            return ok
        if k == 'edge':
            a, b = [g.vertices[ids[op[x]]] if op['obj'] else ids[op[x]] for x in 'ab']
            kw = dict(sense=op['sense'], tolerance=op['t'], tags={'n': op['n']})
            if op['kind'] == 'line':
                e = nb.line_edge(a, b, **kw)
            elif op['by'] == 'bulge':
                e = nb.arc_edge(a, b, bulge=op['o'] * math.tan(op['q'] * math.pi / 8), **kw)
            else:
                e = nb.arc_edge(a, b, center=point(*op['c']), orientation=op['o'], **kw)
            ids[op['n']] = g.add_edge(e)
            return ok
        if k == 'face':
            self.face(g, ids, op['n'], op['loops'], op['r'], op['rd'], op['sense'])
            return ok
        if k == 'shell':
            return self.shell(g, ids, op, op['fs'])
        if k == 'box':
            n, c = op['n'], [op['lo'], op['hi']]
            for i in range(8):
                p = [c[(i >> 2) & 1][0], c[(i >> 1) & 1][1], c[i & 1][2]]
                ids['%sv%d' % (n, i)] = g.add_vertex(nb.brep_vertex(point(*p), tolerance=0, tags={'n': '%sv%d' % (n, i)}))
            for i, (a, b) in enumerate(BE):
                nm = '%se%d' % (n, i + 1)
                ids[nm] = g.add_edge(nb.line_edge(ids['%sv%d' % (n, a)], ids['%sv%d' % (n, b)], tolerance=0, tags={'n': nm}))
            keep = [i for i in range(1, 7) if i not in op['drop']]
            for i in keep:
                ax, hi = (i - 1) // 2, i % 2 == 0
                lo_, hi_ = list(op['lo']), list(op['hi'])
                (lo_ if hi else hi_)[ax] = op['hi'][ax] if hi else op['lo'][ax]
                nrm = [0, 0, 0]
                nrm[ax] = 1 if hi else -1
                self.face(g, ids, '%sf%d' % (n, i), [dict(ty='outer', t=[dict(e='%se%d' % (n, x), s=j < 2) for j, x in enumerate(BL[i - 1])])],
                          dict(has=True, lo=lo_, hi=hi_, nrm=nrm), dict(kind='none'), True)
            return self.shell(g, ids, op, ['%sf%d' % (n, i) for i in keep])
        if k == 'solid':
            so = nb.brep_solid([g.shells[ids[x]] for x in op['ss']], tags={'n': op['n']})
            ids[op['n']] = so[2]['id']
            g.add_solid(so, validate=op['check'])
            return ok
        if k == 'place':
            nb.set_vertex_location(g.vertices[ids[op['n']]], point(*op['p']))
            return ok
        if k == 'mark':
            nb.set_shell_closed(g.shells[ids[op['n']]], {'yes': True, 'no': False, '?': None}[op['closed']])
            return ok
        if k == 'moved':
            sl = self.host(g)
            self.copyof(s, nb.native_brep_from_solid(self.moved(sl, op['m'])), ids)
            s['gs'][op['g'] - 1] = nb.native_brep_from_solid(sl) if op['back'] else g
            return ok
        if k == 'inplace':
            nb.transform_topology_graph(g, self.fn(op['m']))
            if op['m']['m'] == 'grow':
                raise ValueError('not offered')
            return ok
        if k == 'points':
            g.transform(self.fn(op['m']))
            return ok
        if k == 'reload':
            if op['how'] == 'json':
                h = nb.deserialize_topology_graph(json.loads(json.dumps(nb.serialize_topology_graph(g))))
            else:
                h = nb.native_brep_from_solid(copy.deepcopy(self.host(g)))
            self.copyof(s, h, ids)
            return ok
        if k == 'squash':
            from yapcad.geom3d import scalesolid
            sl = self.host(g)
            return dict(res='ok', has=nb.has_native_brep(scalesolid(sl, 2.0, 3.0, 1.0)))
        if k == 'bare':
            sl = self.host(None if op['how'] == 'none' else g)
            if op['how'] != 'none':
                nb.clear_native_brep(sl)
            sl = self.moved(sl, op['m'])
            return dict(res='ok', has=nb.has_native_brep(sl) or nb.native_brep_from_solid(sl) is not None)
        return dict(res='ok', a=self.ask(g, ids, op))

    # -- asking
    def order(self, g, eids):
        ks = list(g.edges)
        return [name(g.edges[e]) for e in sorted(eids, key=ks.index)]

    def rect(self, sf):
        from yapcad import analytic_surfaces as an
        if sf is None or sf[0] != 'plane_surface':
            return dict(has=False)
        m = sf[2]
        ps = [an.evaluate_surface(sf, u, v) for u in m['u_range'] for v in m['v_range']]
        return dict(has=True, lo=vec([min(p[i] for p in ps) for i in range(3)]), hi=vec([max(p[i] for p in ps) for i in range(3)]),
                    nrm=vec(an.surface_normal(sf, m['u_range'][0], m['v_range'][1])))

    def rings(self, sf):
        from yapcad import analytic_surfaces as an
        if sf is None:
            return []
        ring = lambda v: self.ring(an.evaluate_surface(sf, 0.3, v), an.evaluate_surface(sf, 0.3 + math.pi, v))
        if sf[0] == 'sphere_surface':
            return [ring(0.0)]
        if sf[0] in ('cylinder_surface', 'cone_surface'):
            return [ring(v) for v in sf[2]['v_range']]
        if sf[0] == 'torus_surface':
            return [ring(0.0), ring(math.pi)]
        return []

    def ring(self, p, q):
        return [vec([(a + b) / 2 for a, b in zip(p, q)]), num(math.dist(p[:3], q[:3]) / 2)]

    def ask(self, g, ids, op):
        from yapcad import native_brep as nb, geom
        from yapcad.geom import point
        w = op['w']
        if w == 'sum':
            c = g.summary()
            return dict(v=c['vertices'], e=c['edges'], l=c['loops'], f=c['faces'], s=c['shells'], sol=c['solids'])
        if w == 'vert':
            v = g.get_vertex(ids[op['n']])
            return dict(p=vec(nb.vertex_location(v)), es=[name(e) for e in g.vertex_edges(ids[op['n']])])
        if w == 'edge':
            e = g.get_edge(ids[op['n']])
            c = g.evaluate_edge(ids[op['n']])
            if geom.isarc(c):
                q = geom.length(c) / (c[1][0] * math.pi / 2)
                n = round(q)
                curve = dict(kind='arc', c=vec(c[0]), at=[vec(geom.sample(c, j / n)) for j in range(n + 1)] if n and abs(q - n) < 1e-6 else [q])
            else:
                curve = dict(kind='line', at=[vec(geom.sample(c, 0)), vec(geom.sample(c, 1))])
            return dict(ends=[name(g.get_vertex(x)) for x in nb.edge_vertices(e)], fs=list(dict.fromkeys(name(f) for f in g.edge_faces(ids[op['n']]))), sense=e[2]['sense'], t=num(e[2]['tolerance']), curve=curve)
        if w == 'face':
            f = g.get_face(ids[op['n']])
            lp = []
            for l in nb.face_loops(f):
                l = g.get_loop(l)
                lp.append(dict(ty=nb.loop_type(l), t=[dict(e=name(g.get_edge(nb.trim_edge_id(g.get_trim(t)))), s=g.get_trim(t)[2]['sense']) for t in nb.loop_trims(l)]))
            return dict(es=[name(e) for e in g.face_edges(ids[op['n']])], sense=f[2]['sense'], loops=lp, r=self.rect(nb.face_surface(f)), rings=self.rings(nb.face_surface(f)))
        i1 = ids.get(op.get('n'))
        if w == 'shell':
            sh = g.get_shell(i1)
            cl, d = g.compute_shell_closure(i1)
            try:
                g.validate_shell_closure(i1)
                cl2 = True
            except nb.ShellClosureError:
                cl2 = False
            box, mesh = g.shell_bbox(i1), g.tessellate_shell(i1, 3, 2)
            area = 0
            if mesh:
                for t in mesh[3]:
                    a, b, c = [mesh[1][x] for x in t]
                    area += geom.mag(geom.cross(geom.sub(b, a), geom.sub(c, a))) / 2
            return dict(fs=[name(g.get_face(x)) for x in nb.shell_faces(sh)], ty=sh[2]['shell_type'], flag={True: 'yes', False: 'no', None: '?'}[nb.shell_closed(sh)],
                        closed=cl if cl == cl2 else 'differs', border=self.order(g, d['boundary_edges']), crowd=self.order(g, d['non_manifold_edges']),
                        cnt=dict(v=d['vertex_count'], e=d['edge_count'], f=d['face_count'], x=d['euler_characteristic']),
                        box=dict(has=True, lo=vec(box[0]), hi=vec(box[1])) if box else dict(has=False), area=num(area))
        if w == 'valid':
            try:
                g.validate_solid(i1)
                okv = True
            except nb.SolidValidationError:
                okv = False
            return dict(ok=okv, ss=[name(g.get_shell(x)) for x in nb.solid_shells(g.get_solid(i1))])
        if w == 'in':
            return {'in': g.shell_contains_point(i1, point(*op['p']))}
        if w == 'gone':
            return dict(gone=g.get_shell(i1) is None and g.get_solid(i1) is None)
        i2 = ids[op['n2']]
        if w == 'near':
            return dict(near=bool(g.shells_bboxes_overlap(i1, i2, float(op['t']))))
        if w == 'meet':
            return dict(meet=bool(g.shells_intersect(i1, i2)))
        if w == 'same':
            return dict(same=bool(nb.vertices_coincident(g.get_vertex(i1), g.get_vertex(i2), op['t'] or None)))


BE = [(0, 1), (2, 3), (4, 5), (6, 7), (0, 2), (1, 3), (4, 6), (5, 7), (0, 4), (1, 5), (2, 6), (3, 7)]
BL = [(1, 6, 2, 5), (7, 4, 8, 3), (9, 3, 10, 1), (2, 12, 4, 11), (5, 11, 7, 9), (10, 8, 12, 6)]


def gmove(rng, arcs, scale=True):
    c = [2 * rng.randint(-4, 4) for _ in range(3)]
    r = rng.random()
    if r < .25:
        return dict(m='move', d=[2 * rng.randint(-6, 6) for _ in range(3)])
    if r < .55:
        a = rng.randint(1, 3)
        return dict(m='turn', a=a, q=2 if a < 3 and arcs else rng.randint(1, 3), c=c)
    if r < .8 or not scale:
        return dict(m='flip', a=rng.randint(1, 3))
    return dict(m='grow', f=rng.choice([2, 2, 3, 1]), c=c)


def brep_ops(rng, n, slow):
    """random histories; `slow` bounds the calls that compare whole shells"""
    gs = [dict(v=[], e=[], f=[], flat=[], s=[], sol=[], box=[], arcs=False, big=60)]
    budget = [slow]
    cnt = [0]

    def fresh(c):
        cnt[0] += 1
        return '%s%d' % (c, cnt[0])
    coords = [[2 * x for x in range(-20, 21)] for _ in range(3)]
    for c in coords:
        rng.shuffle(c)
    for _ in range(n):
        gi = rng.randint(1, len(gs))
        g = gs[gi - 1]
        r = rng.random()
        if r < .1 or len(g['v']) < 3:
            nm = fresh('v')
            yield dict(k='vert', g=gi, n=nm, p=[rng.randint(-9, 9) for _ in range(3)], t=rng.choice([0, 0, 1, 3, 5]))
            g['v'].append(nm)
        elif r < .2:
            nm = fresh('e')
            if rng.random() < .45:
                a, b = rng.sample(g['v'], 2) if rng.random() < .95 else [rng.choice(g['v'])] * 2
                yield dict(k='edge', g=gi, n=nm, a=a, b=b, kind='line', by='', c=[0, 0, 0], o=1, q=0, sense=rng.random() < .8, t=rng.choice([0, 1, 2]), obj=rng.random() < .5)
            else:
                c = [rng.randint(-9, 9) for _ in range(3)]
                d = rng.choice([(x, y) for x in range(-5, 6) for y in range(-5, 6) if (x, y) != (0, 0)])
                o, q = rng.choice([1, -1]), rng.randint(1, 3)
                p = (d[0], d[1])
                for _ in range(q if o > 0 else 4 - q):
                    p = (-p[1], p[0])
                va, vb = fresh('w'), fresh('w')
                yield dict(k='vert', g=gi, n=va, p=[c[0] + d[0], c[1] + d[1], c[2]], t=0)
                yield dict(k='vert', g=gi, n=vb, p=[c[0] + p[0], c[1] + p[1], c[2]], t=0)
                yield dict(k='edge', g=gi, n=nm, a=va, b=vb, kind='arc', by=rng.choice(['bulge', 'centre']), c=c, o=o, q=q, sense=rng.random() < .8, t=0, obj=rng.random() < .5)
                g['arcs'] = True
            g['e'].append(nm)
        elif r < .32 and g['e']:
            es = g['e'][-9:] if rng.random() < .7 else g['e']
            pick = rng.sample(es, min(len(es), rng.randint(1, 5)))
            if rng.random() < .3:                            # a seam
                pick.insert(rng.randint(0, len(pick)), rng.choice(pick))
            loops, i = [], 0
            while i < len(pick):
                j = i + rng.randint(1, 4)
                loops.append(dict(ty='outer' if i == 0 else 'inner', t=[dict(e=e, s=rng.random() < .6) for e in pick[i:j]]))
                i = j
            nm, r_, rd = fresh('f'), dict(has=False), dict(kind='none')
            x = rng.random()
            if x < .35:
                k = rng.randint(0, 2)
                lo = [2 * rng.randint(-9, 7) for _ in range(3)]
                hi = [a + 2 * rng.randint(1, 5) for a in lo]
                hi[k] = lo[k]
                nrm = [0, 0, 0]
                nrm[k] = rng.choice([1, -1])
                r_ = dict(has=True, lo=lo, hi=hi, nrm=nrm)
            elif x < .75:
                ax = [0, 0, 0]
                ax[rng.randint(0, 2)] = rng.choice([1, -1])
                v0 = rng.randint(-4, 4) if x < .65 else rng.randint(0, 4)
                kd = rng.choice(['ball', 'cyl', 'cone', 'tor']) if x >= .65 else rng.choice(['cyl', 'ball', 'tor'])
                r2 = rng.randint(1, 3)
                rd = dict(kind=kd, o=[rng.randint(-9, 9) for _ in range(3)], ax=ax, r1=r2 + rng.randint(1, 6), r2=r2, v0=v0, v1=v0 + rng.randint(1, 6))
            yield dict(k='face', g=gi, n=nm, loops=loops, r=r_, rd=rd, sense=rng.random() < .8)
            g['f'].append(nm)
            if rd['kind'] == 'none':
                g['flat'].append(nm)
        elif r < .42:
            nm = fresh('B')
            if rng.random() < .35 and g['flat']:
                o = yield dict(k='shell', g=gi, n=nm, fs=rng.sample(g['flat'], min(len(g['flat']), rng.randint(0 if rng.random() < .1 else 1, 4))), ty=rng.choice(['outer', 'inner', 'void']),
                               closed=rng.choice(['yes', 'no', '?', '?']), check=rng.random() < .8)
                kind = 'odd'
            elif g['big'] > 0 and min(map(len, coords)) > 2:
                lo, hi = zip(*[sorted([c.pop(), c.pop()]) for c in coords])
                drop = rng.sample(range(1, 7), rng.choice([0, 0, 0, 0, 1, 2]))
                o = yield dict(k='box', g=gi, n=nm, lo=list(lo), hi=list(hi), drop=drop, ty=rng.choice(['outer', 'void']), closed=rng.choice(['yes', 'yes', '?', '?', 'no']), check=rng.random() < .9)
                kind = 'box' if not drop else 'odd'
                g['v'].append(nm + 'v%d' % rng.randint(0, 7))
                g['e'] += [nm + 'e%d' % i for i in rng.sample(range(1, 13), 3)]
                g['flat'] += [nm + 'f%d' % i for i in range(1, 7) if i not in drop]
                g['f'].append(nm + 'f%d' % rng.choice([i for i in range(1, 7) if i not in drop]))
                if not drop:
                    g.setdefault('at', {})[nm] = (list(lo), list(hi))
            else:
                continue
            if o['res'] == 'ok':
                g['s'].append(nm)
                if kind == 'box':
                    g['box'].append(nm)
            else:
                yield dict(k='ask', w='gone', g=gi, n=nm)
        elif r < .5 and g['s']:
            ss = rng.sample(g['s'], min(len(g['s']), rng.choice([1, 1, 2, 2, 3]))) if rng.random() < .95 else []
            if rng.random() < .6 and g['box']:
                ss = rng.sample(g['box'], min(len(g['box']), rng.choice([1, 2, 2])))
            chk = rng.random() < .9
            if len(ss) > 1 and chk:
                if budget[0] <= 0:
                    ss = ss[:1]
                budget[0] -= 1
            nm = fresh('S')
            o = yield dict(k='solid', g=gi, n=nm, ss=ss, check=chk)
            if o['res'] == 'ok':
                g['sol'].append((nm, len(ss)))
            else:
                yield dict(k='ask', w='gone', g=gi, n=nm)
        elif r < .53:
            if g['v'] and rng.random() < .6:
                v = rng.choice(g['v'])
                if v.startswith('v'):
                    yield dict(k='place', g=gi, n=v, p=[rng.randint(-9, 9) for _ in range(3)])
            elif g['s']:
                yield dict(k='mark', g=gi, n=rng.choice(g['s']), closed=rng.choice(['yes', 'no', '?']))
        elif r < .6 and len(gs) < 5:
            if rng.random() < .55:
                m = gmove(rng, g['arcs'])
                yield dict(k='moved', g=gi, m=m, back=rng.random() < .5)
                gs.append(copy.deepcopy(g))
                gs[-1]['big'] = 0
            else:
                yield dict(k='reload', g=gi, how=rng.choice(['json', 'solid']))
                gs.append(copy.deepcopy(g))
        elif r < .65:
            g['big'] = 0
            yield dict(k='inplace', g=gi, m=gmove(rng, g['arcs'], False))
        elif r < .67:
            yield dict(k='points', g=gi, m=gmove(rng, g['arcs']))
        elif r < .69:
            yield dict(k='squash', g=gi) if rng.random() < .5 else dict(k='bare', g=gi, how=rng.choice(['none', 'cleared']), m=gmove(rng, True))
        else:
            w = rng.choice(['sum', 'vert', 'vert', 'edge', 'edge', 'edge', 'face', 'face', 'shell', 'shell', 'valid', 'in', 'in', 'near', 'meet', 'same'])
            op = dict(k='ask', w=w, g=gi)
            if w == 'sum':
                yield op
            elif w == 'same':
                a, b = rng.choice(g['v']), rng.choice(g['v'])
                yield dict(op, n=a, n2=b, t=rng.choice([0, 0, 3, 6, 12]))
            elif w in ('vert', 'edge', 'face') and g[w[0]]:
                yield dict(op, n=rng.choice(g[w[0]] if rng.random() < .6 else g[w[0]][-4:]))
            elif w == 'shell' and g['s']:
                yield dict(op, n=rng.choice(g['s']))
            elif w == 'valid' and g['sol']:
                nm, k = rng.choice(g['sol'])
                if k > 1:
                    if budget[0] <= 0:
                        continue
                    budget[0] -= 1
                yield dict(op, n=nm)
            elif w == 'in' and g['box']:
                nm = rng.choice(g['box'])
                o = yield dict(k='ask', w='shell', g=gi, n=nm)
                b = (o.get('a') or {}).get('box') or {}
                for _ in range(3):
                    p = [rng.randrange(-41, 42, 2) for _ in range(3)]
                    if b.get('has') and rng.random() < .8:
                        p = [rng.choice([x for x in range(l - 3, h + 4) if x % 2]) if isinstance(l, int) and isinstance(h, int) else 1 for l, h in zip(b['lo'], b['hi'])]
                        if rng.random() < .4 and all((l + h) // 2 % 2 for l, h in zip(b['lo'], b['hi'])):
                            p = [(l + h) // 2 for l, h in zip(b['lo'], b['hi'])]
                    yield dict(op, n=nm, p=p)
            elif w in ('near', 'meet') and len(g['box']) > 1:
                a, b = rng.sample(g['box'], 2)
                if w == 'meet':
                    if budget[0] <= 0:
                        continue
                    budget[0] -= 1
                yield dict(op, n=a, n2=b, **(dict(t=rng.choice([0, 0, 1, 3, 5])) if w == 'near' else {}))
    for gi, g in enumerate(gs, 1):
        yield dict(k='ask', w='sum', g=gi)
        for w in ('vert', 'edge', 'face'):
            if g[w[0]]:
                yield dict(k='ask', w=w, g=gi, n=rng.choice(g[w[0]]))


def void_ops(rng):
    """a box with a void, asked about before and after moves"""
    lo = [rng.randrange(-20, 0, 2) for _ in range(3)]
    hi = [a + rng.randrange(12, 20, 2) for a in lo]
    a = [x + rng.randrange(2, 6, 2) for x in lo]
    b = [x - rng.randrange(2, 6, 2) for x in hi]
    for n, q, ty in (('A', (lo, hi), 'outer'), ('B', (a, b), 'void')):
        yield dict(k='box', g=1, n=n, lo=q[0], hi=q[1], drop=[], ty=ty, closed=rng.choice(['yes', '?']), check=True)
    if rng.random() < .9:
        yield dict(k='solid', g=1, n='S', ss=['A', 'B'], check=rng.random() < .3)
    gn, boxes = 1, [dict(A=(lo, hi), B=(a, b))]
    for _ in range(rng.randint(2, 4)):
        g = rng.randint(1, gn)
        for n in rng.sample('AB', 2):
            o = yield dict(k='ask', w='shell', g=g, n=n)
            q = (o.get('a') or {}).get('box') or {}
            for m in range(2):
                l, h = (q['lo'], q['hi']) if q.get('has') and rng.random() < .7 else rng.choice(boxes)[n]
                if all(isinstance(x, int) for x in l + h):
                    yield dict(k='ask', w='in', g=g, n=n, p=[rng.choice([x for x in range(i - 3, j + 4) if x % 2]) for i, j in zip(l, h)])
        r = rng.random()
        if r < .6:
            yield dict(k='inplace', g=g, m=gmove(rng, False, False))
        elif r < .9:
            yield dict(k='moved', g=g, m=gmove(rng, False), back=rng.random() < .5)
            gn += 1
        else:
            yield dict(k='reload', g=g, how=rng.choice(['json', 'solid']))
            gn += 1
    for g in range(1, gn + 1):
        for n in 'AB':
            o = yield dict(k='ask', w='shell', g=g, n=n)
            q = (o.get('a') or {}).get('box') or {}
            if q.get('has') and all(isinstance(x, int) for x in q['lo'] + q['hi']):
                for l, h in [(q['lo'], q['hi']), boxes[0][n]]:
                    yield dict(k='ask', w='in', g=g, n=n, p=[rng.choice([x for x in range(i, j + 1) if x % 2]) for i, j in zip(l, h)])


def brep_check(ctx):
    ctx.model_check('BrepMC', ['InvGood', 'InvBox', 'InvMove', 'InvVoid'], consts=dict(Depth=ctx.n(3, 4)), workers=7)
    a = Brep()
    a.replay(ctx, ctx.generate('BrepMC', consts=dict(Depth=9), simulate=ctx.n(60, 600), depth=9), 'generated')
    tr = []
    for i in range(ctx.n(120, 1200)):
        init = dict(z=0)
        tr.append(a.record('b%d' % i, init, brep_ops(ctx.rng, ctx.rng.randint(20, 60), ctx.n(2, 4))))
    for i in range(ctx.n(40, 400)):
        tr.append(a.record('v%d' % i, dict(z=0), void_ops(ctx.rng)))
    ctx.report_bads(ctx.validate('BrepTrace', tr, workers=6), tr, 'topology history')
    ctx.assumptions += ['edges are lines and arcs of whole quarters in horizontal planes; faces on rectangles parallel to the axes, whole balls, cylinders, cones, tori',
                        'shells in general position (no common face planes); points asked for are not on a shell']
