"""Collisions: binds Col.tla to yapcad.collision."""
import logging, os, sys, types
import numpy as np
from ..core import Area, exc
from .asm import ROTS

KINDS = dict(gear='GEAR_MESH', thread='THREAD')


def rtree_standin():
    """trimesh needs an interval index to test points; a linear one does when rtree is not installed"""
    try:
        import rtree  # noqa
        return
    except ImportError:
        pass
    m, ix = types.ModuleType('rtree'), types.ModuleType('rtree.index')

    class Property:
        def __init__(self, dimension=3):
            self.dimension = dimension

    class Index:
        def __init__(self, stream, properties=None):
            b = [x[1] for x in stream]
            self.b = np.array(b, dtype=float).reshape(len(b), -1)
            d = self.b.shape[1] // 2
            self.d = d
            self.bounds = np.concatenate([self.b[:, :d].min(0), self.b[:, d:].max(0)])

        def intersection(self, q):
            q = np.asarray(q)
            return np.nonzero((self.b[:, :self.d] <= q[self.d:]).all(1) & (self.b[:, self.d:] >= q[:self.d]).all(1))[0].tolist()
    ix.Property, ix.Index, m.index, m.Index = Property, Index, ix, Index
    sys.modules['rtree'], sys.modules['rtree.index'] = m, ix


def mesh(bs):
    import trimesh
    out = []
    for b in bs:
        lo, hi = np.array(b['lo'], float), np.array(b['hi'], float)
        m = trimesh.creation.box(hi - lo)
        m.apply_translation((lo + hi) / 2)
        out.append(m)
    return out[0] if len(out) == 1 else trimesh.util.concatenate(out)


class Provider:
    def __init__(self):
        self.geo = {}

    def get_geometry(self, n):
        return self.geo.get(n)


class Obj:
    def __init__(self, m):
        self.matrix = m


def tf(T):
    m = np.eye(4)
    m[:3, :3], m[:3, 3] = T['R'], T['t']
    f = T['form']
    if f == 'bad':
        return [np.eye(3), 'x', [[1, 2], [3]], list(range(15)), np.zeros((4, 3))][abs(T['t'][0]) % 5]
    return dict(list=lambda: m.tolist(), flat=lambda: m.flatten().tolist(), numpy=lambda: m, obj=lambda: Obj(m.tolist()), none=lambda: None, int=lambda: m.astype(int))[f]()


def inside(bs, T, p):
    m = np.linalg.inv(np.block([[np.array(T['R'], float), np.array(T['t'], float).reshape(3, 1)], [np.zeros((1, 3)), np.ones((1, 1))]]))
    q = (m @ np.append(np.array(p, float), 1))[:3]
    return any((q >= np.array(b['lo']) - 1e-6).all() and (q <= np.array(b['hi']) + 1e-6).all() for b in bs)


class Col(Area):
    def __init__(self, scratch):
        logging.getLogger('trimesh').setLevel(logging.CRITICAL + 1)
        rtree_standin()
        self.scratch = scratch
        self.n = 0

    def new(self, init):
        from yapcad.collision import CollisionDetector, InterfaceRegistry
        s = dict(prov=Provider(), regs=[InterfaceRegistry(), InterfaceRegistry()], bs={}, held={})
        s['det'] = CollisionDetector(s['prov'], interface_registry=s['regs'][0])
        s['use'] = 0
        s['files'] = []
        for g in init['geo']:
            self.give(s, g)
        np.random.seed(7)
        return s

    def close(self, s):
        for f in s['files']:
            if os.path.exists(f):
                os.unlink(f)

    def give(self, s, g):
        import trimesh
        if not g['bs']:
            s['prov'].geo.pop(g['n'], None)
            s['bs'].pop(g['n'], None)
            return
        s['bs'][g['n']] = g['bs']
        f = g['form']
        if f == 'mesh':
            x = mesh(g['bs'])
        elif f == 'stl':
            self.n += 1
            x = os.path.join(self.scratch, 'p%d.stl' % self.n)
            mesh(g['bs']).export(x)
            s['files'].append(x)
        elif f == 'scene':
            x = trimesh.Scene()
            for i, b in enumerate(g['bs']):
                d = [h - l for l, h in zip(b['lo'], b['hi'])]
                t = np.eye(4)
                t[:3, 3] = [(l + h) / 2 for l, h in zip(b['lo'], b['hi'])]
                x.add_geometry(trimesh.creation.box(d), node_name='n%d' % i, geom_name='g%d' % i, transform=t)
        else:
            self.n += 1
            x = os.path.join(self.scratch, 'none%d.stl' % self.n)
            if g['bs'][0]['lo'][0] % 2:
                open(x, 'w').write('solid\n nonsense')
                s['files'].append(x)
        s['prov'].geo[g['n']] = x

    def iface(self, i):
        from yapcad.collision import GearMeshInterface, ThreadInterface
        from yapcad.collision.thread_interface import ThreadType
        kw = dict(name=i['n'], part_name=i['part'], center=tuple(map(float, i['c'])), axis=tuple(map(float, i['v'])))
        if i['kind'] == 'gear':
            m = i['m'] / 1000
            return GearMeshInterface(module=m, teeth=round(i['d2'] / 2 / m - 2), pressure_angle=i['x'] / 100, face_width=i['h2'] / 2, helix_angle=i['hel'] / 100, **kw)
        return ThreadInterface(pitch=i['m'] / 1000, major_diameter=i['d2'] / 2, thread_type=ThreadType[i['lab']], engagement_length=i['h2'] / 2, is_internal=i['int'], **kw)

    def apply(self, s, op):
        try:
            return self._apply(s, op)
        except Exception as e:
            return dict(res=exc(e))

    def held(self, s, n):
        """the boxes the detector works with: those of the first time it asked"""
        return s['held'].setdefault(n, s['bs'].get(n))

    def seen(self, s, n):
        if n not in s['held'] and n in s['bs']:
            s['held'][n] = s['bs'][n]

    def verdict(self, s, r, a, Ta, b, Tb):
        from yapcad.collision import CollisionResult
        import json
        order = [i.name for i in s['regs'][s['use']].get_all_interfaces()]
        err = bool(r.error_message)
        fine = CollisionResult.from_dict(json.loads(json.dumps(r.to_dict(), default=lambda x: x.item()))) == r
        fine = fine and r.is_error == (r.collides and not r.compatible_interface) and r.is_interface_overlap == (r.collides and r.compatible_interface)
        fine = fine and tuple(r.pair_key) == tuple(sorted([a, b])) and (r.part_a, r.part_b) == (a, b) and len(r.contact_points) <= 20
        if r.method.name == 'MESH' and r.collides:
            fine = fine and r.penetration_depth > 0 and len(r.contact_points) > 0
            for p in r.contact_points:
                fine = fine and inside(s['held'][a], Ta, p) and inside(s['held'][b], Tb, p)
        elif not r.collides or r.method.name == 'AABB':
            fine = fine and not r.contact_points and r.penetration_depth == 0 and not (r.intersection_volume or 0)
        return dict(err=err, hit='yes' if r.collides else 'no', meant=bool(r.compatible_interface),
                    names=sorted(r.interface_names, key=lambda n: order.index(n) if n in order else -1), how=r.method.name, fine=bool(fine))

    def _apply(self, s, op):
        from yapcad.collision import CollisionMethod
        from yapcad.collision.thread_interface import create_bolt_pattern_interfaces
        from yapcad.collision.gear_interface import create_planetary_gearbox_interfaces
        from yapcad.collision.interface import InterfaceType
        import warnings
        k, det = op['k'], s['det']
        if k == 'geo':
            self.give(s, op)
            return dict(res='ok')
        if k == 'forget':
            det.clear_cache()
            s['held'] = {}
            return dict(res='ok')
        if k == 'use':
            s['use'] = op['r'] - 1
            det.set_interface_registry(s['regs'][s['use']])
            return dict(res='ok')
        if k == 'check':
            self.seen(s, op['a']), self.seen(s, op['b'])
            kw = {} if op['how'] == 'MESH' and op['Ta']['t'][0] % 2 else dict(method=CollisionMethod[op['how']])
            r = det.check_collision(op['a'], tf(op['Ta']), op['b'], tf(op['Tb']), **kw)
            return dict(res='ok', v=self.verdict(s, r, op['a'], op['Ta'], op['b'], op['Tb']))
        if k == 'assembly':
            ps = {p['n']: p['T'] for p in op['ps']}
            names = [p['n'] for p in op['ps']]
            sk = [tuple(x) for x in op['skip']]
            for i, a in enumerate(names):
                for b in names[i + 1:]:
                    if (a, b) not in sk and (b, a) not in sk:
                        self.seen(s, a), self.seen(s, b)
            rs = det.check_assembly({n: tf(t) for n, t in ps.items()}, skip_pairs=sk) if sk or len(names) % 2 else det.check_assembly({n: tf(t) for n, t in ps.items()})
            m = det.get_collision_summary(rs)
            return dict(res='ok', vs=[dict(a=r.part_a, b=r.part_b, v=self.verdict(s, r, r.part_a, ps[r.part_a], r.part_b, ps[r.part_b])) for r in rs],
                        sum=dict(total=m['total_pairs'], hits=m['collisions_detected'], errors=m['actual_errors'], meant=m['expected_interfaces'],
                                 failed=m['detection_failures'], ep=[list(x) for x in m['error_pairs']], ip=[list(x) for x in m['interface_pairs']]))
        if k == 'rod':
            import trimesh
            d, S, L = op['d'], op['S'], op['L']
            rod = mesh([dict(lo=[-1, -1, S - d], hi=[0, 0, S - d + L])])
            cube = mesh([dict(lo=[-S] * 3, hi=[S] * 3)])
            s['prov'].geo.update({'rod!': rod, 'cube!': cube})
            det._geometry_cache.pop('rod!', None), det._geometry_cache.pop('cube!', None)
            T = tf(dict(R=op['R'], t=op['t'], form='numpy'))
            r = det.check_collision(*([x for n in ('rod!', 'cube!') for x in (n, T)] if op['swap'] else [x for n in ('cube!', 'rod!') for x in (n, T)]),
                                    method=CollisionMethod.MESH)
            det._geometry_cache.pop('rod!', None), det._geometry_cache.pop('cube!', None)
            x = r.penetration_depth
            return dict(res='ok', depth=round(x) if abs(x - round(x)) < 1e-6 else 'off %.3f' % x)
        reg = s['regs'][op['r'] - 1]
        if k == 'reg':
            reg.register(self.iface(op['i']))
            return dict(res='ok')
        if k == 'bolts':
            reg.register_many(create_bolt_pattern_interfaces(op['n'], op['pa'], op['pb'], op['size'], [tuple(map(float, c)) for c in op['at']],
                                                             **(dict(engagement_length=op['len2'] / 2) if op['len2'] else {})))
            return dict(res='ok')
        if k == 'planetary':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                q = create_planetary_gearbox_interfaces(op['n'], float(op['mod']), op['sun'], op['planet'], op['ring'], op['h2'] / 2, num_planets=op['num'],
                                                        pressure_angle=op['x'] / 100, mesh_plane_z=float(op['z']))
            reg.register_many(q)
            return dict(res='ok')
        if k == 'unreg':
            x = reg.unregister(op['n'])
            return dict(res='ok', had=x is not None and x.name == op['n'])
        if k == 'clear':
            reg.clear()
            return dict(res='ok')
        names = lambda q: [i.name for i in q]
        if k == 'ask':
            al = reg.get_all_interfaces()
            P = reg.get_interfaces_for_part(op['p'])
            x = reg.get(op['n'])
            r = dict(res='ok', len=len(reg), all=names(al), part=names(P), has=reg.has_interfaces(op['p']),
                     type=names(reg.get_interfaces_by_type(InterfaceType[KINDS[op['kind']]])), known=(op['n'] in reg) and x is not None and x.name == op['n'],
                     parts=len(set(reg.get_all_parts())))
            if names(reg) != r['all'] or [d['name'] for d in reg.to_dict()['interfaces']] != r['all'] or (x is None) != (op['n'] not in reg):
                r['all'] = 'listings disagree'
            al.append(None), P.append(None)
            return r
        if k == 'pair':
            ok, rs = reg.check_overlap_compatibility(op['p'], op['q'])
            order = names(reg.get_all_interfaces())
            return dict(res='ok', ok=ok, rs=[dict(ok=x.is_compatible, w=len(x.warnings)) for x in rs],
                        names=sorted(reg.get_compatible_interface_names(op['p'], op['q']), key=order.index))
        if k == 'fits':
            x = reg.get(op['n'])
            return dict(res='ok', ns=[] if x is None else [i.name for i, c in reg.find_compatible_interfaces(x) if c.is_compatible])
        raise ValueError(k)


AXES = [[0, 0, 1], [0, 0, 2], [0, 0, -1], [1, 0, 0], [0, 1, 0], [1, 1, 0], [0, -2, 0], [-1, -1, 0]]
TH = [dict(d2=6, m=500, lab='ISO_METRIC'), dict(d2=8, m=700, lab='ISO_METRIC'), dict(d2=8, m=500, lab='ISO_METRIC_FINE'), dict(d2=8, m=700, lab='UNC'), dict(d2=6, m=500, lab='CUSTOM')]


def gif(rng, n, parts, style):
    i = dict(n=n, part=rng.choice(parts), c=[rng.randint(-3, 3) for _ in range(3)], v=rng.choice(AXES) if rng.random() < .3 else AXES[rng.randint(0, 2)])
    if rng.random() < style:
        m = rng.choice([1000] * 6 + [2000, 1500])
        t = rng.randint(1, 5) * 2
        i.update(kind='gear', d2=m * 2 * (t + 2) // 1000, h2=rng.choice([1, 2, 4, 8]), m=m, x=rng.choice([2000] * 6 + [2025, 2050, 2051, 1450]),
                 hel=rng.choice([0, 0, 1500, -1500, 1525]), lab='', int=False)
    else:
        i.update(kind='thread', h2=rng.choice([2, 6, 9]), x=0, hel=0, int=rng.random() < .5, **rng.choice(TH[:1] * 3 + TH))
    return i


def gboxes(rng):
    out = []
    x = 0
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        lo = [x + rng.randint(-3, 3)] + [rng.randint(-5, 5) for _ in range(2)]
        hi = [v + rng.randint(1, 6) for v in lo]
        x = hi[0] + 4
        out.append(dict(lo=lo, hi=hi))
    return out


def gT(rng, far=10):
    if rng.random() < .05:
        return dict(R=ROTS[0] if False else [[1, 0, 0], [0, 1, 0], [0, 0, 1]], t=[0, 0, 0], form='none')
    return dict(R=rng.choice(ROTS), t=[rng.randint(-far, far) for _ in range(3)], form=rng.choice(['list', 'flat', 'numpy', 'obj', 'int', 'list', 'flat', 'obj', 'int', 'bad']
                                                                                                  if rng.random() < .3 else ['list', 'numpy']))


def near(rng, T, A, B):
    """a placement that brings a box of B close to a box of A"""
    U = gT(rng, 4)
    if U['form'] != 'none' and A and B:
        a, b = rng.choice(A), rng.choice(B)
        ca, cb = [(x + y) // 2 for x, y in zip(a['lo'], a['hi'])], [(x + y) // 2 for x, y in zip(b['lo'], b['hi'])]
        U['t'] = [sum(T['R'][i][j] * ca[j] - U['R'][i][j] * cb[j] for j in range(3)) + T['t'][i] + rng.randint(-3, 3) for i in range(3)]
    return U


def partner(rng, i, n, parts):
    o = dict(i, n=n, part=rng.choice([p for p in parts if p != i['part']]), c=[x + rng.choice([0, 0, 0, 1, -1]) for x in i['c']])
    if i['kind'] == 'thread':
        o['int'] = not i['int']
    return o


def ggeo(rng, n):
    return dict(n=n, bs=gboxes(rng) if rng.random() < .93 else [], form=rng.choice(['mesh', 'stl', 'scene', 'scene', 'broken'] if rng.random() < .5 else ['mesh']))


def col_ops(rng, init, n):
    cnt = [0]
    live = []

    def nm():
        cnt[0] += 1
        return 'i%d' % cnt[0]
    parts = [g['n'] for g in init['geo']] + ['E']
    P = len(parts)
    style = rng.choice([0, .5, 1])
    geo = {g['n']: g['bs'] for g in init['geo']}
    ifs = []

    def some():
        return parts[:P] if rng.random() < .15 else parts[:P - 1]
    for _ in range(n):
        r = rng.random()
        reg = rng.choice([1, 1, 1, 1, 1, 2])
        if r < .09:
            g = ggeo(rng, rng.choice(parts[:P]))
            geo[g['n']] = g['bs']
            yield dict(k='geo', **g)
        elif r < .15:
            yield dict(k='forget')
        elif r < .38:
            i = gif(rng, rng.choice(live) if live and rng.random() < .1 else nm(), parts[:P], style)
            if ifs and rng.random() < .5:
                i = partner(rng, rng.choice(ifs), i['n'], parts[:P])
            ifs.append(i)
            live.append(i['n'])
            yield dict(k='reg', r=reg, i=i)
        elif r < .41:
            b = dict(k='bolts', r=reg, n=rng.choice('xy'), pa=rng.choice(parts), pb=rng.choice(parts), size=rng.choice(['M3', 'M4', 'm6', 'M8', 'M7', 'M4x0.5', 'M1', 'M6x1']),
                     at=[[rng.randint(-9, 9) for _ in range(3)] for _ in range(rng.randint(0, 3))], len2=rng.choice([0, 0, 5, 12]))
            live += ['%s_bolt_%d' % (b['n'], i) for i in (1, 2)]
            yield b
        elif r < .43:
            sun, pl = rng.choice([(4, 4), (6, 10), (8, 4)])
            b = dict(k='planetary', r=reg, n=rng.choice('GH'), mod=rng.choice([1, 2]), sun=sun, planet=pl, ring=sun + 2 * pl + rng.choice([0, 0, 2]), h2=rng.choice([1, 8]),
                     num=rng.choice([1, 2, 4]), x=rng.choice([2000, 1450]), z=rng.randint(-3, 3))
            live += ['G_sun_teeth', 'H_planet_1_teeth']
            parts += ['G_SUN_GEAR', 'G_PLANET_GEAR_1', 'H_RING_HOUSING']
            yield b
        elif r < .48:
            yield dict(k='unreg', r=reg, n=rng.choice(live + ['none']))
        elif r < .485:
            yield dict(k='clear', r=reg)
        elif r < .53:
            yield dict(k='use', r=reg)
        elif r < .59:
            yield dict(k='ask', r=reg, p=rng.choice(parts), kind=rng.choice(['gear', 'thread']), n=rng.choice(live + ['none']))
        elif r < .68:
            p, q = rng.sample(parts if rng.random() < .2 else parts[:P], 2)
            yield dict(k='pair', r=reg, p=p, q=q)
        elif r < .71:
            yield dict(k='fits', r=reg, n=rng.choice(live + ['none']))
        elif r < .91:
            a, b = rng.sample(some(), 2)
            T0 = gT(rng, 6)
            yield dict(k='check', a=a, b=b, Ta=T0, Tb=near(rng, T0, geo.get(a), geo.get(b)), how=rng.choice(['AABB', 'MESH', 'MESH']))
        elif r < .98:
            ps = rng.sample(some(), rng.randint(0, P - 1))
            yield dict(k='assembly', ps=[dict(n=p, T=gT(rng, 7)) for p in ps], skip=[rng.sample(some(), 2) for _ in range(rng.choice([0, 0, 1, 2]))])
        else:
            S = rng.randint(4, 6)
            yield dict(k='rod', S=S, d=rng.randint(1, S - 2), L=rng.randint(S + 2, 12), R=rng.choice(ROTS), t=[rng.randint(-9, 9) for _ in range(3)], swap=rng.random() < .5)


def col_check(ctx):
    ctx.model_check('ColMC', ['InvGood', 'InvSym', 'InvNames', 'InvFiner', 'InvMove'], consts=dict(Depth=ctx.n(3, 5)), workers=6)
    a = Col(ctx.scratch)
    a.replay(ctx, ctx.generate('ColMC', consts=dict(Depth=10), simulate=ctx.n(60, 600), depth=10), 'generated')
    tr = []
    for i in range(ctx.n(220, 2500)):
        init = dict(geo=[dict(g, bs=g['bs'] or gboxes(ctx.rng)) for g in [ggeo(ctx.rng, n) for n in 'ABCD'[:ctx.rng.randint(2, 4)]]])
        tr.append(a.record('c%d' % i, init, col_ops(ctx.rng, init, ctx.rng.randint(10, 40))))
    ctx.report_bads(ctx.validate('ColTrace', tr, workers=6), tr, 'collision history')
    ctx.assumptions += ['parts touching without sharing an interior are not judged by the sampling method', 'an interval index stands in for rtree where it is not installed',
                        'interface centres and axes are world coordinates']
