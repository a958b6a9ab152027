"""Exported assembly graphs and the analysis set up from them: binds Graf.tla to assembly.mechatron_export,
assembly.load_case and package.analysis.mechatron_fea_setup."""
import json, math, os, shutil, sys, io
import numpy as np
from ..core import Area, exc
from .asm import mkdatum, ROTS, VECS


def whole(x, k=1, tol=1e-4):
    y = float(x) * k
    r = round(y)
    return int(r) if abs(y - r) < tol * max(1, k ** .5) else 'off:%.4f' % y


def vec(d, k=1):
    if d is None:
        return []
    v = [d['x'], d['y'], d['z']] if isinstance(d, dict) else list(d)
    return [whole(c, k) for c in v]


def unit(d):
    if d is None:
        return []
    v = np.array([d['x'], d['y'], d['z']] if isinstance(d, dict) else list(d)[:3], dtype=float)
    n = np.linalg.norm(v)
    return [whole(c, 105) for c in (v / n if n else v)]


def quat(R):
    from yapcad.kinematics import Transform     # only to have another opinion when it is there
    m = np.array(R, dtype=float)
    w = math.sqrt(max(0, 1 + m[0, 0] + m[1, 1] + m[2, 2])) / 2
    if w > .1:
        return [(m[2, 1] - m[1, 2]) / (4 * w), (m[0, 2] - m[2, 0]) / (4 * w), (m[1, 0] - m[0, 1]) / (4 * w), w]
    ev, vv = np.linalg.eig(m)
    a = np.real(vv[:, int(np.argmin(abs(ev - 1)))])
    return [a[0], a[1], a[2], 0.0]


class Graf(Area):
    def __init__(self, scratch):
        self.scratch = scratch

    def new(self, init):
        from yapcad.assembly.assembly import Assembly
        from yapcad.assembly.datum import PartDefinition
        defs = {}
        for d in init['defs']:
            p = PartDefinition(d['n'], material=d['mat'])
            if d['proc']:
                p.process = d['proc']
            for x in d['ds']:
                p.add_datum(mkdatum(x))
            if d['gs']:
                p.geoms = [self.geom(g) for g in d['gs']]
            defs[d['n']] = p
        base = os.path.join(self.scratch, 'graf')
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(os.path.join(base, 'x', 'graph.json'))
        return dict(a=Assembly('asm'), defs=defs, base=base)

    def close(self, s):
        shutil.rmtree(s['base'], ignore_errors=True)

    def geom(self, g):
        e = dict(type=g['ty'].upper() if g['r'] % 2 else g['ty'])
        mm = g['mm']
        if g['ty'] in ('cylinder', 'sphere', 'capsule'):
            e.update({'radius_mm': g['r']} if mm else {'radius': g['r'] / 1000})
        if g['ty'] in ('cylinder', 'capsule'):
            e.update({'half_height_mm': g['h']} if mm else {'half_height': g['h'] / 1000})
        if g['ty'] == 'box':
            e['size_mm'] = list(g['sz'])
        if g['ty'] == 'mesh':
            e['path'] = 'm.stl'
        if g['pos']:
            if mm or g['ty'] == 'box':
                e['pos_mm'] = list(g['pos'])
            else:
                e['pos'] = [c / 1000 for c in g['pos']]
        return e

    def apply(self, s, op):
        from yapcad.assembly.assembly import AssemblyError
        try:
            return self._apply(s, op)
        except AssemblyError:
            return dict(res='AssemblyError')
        except Exception as e:
            return dict(res=exc(e))

    def load(self, l):
        from yapcad.assembly.load_case import LoadCase, LoadAttach
        at = LoadAttach(part=l['part'], position=list(l['pos']), interface=l['iface'] or None, clock_deg=None if l['clock'] < 0 else float(l['clock']),
                        bolt_index=None if l['bolt'] < 0 else l['bolt'])
        c = LoadCase(id=l['id'], name=l['name'], group=l['group'], direction=list(l['dir']), attach=at,
                     magnitude_n=None if l['n'] < 0 else float(l['n']), magnitude_g=None if l['g'] < 0 else float(l['g']),
                     coordinate_frame=l['frame'], description=l['desc'], source=l['src'], status=l['status'], warn=l['warn'])
        return LoadCase.from_dict(json.loads(json.dumps(c.to_dict()))) if l['src'] == 'file' else c

    def showload(self, d):
        a = d['attach']
        num = lambda x: -1 if x is None else whole(x)
        return dict(id=d['id'], part=a['part'], group=d['group'], frame=d['coordinate_frame'], status=d['status'], n=num(d.get('magnitude_n')),
                    g=num(d.get('magnitude_g')), dir=vec(d['direction']), pos=vec(a['position']), iface=a['interface'] or '', clock=num(a['clock_deg']),
                    bolt=num(a['bolt_index']), warn=d.get('warn', False), name=d['name'], desc=d['description'], src=d['source'])

    def snapshot(self, g):
        parts = []
        for p in g['parts']:
            ds = [dict(n=d['name'], ty=d['datum_type'], o=vec(d['origin']), dir=unit(d.get('direction')), nor=unit(d.get('normal')),
                       r=whole(d.get('radius') or 0)) for d in p['datums']]
            gs = [dict(ty=x['type'].lower(), r=whole(x['radius'], 1000) if 'radius' in x else -1, h=whole(x['half_height'], 1000) if 'half_height' in x else -1,
                       sz=vec(x['size'], 1000) if 'size' in x else [], pos=vec(x['pos'], 1000) if 'pos' in x else [], path=x.get('path') == 'm.stl')
                  for x in p.get('geoms', [])]
            parts.append(dict(id=p['id'] if p['id'] == p['name'] else [p['id'], p['name']], mat=p['material'], proc=p['process'], ds=ds, gs=gs))
        faces = []
        for f in g['interfaces']:
            b = f.get('bolt_pattern')
            faces.append(dict(i=int(f['id'].rsplit('_', 1)[1]), a=f['parent_part'], b=f['child_part'], joint=f['joint']['type'], ax=unit(f['joint'].get('axis')),
                              cs=[dict(ty=c['type'], pd=c.get('parent_datum', ''), cd=c['child_datum'], ax=unit(c.get('target_axis')),
                                       ang=whole(c.get('angle_deg', 0))) for c in f['mate_constraints']],
                              ins=unit(f.get('insertion_vector')), bolts=[whole(b['pcd_mm']), b['n_bolts']] if b else [], spec=b['bolt_spec'] if b else ''))
        return dict(parts=parts, faces=faces, loads=[self.showload(l) for l in g.get('load_cases', [])],
                    rest=all(g[k] == [] for k in ('loop_closures', 'joint_couplings', 'keyframes', 'generators', 'design_constraints'))
                    and 'asm' in g['last_script'])

    def _apply(self, s, op):
        from yapcad.assembly.mate import Mate, MateType
        from yapcad.assembly.load_case import BoltPattern
        from yapcad.assembly import mechatron_export as X
        a, k = s['a'], op['k']
        if k == 'part':
            a.add_part(s['defs'][op['def']], name=op['n'])
            return dict(res='ok')
        if k == 'mate':
            a.add_mate(Mate(op['n'], MateType(op['ty']), op['p1'], op['d1'], op['p2'], op['d2'], angle=math.radians(op['ang'])))
            return dict(res='ok')
        if k == 'bolts':
            b = BoltPattern(float(op['pcd']), op['nb'], op['spec'], list(op['ax']))
            if op['wz'] != -999:
                b = dict(b.to_dict(), world_z_mm=float(op['wz']))
            elif op['nb'] % 2:
                b = BoltPattern.from_dict(json.loads(json.dumps(b.to_dict())))
            a.add_bolt_pattern(op['a'], op['b'], b)
            return dict(res='ok')
        if k == 'load':
            a.add_load_case(self.load(op['lc']))
            return dict(res='ok')
        if k == 'export':
            g = X.to_mechatron_snapshot(a) if op['how'] == 'dict' else json.loads(X.to_mechatron_json(a))
            n = self.snapshot(g)
            opened = False
            groups = {}
            for m in a.mates:
                groups.setdefault((m.part_a, m.part_b), []).append(m)
            for f in n['faces']:
                for m in groups.get((f['a'], f['b']), []):
                    if m.mate_type.value in ('rigid', 'revolute', 'prismatic', 'spherical') and a.parts[m.part_a].datums[m.datum_a].datum_type.value in ('plane', 'circle'):
                        opened = True
            if opened:
                for f in n['faces']:
                    f['ins'] = []
            return dict(res='ok', snap=n)
        if k == 'fea':
            return self.fea(s, op)
        if k == 'broken':
            from yapcad.package.analysis.mechatron_fea_setup import prepare
            p = os.path.join(s['base'], 'bad.json')
            if op['how'] != 'gone':
                with open(p, 'w') as fp:
                    fp.write('{"parts": []}' if op['how'] == 'nofaces' else '{"interfaces": [')
            elif os.path.exists(p):
                os.remove(p)
            prepare(p)
            return dict(res='ok')
        if k == 'turn':
            from yapcad.package.analysis.mechatron_fea_setup import vehicle_to_mesh_position as f, vehicle_to_mesh_direction as g
            return dict(res='ok', p=vec(f(op['v'])), d=vec(g(op['v'])))
        raise ValueError(k)

    def fea(self, s, op):
        from yapcad.assembly import mechatron_export as X
        from yapcad.package.analysis import mechatron_fea_setup as F
        g = json.loads(X.to_mechatron_json(s['a']))

        def placed(f, p):
            f['origin'] = [float(c) for c in p['t']]
            if not (p['R'] == [[1, 0, 0], [0, 1, 0], [0, 0, 1]] and p['t'][0] % 2):
                f['orientation'] = quat(p['R'])
            return f
        for i, f in enumerate(g['interfaces']):
            placed(f, op['poses'][i % len(op['poses'])])
        g['interfaces'] = [placed(dict(id='root_%d' % i, parent_part='world', child_part=r['b'], joint=dict(type='Fixed')), r['pose'])
                           for i, r in enumerate(op['roots'])] + g['interfaces']
        where = os.path.join(s['base'], 'x', 'graph.json', 'graph.json')
        with open(where, 'w') as fp:
            json.dump(g, fp)
        y = os.path.join(s['base'], *(['x', 'graph.json'], ['x'], [])[len(op['groups']) % 3], 'bolts_per_part.yaml')
        if op['groups']:
            t = {}
            for i, q in enumerate(op['groups']):
                e = dict(mates_to=dict(part=q['mate']), bolt_circle_ref=q['ref'] + '_bolt_circle', orientation=q['kind'].upper() if i % 2 else q['kind'],
                         head_axial_offset_mm=q['hax'], head_radial_offset_mm=q['hrad'], shank_length_mm=q['shank'])
                t.setdefault(q['owner'], {})['g%d' % i] = {x: v for x, v in e.items() if v not in ('', 0)}
            with open(y, 'w') as fp:
                json.dump(dict(bolts_per_part=t), fp)
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            r = F.prepare(where, op['lc'] or None, interface_origins_mm={'iface_' + e['n']: tuple(float(c) for c in e['o']) for e in op['at']})
            w = F.solve_world_transforms(F.load_graph(where))
        finally:
            sys.stderr = err
            if op['groups']:
                os.remove(y)
        bolts = []
        for b in r.bolts:
            k = b.k_axial_N_per_m * 0.012 / 200e9 / (math.pi / 4) * 1e6 * 1e4
            o = next((e['o'] for e in op['at'] if 'iface_' + e['n'] == b.interface_id), [0, 0, 0])
            pos = lambda p: self.pos(p, o)
            bolts.append(dict(f=int(b.interface_id.rsplit('_', 1)[1]), a=b.parent_part, b=b.child_part, spec=b.bolt_spec, pcd=whole(b.pcd_mm),
                              d2=whole(k) if abs(b.k_shear_N_per_m - .4 * b.k_axial_N_per_m) < 1e-6 * b.k_axial_N_per_m else 'shear', i=b.bolt_index,
                              head=pos(b.parent_world_mm), tip=pos(b.child_world_mm), ax=unit(b.axis_unit) if abs(np.linalg.norm(b.axis_unit) - 1) < 1e-6 else 'length',
                              clk=whole(b.clock_deg)))
        l = r.load_attach
        num = lambda x: -1 if x is None else whole(x)
        rot = lambda q, v: [whole(c) for c in F._qrot(q, v)]
        at = [dict(n=n, o=vec(t), x=self.turned(q, [1, 0, 0]), z=self.turned(q, [0, 0, 1])) for n, (t, q) in w.items()]
        return dict(res='ok', bolts=bolts, at=at,
                    load=dict(id='') if l is None else dict(id=l.load_case_id, part=l.part, iface=l.interface_id or '', pos=vec(l.position_mm), dir=vec(l.direction_unit),
                                                            n=whole(l.magnitude_n), frame=l.coordinate_frame, bolt=num(l.bolt_index), clock=num(l.clock_deg)))

    @staticmethod
    def turned(q, v):
        u, w = np.array(q[:3]), q[3]
        x = np.array(v, dtype=float)
        t = 2 * np.cross(u, x)
        return [whole(c) for c in x + w * t + np.cross(u, t)]

    @staticmethod
    def pos(p, o):
        y = [c * 2100 for c in p]
        if all(abs(c - round(c)) < 1e-4 for c in y):
            return [round(c) for c in y]
        d = math.hypot(p[0] - o[0], p[1] - o[1]) * 2
        return [whole(d), whole(math.degrees(math.atan2(p[1] - o[1], p[0] - o[0])) % 360), whole(p[2], 2100), 0]


MT = ['coincident', 'concentric', 'parallel', 'tangent', 'angle', 'rigid', 'revolute', 'prismatic', 'spherical', 'distance', 'perpendicular', 'planar', 'gear']
MATS = ['petg', 'PETG', 'unobtainium', '', 'PLA', 'pla', 'PETG-CF', 'petg_cf', 'tpu', 'Abs', 'asa', 'PC', 'pa-cf', 'PA_CF', 'nylon', 'Aluminum', 'steel',
        'stainless', 'Brass', 'titanium']
SPECS = ['1-4-20-x-1in-button-head-shcs', '1-4-20-x-1-25in-button-head-shcs', '1-4-20-button-head-shcs', 'm5-x-16-shcs', 'm5-x-20-shcs', 'm6-x-20-shcs',
         'm6-x-20-shcs', 'weird', 'PLACEHOLDER-m5']


def gdefs(rng):
    out = []
    for i in range(rng.randint(2, 3)):
        ds = []

        def d(n, ty, o=None, v=None):
            ds.append(dict(n=n, ty=ty, o=o or [rng.randint(-6, 6) for _ in range(3)], v=list(v or rng.choice(VECS[:6] + VECS)) if ty not in ('point',) else [0, 0, 0],
                           w=[0, 0, 0], r=rng.randint(1, 9) if ty == 'circle' else 0))
        d('f', 'plane')
        d('x', 'axis')
        if rng.random() < .5:
            d('c', 'circle')
        if rng.random() < .4:
            d('p', 'point')
        if rng.random() < .3:
            R = rng.choice(ROTS)
            ds.append(dict(n='fr', ty='frame', o=[1, 2, 3], v=[r[0] for r in R], w=[r[1] for r in R], r=0))
        for pre in ('top', 'bot'):
            z = rng.randint(2, 9) * (1 if pre == 'top' else -1) if rng.random() < .8 else rng.randint(-9, 9)
            if rng.random() < .75:
                d(pre + '_bolt_circle', 'circle', [0, 0, z], [0, 0, 1])
            if rng.random() < .7:
                rad = rng.randint(0, 3)     # radial, axial, mixed or slanted holes
                idx = rng.sample(range(6), rng.randint(1, 6))
                for j in idx:
                    u = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)][j]
                    r = rng.randint(2, 6)
                    way = rad if rad < 2 else rng.randint(0, 1)
                    axial = way == 1 or u[0] * u[1]
                    v = [0, 0, rng.choice([1, -1]) * rng.randint(1, 3)] if axial else [-u[0] * 2, -u[1] * 2, 0]
                    if rad == 3:
                        v = list(rng.choice([w for w in VECS if w[2]]))
                    if rng.random() < .07:
                        d('%s_bolt_hole_%d' % (pre, j), 'point', [u[0] * r, u[1] * r, z])
                    else:
                        d('%s_bolt_hole_%d' % (pre, j), 'axis', [u[0] * r, u[1] * r, z], v)
        rng.shuffle(ds)
        gs = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            ty = rng.choice(['box', 'cylinder', 'sphere', 'capsule', 'mesh', 'cone'])
            gs.append(dict(ty=ty, r=rng.randint(1, 90), h=rng.randint(1, 200), sz=[rng.randint(1, 99) for _ in range(3)] if ty == 'box' else [0, 0, 0],
                           pos=[rng.randint(-50, 50) for _ in range(3)] if rng.random() < .5 else [], mm=ty == 'box' or rng.random() < .6))
        out.append(dict(n='D%d' % i, mat=rng.choice(MATS), proc=rng.choice(['', '', 'CNC', 'WAAM']), ds=ds, gs=gs))
    return out


def graf_ops(rng, init, n):
    parts, mates, loads, pairs = {}, [], [], []
    pool = ['a', 'b', 'c', 'D0', 'D1', 'e']
    defs = {d['n']: d for d in init['defs']}
    ty = {d['n']: {x['n']: x['ty'] for x in d['ds']} for d in init['defs']}
    pose = lambda: dict(R=rng.choice(ROTS) if rng.random() < .7 else [[1, 0, 0], [0, 1, 0], [0, 0, 1]], t=[rng.randint(-9, 9) for _ in range(3)])
    i = 0
    while i < n:
        i += 1
        r = rng.random()
        anyp = lambda: rng.choice(list(parts) + (['zz'] if rng.random() < .05 else []))
        if len(parts) < 2 or r < .12:
            nm, df = rng.choice(pool), rng.choice(list(defs))
            o = yield dict(k='part', n=nm, **{'def': df})
            if o['res'] == 'ok':
                parts[nm] = df
        elif r < .45:
            p1, p2 = rng.choice(pairs)[::rng.choice([1, 1, 1, -1])] if pairs and rng.random() < .5 else (anyp(), anyp())
            t = rng.choice(MT)
            pick = lambda p: rng.choice(list(ty[parts[p]])) if p in parts and rng.random() < .6 else rng.choice(['f', 'x', 'nope'] if rng.random() < .1 else ['f', 'x'])
            d1, d2 = pick(p1), pick(p2)
            if t in ('rigid', 'revolute', 'prismatic', 'spherical') and p1 in parts and ty[parts[p1]].get(d1) in ('plane', 'circle') and rng.random() < .9:
                d1 = 'x'
            o = yield dict(k='mate', n='m%d' % i, ty=t, p1=p1, d1=d1, p2=p2, d2=d2, ang=rng.choice([0, 30, 45, 90, 120, 180, -60]) if t == 'angle' else 0)
            if o['res'] == 'ok':
                pairs.append((p1, p2))
        elif r < .6:
            p1, p2 = rng.choice(pairs) if pairs and rng.random() < .85 else (anyp(), anyp())
            yield dict(k='bolts', a=p1, b=p2, pcd=rng.randint(0, 40) if rng.random() < .1 else rng.randint(2, 40), nb=rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12] + ([0] if rng.random() < .2 else [])),
                       spec=rng.choice(SPECS), ax=list(rng.choice(VECS)) + ([0] if rng.random() < .04 else []), wz=rng.choice([-999, -999, 0, 5, -7]))
        elif r < .7:
            lc = dict(id=rng.choice(['L1', 'L2', 'L3']), part=rng.choice([anyp(), '_assembly']), group=rng.choice(['inertial', 'recovery', 'pressure', 'handling', 'custom'] * 4 + ['other']),
                      frame=rng.choice(['vehicle', 'mesh'] * 6 + ['body']), status=rng.choice(['confirmed', 'estimated', 'tribal', 'placeholder'] * 4 + ['final']),
                      n=rng.choice([-1, 0, 5, 900]), g=rng.choice([-1, 3]), dir=[0, 0, rng.choice([1, -1])] if rng.random() < .9 else [0, 1],
                      pos=[rng.randint(-99, 99) for _ in range(3)], iface=rng.choice(['', 'iface_0']), clock=rng.choice([-1, 0, 90]), bolt=rng.choice([-1, 0, 3]),
                      warn=rng.random() < .4, name=rng.choice(['n', 'load 1']), desc=rng.choice(['', 'd']), src=rng.choice(['', 'file', 'file']))
            o = yield dict(k='load', lc=lc)
            if o['res'] == 'ok':
                loads.append(lc['id'])
        elif r < .8:
            yield dict(k='export', how=rng.choice(['dict', 'json']))
        elif r < .82:
            yield rng.choice([dict(k='broken', how='gone', e='exc:FileNotFoundError'), dict(k='broken', how='nofaces', e='exc:ValueError'),
                              dict(k='turn', v=[rng.randint(-9, 9) for _ in range(3)])])
        else:
            roots = [dict(b=p, pose=pose()) for p in rng.sample(list(parts), min(len(parts), rng.choice([1, 1, 1, 2, 2, 0])))]
            if pairs and roots and rng.random() < .6:
                roots[0]['b'] = pairs[0][0]
            prs = list(dict.fromkeys(pairs))
            gs = []
            for p, q in rng.sample(prs, min(len(prs), rng.choice([0, 0, 1, 2, 3]))):
                if rng.random() < .4:
                    p, q = q, p
                gs.append(dict(owner=p, mate=q, ref=rng.choice(['top', 'bot']), kind=rng.choice(['radial', 'axial', '']), hax=rng.choice([0, 3, -2]), hrad=rng.choice([0, 4]),
                               shank=rng.choice([0, 12, 25])))
            yield dict(k='fea', roots=roots, poses=[pose() for _ in range(rng.randint(1, 4))], groups=gs,
                       at=[dict(n=str(j), o=[rng.randint(-9, 9) for _ in range(3)]) for j in rng.sample(range(4), rng.choice([0, 0, 1, 2]))],
                       lc=rng.choice(['', rng.choice(loads) if loads else '', 'L9' if rng.random() < .2 else '']))
    yield dict(k='export', how='json')


def graf_check(ctx):
    ctx.model_check('GrafMC', ['InvGood', 'InvFaces', 'InvRigid', 'InvAlong', 'InvCount'], consts=dict(Depth=ctx.n(4, 5)), workers=7)
    a = Graf(ctx.scratch)
    a.replay(ctx, ctx.generate('GrafMC', consts=dict(Depth=9), simulate=ctx.n(150, 1500), depth=9), 'generated')
    tr = []
    for i in range(ctx.n(260, 3000)):
        init = dict(defs=gdefs(ctx.rng))
        tr.append(a.record('g%d' % i, init, graf_ops(ctx.rng, init, ctx.rng.randint(10, 40))))
    ctx.report_bads(ctx.validate('GrafTrace', tr, workers=6), tr, 'graph history')
    ctx.assumptions += ['datum directions of integral length, placements of the rotation group of the cube, whole millimetres',
                        'an interface whose joint itself refers to a face may or may not give the insertion direction',
                        'positions of geometry entries without a unit suffix next to entries with one, and box sizes without one, are not judged']
