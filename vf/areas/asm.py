"""Assembly: binds Asm.tla to yapcad.assembly."""
import json, math, os, re
import numpy as np
from ..core import Area, norm, exc
from .kin import ri

VECS = []
for base in [(0, 0, 1), (0, 3, 4), (1, 2, 2), (2, 3, 6)]:
    import itertools
    for p in sorted(set(itertools.permutations(base))):
        for sg in itertools.product((1, -1), repeat=3):
            v = tuple(a * b for a, b in zip(p, sg))
            if v not in VECS:
                VECS.append(v)
ROTS = []


def _rots():
    for p in itertools.permutations(range(3)):
        for sg in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3), dtype=int)
            for i in range(3):
                m[i, p[i]] = sg[i]
            if round(np.linalg.det(m)) == 1:
                ROTS.append(m.tolist())


_rots()


def scaled(v, k=105, tol=2e-4):
    out = []
    for x in v[:3]:
        r = round(float(x) * k)
        out.append(int(r) if abs(float(x) * k - r) < tol * k else 'off:%.5f' % (float(x) * k))
    return out


def mat(p):
    m = np.eye(4)
    m[:3, :3] = np.array(p['R'], dtype=float)
    m[:3, 3] = p['t']
    return m


def mkdatum(d):
    from yapcad.assembly.datum import Datum, DatumType
    kw = dict(name=d['n'], datum_type=DatumType(d['ty']), origin=[float(x) for x in d['o']] + [1.0])
    v = [float(x) for x in d['v']] + [0.0]
    if d['ty'] == 'axis':
        kw['direction'] = v
    if d['ty'] in ('plane', 'circle'):
        kw['normal'] = v
    if d['ty'] == 'circle':
        kw['radius'] = float(d['r'])
    if d['ty'] == 'frame':
        kw['x_axis'] = v
        kw['y_axis'] = [float(x) for x in d['w']] + [0.0]
    return Datum(**kw)


def datumobs(x):
    v = x.direction or x.normal or x.x_axis or [0, 0, 0]
    return dict(ty=x.datum_type.value, o=[ri(c) for c in x.origin[:3]], v=scaled(v), w=scaled(x.y_axis or [0, 0, 0]),
                r=ri(x.radius or 0))


class Asm(Area):
    def __init__(self, scratch):
        self.scratch = scratch

    def new(self, init):
        from yapcad.assembly.assembly import Assembly
        from yapcad.assembly.datum import PartDefinition
        defs = {}
        for d in init['defs']:
            p = PartDefinition(d['n'])
            for x in d['ds']:
                p.add_datum(mkdatum(x))
            defs[d['n']] = p
        return dict(a=Assembly('asm'), defs=defs, names=[], cons=[], snap=None)

    def snapshot(self, s):
        a = s['a']
        return json.dumps([[(n, p.name, a.transforms[n].tolist(), [repr(d) for d in p.datums.values()]) for n, p in a.parts.items()],
                           [repr(m) for m in a.mates], [c.name for c in a.constraints], sorted(a.load_cases),
                           sorted(map(str, a.bolt_patterns))])

    def apply(self, s, op):
        from yapcad.assembly.assembly import AssemblyError
        before = self.snapshot(s)
        try:
            r = self._apply(s, op)
        except AssemblyError as e:
            r = dict(res='AssemblyError')
            if op['k'] == 'demand':
                r['failed'] = [c for c in s['cons'] if re.search(r'\b%s\b' % c, str(e))]
        except Exception as e:
            r = dict(res=exc(e), msg=str(e)[:120])
        if (r['res'] != 'ok' or op['k'] in ('datum', 'validate', 'demand', 'report', 'dof', 'getbolts')) and self.snapshot(s) != before:
            r['changed'] = True
        return r

    def _apply(self, s, op):
        from yapcad.assembly.mate import Mate, MateType
        from yapcad.assembly.constraint import Constraint, ConstraintType
        from yapcad.assembly.load_case import LoadCase, LoadAttach, BoltPattern
        a, k = s['a'], op['k']
        if k == 'part':
            T = mat(op['pose'])
            d = s['defs'][op['def']]
            if op['n'] == d.name and op['byname']:
                a.add_part(d, transform=T)
            else:
                a.add_part(d, name=op['n'], transform=T)
            T[:] = 7          # the assembly must not share the caller's matrix
            s['names'].append(op['n'])
            return dict(res='ok')
        if k == 'move':
            a.transforms[op['n']] = mat(op['pose'])
            return dict(res='ok')
        if k == 'mate':
            a.add_mate(Mate(op['n'], MateType(op['ty']), op['p1'], op['d1'], op['p2'], op['d2']))
            return dict(res='ok')
        if k == 'con':
            c = op['c']

            def val(d, how=c['val']):
                if how == 'raise':
                    raise RuntimeError('no')
                return d.origin[2] > 0 if how == 'above' else d.origin[0] ** 2 > 25
            a.add_constraint(Constraint(
                c['n'], ConstraintType(c['ty']), c['part'], c['datum'], center=tuple(c['ctr']) if c['hasctr'] else None,
                radius=float(c['rad']) if c['hasrad'] else None, direction=c['dir'] or None,
                axis=tuple(c['axis']) if any(c['axis']) else None, validator=None if c['val'] == 'none' else val,
                tolerance_deg=float(c['tol']), tolerance_mm=c['mm'] / 10, severity=c['sev']))
            s['cons'].append(c['n'])
            return dict(res='ok')
        if k == 'datum':
            return dict(res='ok', **datumobs(a.get_transformed_datum(op['p'], op['d'])))
        if k == 'validate':
            v = a.validate()
            return dict(res='ok', v=dict(valid=bool(v.is_valid), each=[dict(n=n, p=bool(r.passed)) for n, r in v.constraint_results.items()],
                                         failed=list(v.failed_constraints), warned=[w.split(':')[0] for w in v.warnings]))
        if k == 'demand':
            a.validate_and_raise()
            return dict(res='ok')
        if k == 'report':
            t = a.report()
            sec = lambda h, n: re.findall(r'  - (\S+) \((\w+)\)', t.split(h, 1)[1].split('\n\n')[0]) if h in t else ['no section']
            st = re.search(r'STATUS: (\w+)', t)
            return dict(res='ok', parts=[dict(n=x, ty=y) for x, y in sec('Parts:', 0)], mates=[dict(n=x, ty=y) for x, y in sec('Mates:', 0)],
                        cons=[dict(n=x, ty=y) for x, y in sec('Constraints:', 0)], status=st.group(1) if st else 'none',
                        failed=re.findall(r'FAILED: (\S+) -', t), warned=re.findall(r'    - (\w+):', t))
        if k == 'dof':
            return dict(res='ok', dof=[dict(n=n, d=d) for n, d in a.get_degrees_of_freedom().items()])
        if k == 'load':
            a.add_load_case(LoadCase(id=op['id'], name='l', group='custom', direction=[0, 0, 1], attach=LoadAttach(part=op['part']), magnitude_n=1.0))
            return dict(res='ok')
        if k == 'bolts':
            a.add_bolt_pattern(op['a'], op['b'], BoltPattern(20.0, op['nb'], 'm3', [0, 0, 1]))
            return dict(res='ok')
        if k == 'getbolts':
            b = a.get_bolt_pattern(op['a'], op['b'])
            return dict(res='ok', nb=b.n_bolts if b else 0)
        if k == 'import':
            f = os.path.join(self.scratch, 'chain.json')
            doc = {'parts': {}}
            if any(e['form'] == 'chain' for e in op['es']):
                from yapcad.kinematics import KinematicChain, KinematicPart, Joint, JointType, Transform
                ch = KinematicChain('c')
                for i, e in enumerate(op['es']):
                    ch.add_part(KinematicPart(name=e['n'], parent=None, parent_frame='ORIGIN',
                                              joint=Joint('j%d' % i, JointType('fixed'), base_transform=Transform.from_matrix(mat(e['pose'])))))
                ch.export_json(f)
                doc = json.load(open(f))
            for e in op['es']:
                m = mat(e['pose'])
                p = dict(flat=dict(transform=m.flatten().tolist()), rows=dict(transform=m.tolist()), missing={'x': 1},
                         dict=dict(transform={'a': 1}), short=dict(transform=[1, 2, 3])).get(e['form'])
                if p is not None:
                    doc['parts'][e['n']] = p
            if op['file'] == 'noparts':
                doc = {'links': doc['parts']}
            with open(f, 'w') as fp:
                fp.write('{"parts": ' if op['file'] == 'broken' else json.dumps(doc))
            if op['file'] == 'gone':
                os.remove(f)
            a.import_transforms_from_kinematic_chain(f)
            return dict(res='ok')
        raise ValueError(k)


TOLS = [1, 35, 50, 60, 100]
CT = ['facing', 'parallel_to', 'perpendicular_to', 'at_radius', 'tangent_to_circle', 'radial_from_center']
MT = ['coincident', 'concentric', 'parallel', 'perpendicular', 'tangent', 'distance', 'angle', 'rigid', 'revolute', 'prismatic',
      'cylindrical', 'spherical', 'planar', 'pin_slot', 'universal', 'screw', 'gear', 'rack_pinion', 'cam', 'slot']


def pose(rng, simple=False):
    return dict(R=ROTS[0] if False else rng.choice(ROTS), t=[rng.randint(-6, 6) for _ in range(3)])


def gendatum(rng, n, ty=None):
    ty = ty or rng.choice(['point', 'axis', 'plane', 'circle', 'frame', 'axis', 'plane'])
    v = list(rng.choice(VECS[:6] + VECS))
    w = [0, 0, 0]
    if ty == 'point':
        v = [0, 0, 0]
    if ty == 'frame':
        R = rng.choice(ROTS)
        v, w = [r[0] for r in R], [2 * r[1] for r in R]
    return dict(n=n, ty=ty, o=[rng.randint(-6, 6) for _ in range(3)], v=v, w=w, r=rng.randint(1, 9) if ty == 'circle' else 0)


def gendefs(rng):
    return [dict(n='D%d' % i, ds=[gendatum(rng, 'd%d' % j) for j in range(rng.randint(1, 5))]) for i in range(rng.randint(2, 3))]


def gencon(rng, n, part, datum, at=None):
    ty = rng.choice(CT * 4 + ['custom', 'custom', 'on_circle', 'in_plane', 'min_distance', 'no_interference'])
    d = {'facing': ['+x', '-x', '+y', '-y', '+z', '-z', '+Z', 'up', ''], 'radial_from_center': ['inward', 'outward'] * 4 + ['', 'up']}.get(ty, [''])
    dd = rng.choice(d)
    if dd == '+Z':
        dd = '+z'
    ctr = [rng.randint(-6, 6) for _ in range(3)]
    rad = rng.randint(1, 15)
    if at and rng.random() < .5:      # a radius that the datum really has, or is 5.3 / 0.1 off
        dx, dy = rng.choice([(3, 4), (-4, 3), (0, 5), (6, 8), (-5, 0), (2, 0), (0, 0)])
        ctr = [at[0] - dx, at[1] - dy, rng.randint(-6, 6)]
        rad = max(1, round(math.hypot(dx, dy)) + rng.choice([0, 0, 5, -5, 1, 6]))
    return dict(n=n, ty=ty, part=part, datum=datum, ctr=ctr, rad=rad, hasctr=rng.random() > .06, hasrad=rng.random() > .06, dir=dd,
                axis=list(rng.choice(VECS)) if rng.random() > .06 else [0, 0, 0], val=rng.choice(['above', 'far', 'raise', 'none']),
                tol=rng.choice(TOLS), mm=rng.choice([1, 53, 50]), sev=rng.choice(['error'] * 3 + ['warning', 'info']))


def asm_ops(rng, init, n, focus):
    parts = {}
    pool = ['a', 'b', 'c', 'D0', 'D1', 'd']
    defs = {d['n']: d for d in init['defs']}
    nc = nm = 0
    obs = None
    lastd = None
    for i in range(n):
        r = rng.random()
        anyp = lambda: rng.choice(list(parts) + (['zz'] if rng.random() < .08 or not parts else []))
        anyd = lambda p: rng.choice([x['n'] for x in defs[parts[p]]['ds']] if p in parts and rng.random() > .06 else ['d0', 'd9'])
        if len(parts) < 2 or r < .12:
            nme, df = rng.choice(pool), rng.choice(list(defs))
            obs = yield dict(k='part', n=nme, **{'def': df}, pose=pose(rng), byname=rng.random() < .5)
            if obs['res'] == 'ok':
                parts[nme] = df
        elif r < .22 and parts:
            yield dict(k='move', n=rng.choice(list(parts)), pose=pose(rng))
        elif r < (.34 if focus == 'con' else .44):
            p1, p2 = anyp(), anyp()
            nm += 1
            yield dict(k='mate', n='m%d' % nm, ty=rng.choice(MT[:6] * 2 + MT), p1=p1, d1=anyd(p1), p2=p2, d2=anyd(p2))
        elif r < (.62 if focus == 'con' else .54):
            p = anyp()
            d = anyd(p)
            at = None
            if p in parts and d != 'd9':
                o = yield dict(k='datum', p=p, d=d)
                at = o.get('o') if o['res'] == 'ok' and all(isinstance(x, int) for x in o['o']) else None
            nc += 1
            yield dict(k='con', c=gencon(rng, 'c%02d' % nc, p, d, at))
        elif r < .70:
            yield dict(k='validate')
        elif r < .74:
            yield dict(k=rng.choice(['demand', 'report', 'dof']))
        elif r < .80:
            p = anyp()
            yield dict(k='datum', p=p, d=anyd(p))
        elif r < .86:
            yield dict(k='load', id=rng.choice(['L1', 'L2', 'L3', 'L4']), part=rng.choice([anyp(), '_assembly']))
        elif r < .92:
            k = rng.choice(['bolts', 'getbolts'])
            o = dict(k=k, a=anyp(), b=anyp())
            yield dict(o, nb=rng.randint(1, 9)) if k == 'bolts' else o
        else:
            ns = rng.sample(list(parts) + ['ghost'], rng.randint(1, len(parts) + 1))
            ch = rng.random() < .3
            yield dict(k='import', file=rng.choice(['ok'] * 8 + ['gone', 'broken', 'noparts']),
                       es=[dict(n=x, form='chain' if ch else rng.choice(['flat', 'rows'] * 5 + ['missing', 'dict', 'short']), pose=pose(rng)) for x in ns])
    for k in ('validate', 'demand', 'report', 'dof'):
        yield dict(k=k)


def asm_check(ctx):
    ctx.model_check('AsmMC', ['InvGood', 'InvRefused', 'InvVerdict', 'InvFrame', 'InvDof'], consts=dict(Depth=ctx.n(4, 5)), workers=6)
    a = Asm(ctx.scratch)
    tr = []
    for i in range(ctx.n(220, 3000)):
        init = dict(defs=gendefs(ctx.rng))
        tr.append(a.record('r%d' % i, init, asm_ops(ctx.rng, init, ctx.rng.randint(10, 45), ctx.rng.choice(['con', 'mate']))))
    ctx.report_bads(ctx.validate('AsmTrace', tr, workers=6), tr, 'assembly history')
    ctx.assumptions += ['constraint names are unique within an assembly',
                        'datum directions of integral length and poses of the rotation group of the cube; tolerances 1, 35, 50, 60, 100 degrees, 0.1, 5, 5.3 mm']
