"""Kinematic constraints: binds Kint.tla to yapcad.assembly.kinematic_integration."""
import logging, math, os
import numpy as np
from ..core import Area, exc
from .asm import ROTS, mat

KINDS = ['coincident', 'at_distance', 'concentric', 'parallel', 'perpendicular', 'tangent', 'bolts', 'min_distance', 'z_stack', 'no_overlap', 'custom']
NAMES = ['A', 'B', 'C', 'A.F', 'B.F', 'A.TOP', 'B.G', 'F', 'G']
DEGS = [1, 2, 20, 31, 46, 61, 85]
FACES = ['TOP', 'top', 'Top', 'BOTTOM', 'bottom', 'FRONT', 'front', 'BACK', 'back', 'LEFT', 'left', 'RIGHT', 'right', 'F', 'G', 'Q']
LETTERS = ['x', 'y', 'z', '-x', '-y', '-z', 'X', 'Y', 'Z', '-Z', 'w']


def q(x):
    r = round(float(x))
    return int(r) if abs(float(x) - r) <= 1e-6 * max(1.0, abs(r)) else 'off:%.6f' % float(x)


def fl(v):
    return tuple(float(x) for x in v)


def box(b):
    return (fl(b[0]), fl(b[1])) if b else None


class Kint(Area):
    def __init__(self, scratch):
        logging.getLogger('yapcad').setLevel(logging.CRITICAL + 1)
        self.scratch = scratch
        self.files = {}

    def new(self, init):
        from yapcad.assembly.kinematic_integration import AssemblyValidator
        return dict(world={}, given={}, vs=[AssemblyValidator('one'), AssemblyValidator()], cs=[[], []])

    def stl(self, b):
        key = str(b)
        if key not in self.files:
            import trimesh
            m = trimesh.creation.box(bounds=[fl(b[0]), fl(b[1])])
            f = os.path.join(self.scratch, 'box%d.stl' % len(self.files))
            m.export(f)
            self.files[key] = f
        return self.files[key]

    def validator(self, c):
        from yapcad.assembly.kinematic_integration import ConstraintEvaluationResult as R
        if c['val'] == 'none':
            return None
        if c['val'] == 'raises':
            def boom(ws):
                raise KeyError('nothing there')
            return boom
        return lambda ws: R(satisfied=len(ws) >= c['pc'], error=0.0 if len(ws) >= c['pc'] else 1.5, error_message='count', details={'n': len(ws)})

    def make(self, c):
        from yapcad.assembly import kinematic_integration as K
        T = K.KinematicConstraintType
        ty = dict(bolts=T.BOLT_PATTERN, z_stack=T.Z_STACK_CLEARANCE).get(c['k']) or T(c['k'])
        ax = lambda x: fl(x['v']) if x['v'] else x['s']
        kw = {}
        if c['tm'] >= 0:
            kw['tolerance_mm'] = c['tm'] / 10
        if c['td'] >= 0:
            kw['tolerance_deg'] = float(c['td'])
        if c['mesh'] and c['ba'] and c['bb']:
            bs = dict(stl_path_a=self.stl(c['ba']), stl_path_b=self.stl(c['bb']))
        else:
            bs = dict(bounds_a=box(c['ba']), bounds_b=box(c['bb']))
        n, a, b = c['n'], c['a'], c['b'] or None
        if c['how'] == 'help':
            k, rc = c['k'], fl(c['rc']) if c['rc'] else None
            if c['xa']['v'] or c['xa']['s']:
                kw['axis' if k == 'tangent' else 'axis_a'] = ax(c['xa'])
            if c['xb']['v'] or c['xb']['s']:
                kw['axis_b'] = ax(c['xb'])
            if k == 'tangent':
                return K.create_tangent_constraint(n, a, rc, **kw)
            if k == 'parallel':
                return K.create_parallel_constraint(n, a, frame_b=b, reference_axis=fl(c['rx']) if c['rx'] else None, **kw)
            if k == 'z_stack':
                return K.create_z_stack_clearance_constraint(n, a, b, bs['bounds_a'], bs['bounds_b'], **(dict(min_clearance=float(c['rr'][0])) if c['rr'] else {}))
            if k == 'no_overlap':
                if c['mesh'] and 'stl_path_a' in bs and sum(map(ord, n)) % 2:
                    return K.create_mesh_collision_constraint(n, a, b, bs['stl_path_a'], bs['stl_path_b'])
                return K.create_no_overlap_constraint(n, a, b, **bs)
            if k == 'min_distance':
                return K.create_min_distance_constraint(n, a, b, float(c['rr'][0]), **bs)
            if k == 'at_distance':
                return K.create_face_distance_constraint(n, a, c['fa'], b, c['fb'], **(dict(expected_distance=float(c['rr'][0])) if c['rr'] else {}), **kw, **bs)
            if k == 'coincident' and c['fa']:
                return K.create_face_coincident_constraint(n, a, c['fa'], b, c['fb'], **kw, **bs)
            return K.create_coincident_constraint(n, a, frame_b=b, reference_point=rc, **kw)
        if c['xa']['v'] or c['xa']['s']:
            kw['axis_a'] = ax(c['xa'])
        if c['xb']['v'] or c['xb']['s']:
            kw['axis_b'] = ax(c['xb'])
        return K.KinematicConstraint(n, ty, a, b, face_a=c['fa'] or None, face_b=c['fb'] or None,
                                     reference_center=fl(c['rc']) if c['rc'] else None, reference_radius=float(c['rr'][0]) if c['rr'] else None,
                                     reference_axis=fl(c['rx']) if c['rx'] else None, reference_normal=fl(c['rn']) if c['rn'] else None,
                                     pattern_count=c['pc'], pattern_radius=float(c['pr']), severity=c['sev'], validator=self.validator(c) if c['k'] == 'custom' else None, **kw, **bs)

    def numbers(self, c, r):
        """the exact squares behind the reported errors, from the reported errors"""
        d = r.details
        if c['k'] == 'custom':
            return [d['n']] if d else []
        if not d:
            return []
        n2 = lambda v: sum(x * x for x in v)
        ua = lambda: n2(c['xa']['v']) if c['xa']['v'] else 1
        ub = lambda r: n2(c['xb']['v']) if c['b'] and c['xb']['v'] else 1 if c['b'] else n2(r)
        cos2 = lambda deg: math.cos(math.radians(deg)) ** 2
        sin2 = lambda deg: math.sin(math.radians(deg)) ** 2
        k, e = c['k'], float(r.error)
        if k == 'coincident':
            v = r.error_vector or (0, 0, 0)
            return [q(e * e)] + [q(x) for x in v]
        if k == 'at_distance':
            D = d['actual_distance']
            want = c['rr'][0] if c['rr'] else 0
            return [q(D * D)] if abs(abs(D - want) - e) < 1e-9 and abs(d['error'] - e) < 1e-9 else ['error %.6f of %.6f' % (e, D)]
        if k in ('concentric', 'bolts'):
            p = d['perpendicular_distance' if k == 'concentric' else 'center_distance']
            if abs(max(d['angle_error_deg'], p) - e) > 1e-9:
                return ['error %.6f' % e]
            return [q(cos2(d['angle_error_deg']) * ua() * ub(c['rx'] if k == 'concentric' else c['rn'])), q(p * p * (ua() if k == 'concentric' else 1))]
        if k == 'parallel':
            return [q(cos2(e) * ua() * ub(c['rx']))]
        if k == 'perpendicular':
            return [q(sin2(e) * ua() * ub(c['rx']))]
        if k == 'tangent':
            if 'radial_direction' not in d:
                return [q(e)]
            o, m, x = (np.array(d[f], dtype=float) for f in ('origin', 'center', 'axis'))
            return [q(sin2(e) * float(np.dot((o - m)[:2], (o - m)[:2])) * float(np.dot(x[:2], x[:2])) * ua())]
        if k == 'min_distance':
            D = d['actual_distance']
            return [q(D * abs(D))] if abs(max(0.0, c['rr'][0] - D) - e) < 1e-9 else ['error %.6f of %.6f' % (e, D)]
        if k == 'z_stack':
            return [q(d['z_overlap'])] + ([q(e)] if d['z_overlap'] <= 0 else [] if e > 0 else ['error %.6f' % e])
        if k == 'no_overlap':
            return [] if c['mesh'] and not r.satisfied else [q(e)]

    def kept(self, s):
        for n, (x, want) in s['given'].items():
            m = x.matrix if hasattr(x, 'matrix') else x
            if s['world'].get(n) is not x or not np.array_equal(np.array(m, dtype=float), want):
                return False
        return set(s['world']) == set(s['given'])

    def told(self, s, c, r):
        if not (str(r).startswith('[PASS]') if r.satisfied else str(r).startswith('[FAIL]')):
            return dict(res='printed as ' + str(r)[:40])
        return dict(res='ok', sat=bool(r.satisfied), e=self.numbers(c, r), kept=self.kept(s))

    def report(self, s, cs, r):
        head = lambda ms: [m.split(':')[0] for m in ms]
        text = r.detailed_report().split('\n')
        ok = [l.split('] ')[1] for l in text if l.startswith('  [OK] ')]
        bad = [l.strip()[1:-1] for l in text if l.startswith('  [') and not l.startswith('  [OK] ')]
        warn = [l[4:].split(':')[0] for l in text if l.startswith('  - ')]
        failed = list(r.failed_constraints)
        if bad != failed or warn != head(r.warnings) or ('STATUS: VALID' in text) != r.is_valid or ('STATUS: INVALID' in text) == r.is_valid:
            return 'report text'
        if not str(r).startswith('ValidationReport: %s (%d/%d passed, %d failed, %d warnings' % ('VALID' if r.is_valid else 'INVALID', r.passed_count, r.total_constraints, r.failed_count, r.warning_count)):
            return 'summary text'
        return dict(valid=bool(r.is_valid), counts=[r.total_constraints, r.passed_count, r.failed_count, r.warning_count], failed=failed, warned=head(r.warnings),
                    told=head(r.info), good=ok, each=[dict(n=n, sat=bool(x.satisfied)) for n, x in r.constraint_results.items()], kept=self.kept(s))

    def apply(self, s, op):
        try:
            return self._apply(s, op)
        except Exception as e:
            return dict(res=exc(e))

    def _apply(self, s, op):
        from yapcad.assembly.kinematic_integration import validate_assembly
        k = op['k']
        if k == 'place':
            m = mat(op['p'])
            if op['as'] == 'list':
                x = m.tolist()
            elif op['as'] == 'transform':
                from yapcad.kinematics.transform import Transform
                x = Transform(m.copy())
            else:
                x = m.copy()
            s['world'].pop(op['n'], None)
            s['world'][op['n']] = x
            s['given'][op['n']] = (x, m)
            return dict(res='ok')
        if k == 'drop':
            s['world'].pop(op['n'], None), s['given'].pop(op['n'], None)
            return dict(res='ok')
        if k == 'add':
            cs = [self.make(c) for c in op['cs']]
            v = s['vs'][op['v'] - 1]
            if len(cs) == 1:
                v.add_constraint(cs[0])
            else:
                v.add_constraints(cs)
                cs.clear()
            s['cs'][op['v'] - 1] += op['cs']
            return dict(res='ok')
        if k == 'clear':
            s['vs'][op['v'] - 1].clear_constraints()
            s['cs'][op['v'] - 1] = []
            return dict(res='ok')
        if k == 'ask':
            c = s['cs'][op['v'] - 1][op['i'] - 1]
            return self.told(s, c, s['vs'][op['v'] - 1].constraints[op['i'] - 1].evaluate(s['world']))
        if k == 'check':
            return dict(res='ok', r=self.report(s, s['cs'][op['v'] - 1], s['vs'][op['v'] - 1].validate(s['world'])))
        if k == 'once':
            return dict(res='ok', r=self.report(s, op['cs'], validate_assembly([self.make(c) for c in op['cs']], s['world'])))
        if k == 'raise':
            try:
                s['vs'][op['v'] - 1].validate_and_raise(s['world'])
                return dict(res='ok')
            except ValueError as e:
                return dict(res='ValueError' if 'STATUS: INVALID' in str(e) else 'ValueError without a report')


NOX = dict(s='', v=[])


def base(n, k, a, b='', **kw):
    c = dict(n=n, k=k, a=a, b=b, fa='', fb='', xa=NOX, xb=NOX, rc=[], rr=[], rx=[], rn=[], pc=0, pr=0, tm=-1, td=-1, ba=[], bb=[], mesh=False, sev='error', val='none', how='raw')
    c.update(kw)
    return c


def vec3(r, m):
    return [r.randint(-m, m) for _ in range(3)]


def axis(r):
    x = r.random()
    if x < .3:
        return NOX
    if x < .65:
        return dict(s=r.choice(LETTERS), v=[])
    return dict(s='', v=vec3(r, 2))


def bounds(r):
    lo = [2 * r.randint(-4, 1) for _ in range(3)]
    return [lo, [x + 2 * r.randint(1, 4) for x in lo]]


def constraint(r, n, k=None):
    k = k or r.choice(KINDS)
    part = lambda: r.choice(['A', 'B', 'C']) if r.random() < .93 else r.choice(['A.F', 'D'])
    a, b = part(), part() if r.random() < .75 else ''
    while b == a and r.random() < .9:
        b = part()
    c = base(n, k, a, b, sev=r.choice(['error', 'error', 'warning', 'info']))
    how = r.random() < .35 and k not in ('concentric', 'perpendicular', 'bolts', 'custom')
    if how:
        c['how'] = 'help'
        if k in ('z_stack', 'no_overlap', 'min_distance', 'at_distance') or (k == 'coincident' and r.random() < .5):
            c['b'] = c['b'] or r.choice(['A', 'B', 'C'])
            if k in ('at_distance', 'coincident'):
                c['fa'], c['fb'] = r.choice(FACES), r.choice(FACES)
        if k == 'tangent':
            c['b'] = ''
    elif k in ('coincident', 'at_distance', 'min_distance') and r.random() < .6:
        c['fa'] = r.choice(FACES) if r.random() < .8 else ''
        c['fb'] = r.choice(FACES) if c['b'] and r.random() < .8 else ''
    elif r.random() < .05:
        c['fa'] = r.choice(FACES)
    if (k in ('z_stack', 'no_overlap') and r.random() < .9) or (k == 'min_distance' and r.random() < .6) or (c['fa'] or c['fb']) and r.random() < .8:
        c['ba'], c['bb'] = bounds(r), bounds(r) if r.random() < .95 else []
    if k in ('coincident', 'at_distance', 'bolts', 'concentric') and r.random() < .7:
        c['tm'] = r.choice([5, 15, 25, 55, 105] if k == 'concentric' else [0, 5, 10, 30, 50, 90])
        if c['how'] == 'help' and k not in ('coincident', 'at_distance'):
            c['tm'] = -1
    if k in ('concentric', 'parallel', 'perpendicular', 'tangent', 'bolts') and r.random() < .7:
        c['td'] = r.choice(DEGS)
    if k in ('concentric', 'parallel', 'perpendicular', 'bolts'):
        c['xa'], c['xb'] = axis(r), axis(r)
    if k == 'tangent':
        c['xa'] = axis(r)
    world = not c['b'] or (r.random() < .2 and not (c['how'] == 'help'))
    if world or k == 'tangent':
        if k != 'parallel' and k != 'perpendicular' and r.random() < .93:
            c['rc'] = vec3(r, 6)
        if k in ('concentric', 'parallel', 'perpendicular') and r.random() < .93:
            c['rx'] = vec3(r, 2) if r.random() < .9 else [0, 0, 0]
        if k == 'bolts' and r.random() < .93:
            c['rn'] = vec3(r, 2)
    if k in ('at_distance', 'min_distance', 'z_stack') and r.random() < .85 or (k == 'min_distance' and c['how'] == 'help'):
        c['rr'] = [r.choice([0, 1, 2, 3, 5, 7, 9, 12])]
        if k == 'min_distance' and r.random() < .1:
            c['rr'] = [-2]
    if k == 'z_stack' and c['how'] == 'help' and not (c['ba'] and c['bb']):
        c['ba'], c['bb'] = bounds(r), bounds(r)
    if k == 'no_overlap' and r.random() < .15 and c['ba'] and c['bb']:
        c['mesh'] = True
    if k == 'bolts':
        c['pc'], c['pr'] = r.choice([0, 1, 2, 3, 6]) if r.random() < .5 else 4, r.choice([0, 5, 5, 5, 20, -3])
    if k == 'custom':
        c['val'], c['pc'] = r.choice(['none', 'raises', 'count', 'count', 'count']), r.randint(1, 6)
    return c


def kint_ops(r, init, n):
    ids = [0]
    live, vs = {}, [[], []]
    same = ROTS[r.randrange(24)]

    def place(nm=None):
        nm = nm or r.choice(NAMES[:3] + NAMES)
        near = r.random() < .25 and live
        t = [x + r.choice([0, 0, 1, -2]) for x in live[r.choice(sorted(live))]] if near else vec3(r, 6)
        t = [max(-8, min(8, x)) for x in t]
        live[nm] = t
        R = r.choice(ROTS) if r.random() < .6 else same
        return dict(k='place', n=nm, p=dict(R=R, t=t), **{'as': r.choice(['array', 'list', 'transform'])})

    def con(k=None):
        ids[0] += 1
        return constraint(r, 'c%d' % ids[0], k)

    for nm in ('A', 'B', 'C'):
        if r.random() < .95:
            yield place(nm)
    k0 = r.choice(KINDS) if r.random() < .5 else None
    for _ in range(n):
        x = r.random()
        v = r.choice([1, 1, 2])
        if x < .2:
            yield place()
        elif x < .23:
            nm = r.choice(NAMES)
            live.pop(nm, None)
            yield dict(k='drop', n=nm)
        elif x < .4 and len(vs[v - 1]) < 9:
            cs = [con(k0 if r.random() < .6 else None) for _ in range(r.choice([1, 1, 2, 3]))]
            vs[v - 1] += cs
            yield dict(k='add', v=v, cs=cs)
        elif x < .42:
            vs[v - 1] = []
            yield dict(k='clear', v=v)
        elif x < .78 and vs[v - 1]:
            yield dict(k='ask', v=v, i=r.randint(1, len(vs[v - 1])))
        elif x < .88:
            yield dict(k='check', v=v)
        elif x < .92:
            yield dict(k='raise', v=v)
        else:
            yield dict(k='once', cs=[con() for _ in range(r.randint(0, 4))])


def kint_check(ctx):
    ctx.model_check('KintMC', ['InvMove', 'InvSwap', 'InvLoose', 'InvTouch', 'InvBoxes', 'InvReport', 'InvGood'], consts=dict(Depth=ctx.n(3, 5)), workers=7)
    a = Kint(ctx.scratch)
    a.replay(ctx, ctx.generate('KintMC', consts=dict(Depth=12), simulate=ctx.n(250, 3000), depth=12), 'generated')
    tr = []
    for i in range(ctx.n(500, 7000)):
        tr.append(a.record('r%d' % i, dict(z=0), kint_ops(ctx.rng, {}, ctx.rng.randint(10, 40))))
    ctx.report_bads(ctx.validate('KintTrace', tr, workers=6), tr, 'constraint history')
    ctx.assumptions += ['placements of the rotation group of the cube with integer translations; boxes with even corners; axes and references are integer vectors',
                        'nothing is said within a ten-thousandth of the rim of an angle tolerance, of boxes that only touch, and of named faces that are missing when both boxes are given',
                        'the clocking of bolt patterns is not judged']
