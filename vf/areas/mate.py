"""Mates: binds Mate.tla to yapcad.assembly.{solver,face_mate,mate,datum_registry} and kinematics frames."""
import json, logging, math
import numpy as np
from ..core import Area, norm, exc
from .kin import ri
from .asm import VECS, ROTS, CT, MT, mat, mkdatum, pose, gendatum, scaled

FREE = -9999
AX = ['X', 'Y', 'Z', '-X', '-Y', '-Z', 'Q']
SOLV = ['coincident', 'rigid', 'concentric', 'revolute', 'parallel', 'perpendicular', 'distance', 'angle']
IDP = dict(R=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], t=[0, 0, 0])


def rigid(T):
    T = np.asarray(T, dtype=float)
    return bool(T.shape == (4, 4) and np.allclose(T[3], [0, 0, 0, 1], atol=1e-9) and np.allclose(T[:3, :3].T @ T[:3, :3], np.eye(3), atol=1e-7)
                and abs(np.linalg.det(T[:3, :3]) - 1) < 1e-7)


def dirof(d):
    v = np.array(d['v'] if d['ty'] in ('plane', 'circle', 'axis') else [0, 0, 1], dtype=float)
    return v / np.linalg.norm(v)


def aligned(d):
    v = d['v'] if d['ty'] in ('plane', 'circle', 'axis') else [0, 0, 1]
    return sum(map(bool, v)) == 1 and max(map(abs, v)) == 1


def isid(p):
    return p['R'] == IDP['R'] and p['t'] == IDP['t']


class Mates(Area):
    def __init__(self, scratch):
        logging.getLogger('yapcad').setLevel(logging.CRITICAL + 1)
        self.scratch = scratch

    def new(self, init):
        from yapcad.assembly.datum_registry import DatumRegistry
        from yapcad.assembly.solver import MateConstraintSolver
        DatumRegistry.clear()
        return dict(solver=MateConstraintSolver(use_cache=init['cached']), dat={}, fm={}, fr={}, given=[])

    def close(self, s):
        from yapcad.assembly.datum_registry import DatumRegistry
        DatumRegistry.clear()

    def mate(self, m):
        from yapcad.assembly.mate import Mate, MateType
        return Mate(m['n'], MateType(m['ty']), m['pa'], m['da'], m['pb'], m['db'], offset=float(m['off']), angle=math.radians(m['ang']))

    def feats(self, s, m, T, P):
        """features of a solved placement T; P the parent's placement"""
        A, B = s['dat'][m['pa']][m['da']], s['dat'][m['pb']][m['db']]
        T, P = np.asarray(T, dtype=float), np.asarray(P, dtype=float)
        L = np.linalg.inv(P) @ T
        u, b = dirof(A), dirof(B)
        oB, oA = np.array(B['o'], dtype=float), np.array(A['o'], dtype=float)
        wo, wv, lo = T[:3, :3] @ oB + T[:3, 3], T[:3, :3] @ b, L[:3, :3] @ oB + L[:3, 3]
        t = m['ty']
        if t in ('coincident', 'rigid'):
            return [scaled(wo), scaled(wv)]
        if t in ('concentric', 'revolute'):
            return [scaled(wv), scaled(np.cross(u, lo - oA))]
        if t == 'parallel':
            return [scaled(wv)]
        if t == 'perpendicular':
            return [scaled([float(np.dot(L[:3, :3] @ b, u))])]
        if t == 'distance':
            return [scaled([float(np.dot(lo - oA, u))])]
        if t == 'angle':
            f = [scaled(P[:3, :3] @ L[:3, :3] @ u)]
            return f + [scaled(L[:3, 0], 1), scaled(L[:3, 1], 1)] if aligned(A) else f
        return []

    def answer(self, s, m, r, P):
        if not r.success:
            return dict(ok=False, rigid=True, f=[])
        a = dict(ok=True, rigid=rigid(r.transform), f=self.feats(s, m, r.transform, P))
        r.transform[:] = 7.0        # results belong to the caller
        return a

    def apply(self, s, op):
        try:
            return self._apply(s, op)
        except Exception as e:
            return dict(res=exc(e))

    def _apply(self, s, op):
        from yapcad.assembly.datum_registry import DatumRegistry
        from yapcad.assembly import solver as S, face_mate as F, mate as M
        k = op['k']
        if k == 'source':
            s['dat'][op['n']] = {d['n']: d for d in op['ds']}
            ds = {d['n']: mkdatum(d) for d in op['ds']}
            if op['how'] == 'part':
                from yapcad.assembly.datum import PartDefinition
                p = PartDefinition(op['n'])
                for d in ds.values():
                    p.add_datum(d)
                DatumRegistry.register_part(p)
            else:
                DatumRegistry.register_source(op['n'], ds)
                ds.clear()
            return dict(res='ok')
        if k == 'one':
            s['dat'].setdefault(op['n'], {})[op['d']['n']] = op['d']
            DatumRegistry.register_datum(op['n'], mkdatum(op['d']))
            return dict(res='ok')
        if k == 'solve':
            m, P = op['m'], mat(op['pose'])
            ax = op.get('ax', 'Z')
            q = s['solver'].solve_mate(self.mate(m), None if isid(op['pose']) else P, *([] if ax == 'Z' else [ax]))
            if q.success:       # the turn to the named axis taken back
                q.transform[:] = np.asarray(q.transform) @ np.linalg.inv(S.apply_mate_axis_rotation(np.eye(4), ax))
            return dict(res='ok', a=self.answer(s, m, q, P))
        if k == 'all':
            ps = {p['n']: mat(p['pose']) for p in op['ps']}
            q = s['solver'].solve_all([self.mate(m) for m in op['ms']], ps)
            return dict(res='ok', a=[dict(n=m['n'], a=self.answer(s, m, q[m['n']], ps.get(m['pa'], np.eye(4)))) for m in op['ms']] if len(q) == len(op['ms']) else sorted(q))
        if k == 'chain':
            base = mat(op['pose'])
            q = S.solve_mate_chain([self.mate(m) for m in op['ms']], None if isid(op['pose']) else base)
            out, first = [], op['ms'][0]['pa'] if op['ms'] else ''
            for n, T in q.items():
                m = [x for x in op['ms'] if x['pb'] == n][0]
                P = base if m['pa'] == first else q[m['pa']]
                L = np.linalg.inv(P) @ T
                out.append(dict(n=n, a=dict(ok=True, rigid=rigid(T), f=self.feats(s, m, L, np.eye(4)))))
            return dict(res='ok', a=out)
        if k == 'forget':
            s['solver'].invalidate_cache(*([op['n']] if op['n'] else []))
            return dict(res='ok')
        if k == 'axis':
            T = mat(op['pose'])
            q = S.apply_mate_axis_rotation(T, op['a'])
            if not np.array_equal(T, mat(op['pose'])):
                return dict(res='changed')
            return dict(res='ok', z=[ri(x) for x in q[:3, 2]], t=[ri(x) for x in q[:3, 3]], rigid=rigid(q))
        if k == 'check':
            T = np.eye(4)
            T[:3, :3], T[:3, 3], T[3] = op['R'], op['t'], op['b']
            v = s['solver'].validate_transform(T)
            return dict(res='ok', valid=bool(v.valid), ortho=bool(v.is_orthonormal), rigid=bool(v.is_rigid))
        if k == 'fmake':
            f = op['f']
            s['fm'][op['n']] = F.FaceToFaceMate(op['n'], f['pa'], f['da'], f['pb'], f['db'], constraint=M.MateType(f['ty']),
                                                offset_distance=float(f['off']), rotation_about_normal=float(f['rot']))
            s['fm'][op['n'], 'f'] = f
            return dict(res='ok')
        if k == 'fplace':
            x, f, P = s['fm'][op['n']], s['fm'][op['n'], 'f'], mat(op['pose'])
            T = x.compute_transform(None if isid(op['pose']) else P)
            A, B = s['dat'][f['pa']][f['da']], s['dat'][f['pb']][f['db']]
            o, v = T[:3, :3] @ np.array(B['o'], dtype=float) + T[:3, 3], T[:3, :3] @ dirof(B)
            fs = [scaled(o), scaled(v)]
            if f['ty'] == 'coincident' and aligned(A):
                y = F.FaceToFaceMate('y', f['pa'], f['da'], f['pb'], f['db'], offset_distance=float(f['off']))
                R = np.linalg.inv(P[:3, :3]) @ T[:3, :3] @ np.linalg.inv(y.compute_transform()[:3, :3])
                fs += [scaled(R[:, 0], 1), scaled(R[:, 1], 1)]
            r = dict(res='ok', rigid=rigid(T), f=fs)
            T[:] = 7.0
            return r
        if k == 'fcheck':
            return dict(res='ok', sat=bool(s['fm'][op['n']].validate().satisfied))
        if k == 'fforget':
            s['fm'][op['n']].invalidate_cache()
            return dict(res='ok')
        if k == 'frame':
            from yapcad.kinematics.frame import CoordinateFrame as Frame
            if op['n'] not in s['fr']:
                s['fr'][op['n']] = (Frame(op['n'], datum_source=op['p'], datum_name=op['d']), op['p'], op['d'])
            fr, p, d = s['fr'][op['n']]
            T = np.array(fr.get_transform().matrix, dtype=float)
            ty = op['ty']
            fs = [scaled(T[:3, 3])] + ([scaled(T[:3, 0]), scaled(T[:3, 1]), scaled(T[:3, 2])] if ty in ('frame', 'point', 'none') else [scaled(T[:3, 2])])
            return dict(res='ok', rigid=rigid(T), f=fs)
        if k == 'reframe':
            if op['n'] in s['fr']:
                s['fr'][op['n']][0].invalidate_cache()
            return dict(res='ok')
        if k == 'tilt':             # any directions, here floats: the relation holds after solving
            from yapcad.assembly.datum import Datum, DatumType
            DatumRegistry.register_source('ta', {'d': Datum('d', DatumType.AXIS, [1., 2., 3.], direction=op['v'] + [0])})
            DatumRegistry.register_source('tb', {'d': Datum('d', DatumType.PLANE, [-2., 5., 1.], normal=op['w'] + [0])})
            T = S.MateConstraintSolver().solve_mate(M.Mate('t', M.MateType(op['ty']), 'ta', 'd', 'tb', 'd')).transform
            a, b = np.array(op['v']) / np.linalg.norm(op['v']), T[:3, :3] @ (np.array(op['w']) / np.linalg.norm(op['w']))
            e = abs(np.dot(a, b)) if op['ty'] == 'perpendicular' else np.linalg.norm(b + a if op['ty'] in ('coincident', 'rigid') else b - a)
            return dict(res='ok', rigid=rigid(T), holds=bool(e < 1e-5))
        if k == 'meet':
            a, b = mkdatum(op['a']), mkdatum(op['b'])
            return dict(res='ok', sat=bool(M.evaluate_coincident(a, b, tolerance_mm=op['mm'] / 10).satisfied),
                        sym=bool(M.evaluate_coincident(b, a, tolerance_mm=op['mm'] / 10).satisfied))
        if k == 'bolt':
            return dict(res='ok', sat=bool(M.check_bolt_circle_alignment(mkdatum(op['a']), mkdatum(op['b']), op['holes'], op['mm'] / 10, float(op['off'])).satisfied))
        opt = lambda x: None if x == FREE else float(x)
        if k == 'limits':
            l = op['l']
            m = M.Mate('m', M.MateType(op['ty']), 'a', 'b', 'c', 'd', limits=M.MateLimits(
                min_value=opt(l['lo']), max_value=opt(l['hi']), min_velocity=opt(l['vlo']), max_velocity=opt(l['vhi']),
                min_effort=opt(l['elo']), max_effort=opt(l['ehi'])))
            v = m.evaluate(opt(op['pos']), opt(op['vel']), opt(op['eff']))
            return dict(res='ok', viol=[x.split(':')[0] for x in v['limit_violations']], err=ri(v['error']), sat=bool(v['satisfied']))
        if k == 'couple':
            m = M.Mate('m', M.MateType(op['ty']), 'a', 'b', 'c', 'd', coupling_ratio=float(op['ratio']), coupling_offset=float(op['off']),
                       coupling_reverse=op['rev'], coupling_pitch=opt(op['pitch']))
            x = op['x'] * (2 * math.pi if op['ty'] == 'screw' and op['pitch'] != FREE else 1)
            return dict(res='ok', x=ri(m.compute_coupled_motion(x)))
        if k == 'copy':
            m = self.mate(op['m'])
            m.axis, m.secondary_axis = op['m']['ax'], [0, 1, 0, 0]
            m.coupling_ratio, m.coupling_reverse, m.coupling_offset = 2.5, True, 1.0
            m.coupling_pitch = opt(op['pitch'])
            m.metadata = {'a': [1, {'b': None}]}
            if op['lim']:
                m.limits = M.MateLimits(-1.0, 2.0, -3.0, 4.0, -5.0, 6.0, -7.0, 8.0, 9.0, 10.0, .5)
            if op['dyn']:
                m.dynamics = M.MateDynamics(.1, .2, .3, .4, .5, .6)
            q = M.Mate.from_dict(json.loads(json.dumps(m.to_dict())))
            return dict(res='ok', same=bool(q == m))
        raise ValueError(k)


def gend(rng, n, ty=None):
    d = gendatum(rng, n, ty or rng.choice(['point', 'axis', 'plane', 'circle', 'plane', 'axis']))
    if rng.random() < .5 and d['ty'] not in ('point', 'frame'):
        d['v'] = list(rng.choice(VECS[:6]))
    return d


def mate_ops(rng, init, n):
    dat, fms, frs, known = {}, [], {}, {}
    parts = ['a', 'b', 'c', 'd']
    for p in parts[:rng.randint(2, 4)]:
        ds = [gend(rng, 'd%d' % j) for j in range(rng.randint(1, 4))] + ([gend(rng, 'fr', 'frame')] if rng.random() < .4 else [])
        yield dict(k='source', n=p, ds=ds, how=rng.choice(['source', 'part']))
        dat[p] = {d['n']: d for d in ds}

    def pickd(p):
        q = [x for x in dat.get(p, {}) if dat[p][x]['ty'] != 'frame']
        return rng.choice(q) if q and rng.random() > .06 else 'd9'

    def gm(nm=None, pa=None, pb=None):
        pa, pb = pa or rng.choice(list(dat) + ['zz'] * (rng.random() < .1)), pb or rng.choice(list(dat))
        ty = rng.choice(SOLV * 3 + ['planar', 'screw'])
        nm = nm or 'm%d' % rng.randint(0, 6) + rng.choice(['', '', '1'])
        return dict(n=nm, ty=ty, pa=pa, da=pickd(pa), pb=pb, db=pickd(pb), off=0 if ty == 'rigid' else rng.choice([0, 2, -3, 5]),
                    ang=rng.choice([0, 90, 180, -90, 270]))
    pz = lambda: IDP if rng.random() < .4 else pose(rng)
    for i in range(n):
        r = rng.random()
        if r < .07:
            p = rng.choice(parts)
            if rng.random() < .5 or p not in dat:
                ds = [gend(rng, 'd%d' % j) for j in range(rng.randint(1, 4))]
                yield dict(k='source', n=p, ds=ds, how=rng.choice(['source', 'part']))
                dat[p] = {d['n']: d for d in ds}
            else:
                d = gend(rng, 'd%d' % rng.randint(0, 4))
                yield dict(k='one', n=p, d=d)
                dat[p][d['n']] = d
            if rng.random() < .6:
                yield dict(k='forget', n='')
        elif r < .27:
            m = gm()
            if m['n'] in known and rng.random() < .7:
                m = known[m['n']]
            known.setdefault(m['n'], m)
            yield dict(k='solve', m=m, pose=pz(), ax=rng.choice(['Z'] * 4 + AX))
        elif r < .33:
            ms = {}
            for _ in range(rng.randint(1, 4)):
                m = gm()
                if m['n'] in known:
                    m = known[m['n']]
                known.setdefault(m['n'], m)
                ms[m['n']] = m
            yield dict(k='all', ms=list(ms.values()), ps=[dict(n=p, pose=pose(rng)) for p in rng.sample(sorted(dat), rng.randint(0, len(dat)))])
        elif r < .43:
            order = rng.sample(sorted(dat), len(dat))
            ms = [gm('c%d' % j, pa=rng.choice(order[:j]) if rng.random() < .6 else order[j - 1], pb=order[j]) for j in range(1, len(order))]
            if ms:
                ms[0]['pa'], ms[0]['da'] = order[0], ms[0]['da'] if ms[0]['pa'] == order[0] else pickd(order[0])
                yield dict(k='chain', ms=ms, pose=pz())
        elif r < .48:
            yield dict(k='forget', n=rng.choice(['', 'm1', 'm2', 'm3', 'm11']))
        elif r < .52:
            yield dict(k='axis', pose=pose(rng), a=rng.choice(AX))
        elif r < .56:
            R = [list(x) for x in rng.choice(ROTS)]
            q = rng.random()
            if q < .2:
                R[rng.randrange(3)] = [-x for x in R[0]] if rng.random() < .5 else [0, 0, 0]
            elif q < .35:
                i0 = rng.randrange(3)
                R[i0] = [-x for x in R[i0]]
            elif q < .5:
                R = [[1, rng.choice([1, 2, 0]), 0], [0, 1, 0], [0, 0, 1]]
            elif q < .6:
                R = [[2, 0, 0], [0, 1, 0], [0, 0, 1]]
            yield dict(k='check', R=R, t=[rng.randint(-9, 9) for _ in range(3)], b=rng.choice([[0, 0, 0, 1]] * 4 + [[0, 0, 0, 2], [1, 0, 0, 1]]))
        elif r < .72:
            if not fms or rng.random() < .25:
                m = gm()
                nm = 'f%d' % rng.randint(0, 3)
                ty = rng.choice(['coincident', 'coincident', 'concentric', 'parallel', 'distance'])
                f = dict(ty=ty, pa=m['pa'], da=m['da'], pb=m['pb'], db=m['db'],
                         off=rng.choice([0, 0, 3, -2]), rot=rng.choice([0, 0, 90, 180, 270, -90]))
                yield dict(k='fmake', n=nm, f=f)
                fms.append(nm)
                fd = f
            nm = rng.choice(fms)
            q = rng.random()
            if q < .6:
                yield dict(k='fplace', n=nm, pose=pz())
            elif q < .85:
                yield dict(k='fcheck', n=nm)
            else:
                yield dict(k='fforget', n=nm)
        elif r < .80:
            nm = 'F%d' % rng.randint(0, 3)
            if nm in frs and rng.random() < .3:
                yield dict(k='reframe', n=nm)
                frs[nm][2] = None
            else:
                if nm not in frs:
                    p = rng.choice(parts)
                    frs[nm] = [p, rng.choice(list(dat.get(p, {})) + ['d9']), None]
                p, d, got = frs[nm]
                ty = got or (dat[p][d]['ty'] if d in dat.get(p, {}) else 'none')
                if ty != 'none':
                    frs[nm][2] = ty
                yield dict(k='frame', n=nm, p=p, d=d, ty=ty)
        elif r < .82:
            v = [rng.uniform(-1, 1) for _ in range(3)]
            w = [rng.choice([-1, 1]) * x for x in v] if rng.random() < .1 else [s * x for x in v] if (s := rng.choice([-2, 1])) else 0
            if rng.random() < .7:
                w = [x + rng.choice([1e-1, 1e-2, 1e-3, 1e-5]) * rng.uniform(-1, 1) for x in w]
            yield dict(k='tilt', ty=rng.choice(['coincident', 'rigid', 'concentric', 'revolute', 'parallel', 'perpendicular']), v=v, w=w)
        elif r < .87:
            a = gend(rng, 'a')
            b = gend(rng, 'b', a['ty'] if rng.random() < .7 else None)
            if rng.random() < .7:
                if 'v' in b and b['ty'] != 'point' and a['ty'] != 'point':
                    b['v'] = [rng.choice([1, -1]) * x for x in a['v']] if rng.random() < .2 else [(-1 if rng.random() < .5 else 1) * 1 * x for x in a['v']]
                    if rng.random() < .7:
                        b['v'] = a['v'] if rng.random() < .5 else [-x for x in a['v']]
                sh = rng.choice([[0, 0, 0], [1, 0, 0], [0, 0, 2], a['v'], [0, 1, 1]])
                b['o'] = [x + y for x, y in zip(a['o'], sh)]
            yield dict(k='meet', a=a, b=b, mm=rng.choice([1, 15, 23]))
        elif r < .91:
            a, b = gend(rng, 'a', 'circle'), gend(rng, 'b', 'circle')
            h = rng.choice([2, 3, 4, 6])
            if rng.random() < .9:
                b['o'], b['v'] = a['o'], a['v']
                if rng.random() < .8:
                    b['r'] = a['r']
            if rng.random() < .06:
                b = gend(rng, 'b', 'plane')
            yield dict(k='bolt', a=a, b=b, holes=h, off=rng.randint(-5, 9) * (180 // h), mm=rng.choice([1, 3]))
        elif r < .95:
            o = lambda: rng.choice([FREE, rng.randint(-5, 5)])
            l = dict(lo=o(), hi=o(), vlo=o(), vhi=o(), elo=o(), ehi=o())
            yield dict(k='limits', ty=rng.choice(MT), l=l, pos=o(), vel=o(), eff=o())
        elif r < .98:
            yield dict(k='couple', ty=rng.choice(['gear', 'screw', 'screw', 'rack_pinion', 'cam', 'revolute']), ratio=rng.randint(-3, 4), off=rng.choice([0, 0, 2, -1]),
                       rev=rng.random() < .5, pitch=rng.choice([FREE, 2, 3]), x=rng.randint(-4, 4))
        else:
            m = gm()
            yield dict(k='copy', m=dict(m, ax=list(rng.choice(VECS)) + [0]), lim=rng.random() < .5, dyn=rng.random() < .5, pitch=rng.choice([FREE, 0, 2]))


def mate_check(ctx):
    ctx.model_check('MateMC', ['InvCarry', 'InvTouch', 'InvFresh', 'InvForget', 'InvAgree', 'InvSym'], consts=dict(Depth=ctx.n(3, 5)), workers=6)
    a = Mates(ctx.scratch)
    a.replay(ctx, ctx.generate('MateMC', consts=dict(Depth=9), simulate=ctx.n(200, 3000), depth=9), 'generated')
    tr = []
    for i in range(ctx.n(260, 3500)):
        init = dict(cached=ctx.rng.random() < .75)
        tr.append(a.record('r%d' % i, init, mate_ops(ctx.rng, init, ctx.rng.randint(10, 45))))
    ctx.report_bads(ctx.validate('MateTrace', tr, workers=6), tr, 'mate history')
    ctx.assumptions += ['datum directions of integral length, integer positions and offsets, placements of the rotation group of the cube',
                        'turn angles are quarter turns; a cached answer is not judged after datums or the mate changed until the cache is invalidated',
                        'frame datums are only used as frames']
