"""Kinematic chain: binds Kin.tla to yapcad.kinematics."""
import copy, itertools, json, os
import numpy as np
from ..core import Area, norm, exc

AX90 = [(0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0, -1), (0, -2, 0), (3, 0, 0), (0, 0, 0)]
AX120 = [(1, 1, 1), (-1, -1, -1), (1, -1, 1), (2, 2, 2)]
AX180 = [(1, 1, 0), (0, 1, -1), (1, 0, 1), (0, 0, 1), (-2, 0, 2)]
AXLEN = [(0, 0, 1), (3, 4, 0), (0, -3, 4), (2, 1, 2), (-1, 0, 0), (0, 5, 0), (0, 0, 0)]


def ri(x):
    r = round(float(x))
    if abs(float(x) - r) > 1e-6:
        return 'frac:%.6f' % float(x)
    return int(r)


def tfj(T):
    m = np.asarray(T.matrix, dtype=float)
    if m.shape != (4, 4) or not np.allclose(m[3], [0, 0, 0, 1]):
        return dict(R='bad', t=str(m[3]))
    if tuple(T.translation) != tuple(m[:3, 3]) or not (T.rotation_matrix == m[:3, :3]).all():
        return dict(R='bad', t='parts differ')
    return dict(R=[[ri(m[i, j]) for j in range(3)] for i in range(3)], t=[ri(m[i, 3]) for i in range(3)])


def routes():
    """the 24 cube rotations as quarter turns about x, y, z: R = Rx @ Ry @ Rz"""
    out = {}
    c, s = [1, 0, -1, 0], [0, 1, 0, -1]
    for x, y, z in itertools.product(range(4), repeat=3):
        X = np.array([[1, 0, 0], [0, c[x], -s[x]], [0, s[x], c[x]]])
        Y = np.array([[c[y], 0, s[y]], [0, 1, 0], [-s[y], 0, c[y]]])
        Z = np.array([[c[z], -s[z], 0], [s[z], c[z], 0], [0, 0, 1]])
        out.setdefault(str((X @ Y @ Z).tolist()), []).append((90 * x, 90 * y, 90 * z))
    return out


ROUTES = routes()


def mktf(d):
    from yapcad.kinematics import Transform
    way = ROUTES.get(str([list(r) for r in d['R']]))
    h = sum(d['t']) + 3 * d['t'][0]
    if way and h % 3:       # the same placement, made in other ways
        x, y, z = way[h // 3 % len(way)]
        T = Transform.from_translation(*d['t'])
        if h % 3 == 1:
            return Transform.from_position_rpy(*d['t'], x, y - 360 * (h % 2), z)
        if h % 2:
            return T @ Transform.from_rotation_x(x) @ Transform.from_rotation_y(y) @ Transform.from_rotation_z(z)
        k = 2.0 if h % 4 else -.5
        return (Transform.from_axis_angle((0, 0, k), -z if k < 0 else z).inverse() @ Transform.from_axis_angle((0, 3, 0), -y)
                @ Transform.from_axis_angle((-1, 0, 0), x) @ T.inverse()).inverse()
    m = np.eye(4)
    m[:3, :3] = np.array(d['R'], dtype=float)
    m[:3, 3] = d['t']
    return Transform.from_matrix(m)


class Kin(Area):
    def new(self, init):
        from yapcad.kinematics import KinematicChain
        return dict(chain=KinematicChain('c'), names=[])

    def mkpart(self, op):
        from yapcad.kinematics import KinematicPart, Joint, JointType, CoordinateFrame
        fr = {f['n']: CoordinateFrame(name=f['n'], transform=mktf(f['tf'])) for f in op['frames']}
        j = Joint('j_' + op['name'], JointType(op['jt']), base_transform=mktf(op['base']),
                  axis=tuple(op['axis']), value=op['val'], min_limit=op['lo'], max_limit=op['hi'])
        return KinematicPart(name=op['name'], parent=op['parent'] or None, parent_frame=op['pframe'],
                             joint=j, frames=fr, color=(0.25, 0.5, 0.75), material='M_' + op['name'],
                             description='d' + op['name'], is_printable=False, stl_path='s/' + op['name'])

    def partdoc(self, op, full):
        d = self.mkpart(op).to_dict()
        d['parent'] = op['parent'] or None
        if not full:        # hand-written documents give translation + Euler angles
            for t in [d['joint']['base_transform']] + [f['transform'] for f in d['frames'].values()]:
                t.pop('matrix')
        return d

    def apply(self, sut, op):
        try:
            return self._apply(sut, op)
        except ValueError:
            return dict(res='err')
        except Exception as e:
            return dict(res=exc(e))

    def _apply(self, sut, op):
        from yapcad.kinematics import KinematicChain, Transform
        c = sut['chain']
        k = op['k']
        if k == 'add':
            p = c.add_part(self.mkpart(op))
            sut['names'].append(op['name'])
            return dict(res='ok', parent=p.parent, pframe=p.parent_frame)
        if k == 'set':
            c.set_joint_value(op['name'], op['val'], clamp=op['clamp'])
            return dict(res='ok', val=ri(c.get_joint_value(op['name'])))
        if k == 'get':
            return dict(res='ok', val=ri(c.get_joint_value(op['name'])))
        if k == 'world':
            return dict(res='ok', **tfj(c.get_world_transform(op['name'], op['frame'])))
        if k == 'rel':
            return dict(res='ok', **tfj(c.get_relative_transform(op['a'], op['b'], op['fa'], op['fb'])))
        if k == 'all':
            d = c.get_all_world_transforms()
            if set(d) != set(sut['names']):
                return dict(res='names', tfs=sorted(d))
            return dict(res='ok', tfs=[tfj(d[n]) for n in sut['names']])
        if k == 'tree':
            r = c.get_chain_to_root(op['name'])
            return dict(res='ok' if r else 'none', root=r, kids=list(c.get_children(op['name'])),
                        desc=list(c.get_all_descendants(op['name'])), issues=len(c.validate()))
        if k == 'frame':
            p = c.parts.get(op['name'])
            if p is None or op['name'] == 'GLOBAL_DATUM' or p.get_frame(op['frame']) is not None:
                return dict(res='skip')
            p.add_frame(op['frame'], mktf(op['tf']))
            return dict(res='ok')
        if k == 'roundtrip':
            d = c.to_dict(include_world_transforms=bool(op['perm'] % 2 == 0))
            ids = list(d['parts'])
            if op['perm'] > 1:
                import random
                random.Random(op['perm']).shuffle(ids)
                d = dict(d, parts={i: d['parts'][i] for i in ids})
            if op['perm'] % 3 == 1:
                f = os.path.join(self.scratch, 'sub', 'k.json')
                if ids == list(c.parts)[1:]:
                    c.export_json(f)
                else:
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    json.dump(d, open(f, 'w'))
                n = KinematicChain.from_json(f)
            else:
                n = KinematicChain.from_dict(json.loads(json.dumps(d)))
            self.static_ok(sut, n)
            sut['chain'] = n
            return dict(res='ok', n=len(n.parts) - 1)
        if k == 'describe':
            return dict(res='ok', parts=[self.describe(c, n) for n in sut['names']])
        if k == 'load':
            d = dict(name='c', parts={p['name']: self.partdoc(p, op['full']) for p in op['parts']})
            n = KinematicChain.from_dict(json.loads(json.dumps(d)))
            sut['chain'] = n
            sut['names'] = list(op['names'])
            return dict(res='ok', n=len(n.parts) - 1)
        if k == 'damage':
            p = c.parts.get(op['name'])
            if p is None or op['name'] == 'GLOBAL_DATUM' or op['how'] == 'cycle' and op['name'] not in c.get_chain_to_root(op['by']):
                return dict(res='skip')
            was = p.parent, p.parent_frame
            if op['how'] == 'frame':
                p.parent_frame = 'GONE'
            else:
                p.parent = 'GONE' if op['how'] == 'parent' else op['by']
                if op['how'] == 'cycle':
                    p.parent_frame = 'ORIGIN'
            try:
                q = c.validate()
            finally:
                p.parent, p.parent_frame = was
            return dict(res='ok', found=len(q) == 1 if op['how'] != 'cycle' else len(q) > 0,
                        named=op['how'] == 'cycle' or "'%s'" % op['name'] in q[0] and 'GONE' in q[0] if q else False, after=len(c.validate()))
        if k == 'euler':
            T = Transform.from_position_rpy(*op['t'], op['rx'], op['ry'], op['rz'])
            d = json.loads(json.dumps(T.to_dict()))
            U = Transform.from_dict({'translation': d['translation'], 'rotation_xyz': d['rotation_xyz']})
            B = T.inverse() @ U
            a, u = tfj(T), tfj(Transform.from_dict(d))
            return dict(res='ok', R=a['R'], t=a['t'], R2=u['R'], t2=u['t'], back=tfj(B)['R'],
                        p=[ri(x) for x in T.transform_point(op['p'])],
                        v=[ri(x) for x in T.transform_vector(op['p'])])
        raise KeyError(k)

    def static_ok(self, sut, n):
        for m in sut['names']:
            a, b = sut['chain'].parts[m], n.parts[m]
            for f in ('stl_path', 'is_printable', 'material', 'color', 'description'):
                if getattr(a, f) != getattr(b, f):
                    raise RuntimeError('%s of %s: %r became %r' % (f, m, getattr(a, f), getattr(b, f)))
            if a.joint.name != b.joint.name or sut['chain'].name != n.name:
                raise RuntimeError('names lost')

    def describe(self, c, n):
        p = c.parts[n]
        return dict(name=p.name, parent=p.parent, pframe=p.parent_frame, jt=p.joint.joint_type.value,
                    axis=[ri(x) for x in p.joint.axis], base=tfj(p.joint.base_transform),
                    val=ri(p.joint.value), lo=ri(p.joint.min_limit), hi=ri(p.joint.max_limit),
                    frames=[dict(n=f, tf=tfj(p.frames[f].get_transform()))
                            for f in p.frames if f != 'ORIGIN'],
                    **tfj(c.get_world_transform(n)))


def rnd_tf(rng):
    R = np.eye(3)
    for _ in range(rng.choice([0, 0, 1, 2])):
        a = rng.choice([0, 1, 2])
        Q = np.zeros((3, 3))
        i, j = [x for x in range(3) if x != a]
        Q[a, a] = 1
        s = rng.choice([1, -1])
        Q[i, j], Q[j, i] = -s, s
        R = Q @ R
    return dict(R=[[int(x) for x in r] for r in R], t=[rng.randint(-6, 6) for _ in range(3)])


def rnd_part(rng, name, names, allow_bad=True):
    jt = rng.choice(['fixed', 'revolute', 'revolute', 'prismatic', 'prismatic', 'cylindrical', 'spherical'])
    if jt in ('revolute', 'cylindrical'):
        ax, q = rng.choice([(rng.choice(AX90), 90), (rng.choice(AX120), 120), (rng.choice(AX180), 180)])
    elif jt == 'prismatic':
        ax = rng.choice(AXLEN)
        n = int(round(sum(x * x for x in ax) ** .5)) or 1
        q = n
    else:
        ax, q = (0, 0, 1), 7
    lo, hi = rng.choice([(-180 * 4, 180 * 4), (-q, q), (0, 2 * q), (-2 * q, 0), (q, 3 * q), (-q, -q)])
    if jt == 'prismatic' and abs(lo) > 100:
        lo, hi = -30 * q, 30 * q
    if jt in ('revolute', 'cylindrical') and abs(lo) == 720 and q != 90:
        lo, hi = -4 * q, 4 * q
    frames = [dict(n=f, tf=rnd_tf(rng)) for f in ('F1', 'F2') if rng.random() < .5]
    par = rng.choice(names + ['', '']) if names else ''
    if allow_bad and rng.random() < .06:
        par = 'NOSUCH'
    if rng.random() < .05:
        par = 'GLOBAL_DATUM'
    return dict(k='add', name=name, parent=par, pframe=rng.choice(['ORIGIN', 'F1', 'F2', 'F1', 'NF']),
                jt=jt, axis=list(ax), base=rnd_tf(rng), val=q * rng.randint(-1, 1), lo=lo, hi=hi,
                frames=frames, q=q)


def seq_ops(rng, nops, nparts):
    q = {}
    names = []
    kids = 0
    for i in range(nops):
        r = rng.random()
        known = names or ['']
        if len(names) < 2 or (r < .2 and len(names) < nparts):
            nm = rng.choice('P%d' % len(names) if rng.random() < .92 or not names else rng.choice(names)
                            for _ in [0]) if False else (
                'P%d' % len(names) if rng.random() < .92 or not names else rng.choice(names))
            op = rnd_part(rng, nm, names)
            obs = yield {x: op[x] for x in op if x != 'q'}
            if obs['res'] == 'ok':
                names.append(nm)
                q[nm] = op['q']
        elif r < .45:
            nm = rng.choice(known + ['ZZ'] if rng.random() < .1 else known)
            yield dict(k='set', name=nm, val=q.get(nm, 90) * rng.randint(-5, 5), clamp=rng.random() < .6)
        elif r < .68:
            yield dict(k='world', name=rng.choice(known + (['ZZ', 'GLOBAL_DATUM'] if rng.random() < .1 else [])),
                       frame=rng.choice(['ORIGIN', 'F1', 'F2', 'NF']))
        elif r < .78:
            yield dict(k='rel', a=rng.choice(known + ['GLOBAL_DATUM']), b=rng.choice(known),
                       fa=rng.choice(['ORIGIN', 'F1']), fb=rng.choice(['ORIGIN', 'F2']))
        elif r < .84:
            yield dict(k='all')
        elif r < .9:
            yield dict(k='tree', name=rng.choice(known + ['GLOBAL_DATUM', 'ZZ']))
        elif r < .91:
            yield dict(k='damage', name=rng.choice(known), how=rng.choice(['parent', 'frame', 'cycle']), by=rng.choice(known))
        elif r < .95:
            yield dict(k='frame', name=rng.choice(known), frame=rng.choice(['F1', 'F2', 'F3']), tf=rnd_tf(rng))
        else:
            yield dict(k='get', name=rng.choice(known + ['ZZ']))
    yield dict(k='all')


def chain_check(ctx):
    a = Kin()
    a.scratch = ctx.scratch
    ctx.model_check('KinMC', ['InvCache', 'InvTree', 'InvRigid', 'InvRel', 'InvFrames', 'InvChildren', 'InvClamp'],
                    consts=dict(Depth=ctx.n(4, 5), MaxParts=3))
    beh = ctx.generate('KinMC', dict(Depth=12, MaxParts=4), simulate=ctx.n(300, 3000), depth=12)
    a.replay(ctx, beh, 'chain behaviour')
    tr = [a.record('s%d' % i, {}, seq_ops(ctx.rng, ctx.rng.choice([12, 30, 60]), ctx.rng.choice([3, 6, 9])))
          for i in range(ctx.n(400, 4000))]
    ctx.report_bads(ctx.validate('KinTrace', tr), tr, 'chain')


def doc_ops(rng):
    names, parts = [], []
    n = rng.randint(1, 7)
    for i in range(n):
        p = rnd_part(rng, 'P%d' % i, names, allow_bad=False)
        p.pop('q')
        names.append(p['name'])
        parts.append(p)
    mode = rng.random()
    if mode < .15:
        rng.choice(parts)['parent'] = 'NOSUCH'
    elif mode < .3 and n > 1:
        parts[0]['parent'] = parts[-1]['name']      # may close a cycle
    sh = parts[:]
    rng.shuffle(sh)
    obs = yield dict(k='load', parts=sh, names=names, full=rng.random() < .5)
    if obs['res'] != 'ok':
        return
    yield dict(k='describe')
    for r in range(rng.randint(1, 3)):
        for _ in range(rng.randint(0, 3)):
            p = rng.choice(parts)
            q = {'revolute': 360, 'cylindrical': 360, 'prismatic': 15}.get(p['jt'], 7)
            yield dict(k='set', name=p['name'], val=q * rng.randint(-2, 2), clamp=False)
        yield dict(k='roundtrip', perm=rng.randint(0, 40))
        yield dict(k='describe')
        yield dict(k='world', name=rng.choice(names), frame=rng.choice(['F1', 'F2', 'ORIGIN']))


def json_check(ctx):
    a = Kin()
    a.scratch = ctx.scratch
    ctx.model_check('KinMC', ['InvCache', 'InvTree', 'InvFrames'], consts=dict(Depth=3, MaxParts=3))
    ang = [0, 90, 180, 270, -90] if not ctx.thorough else list(range(-360, 450, 90))
    tr = [a.record('e%d_%d_%d' % e, {}, [dict(k='euler', rx=e[0], ry=e[1], rz=e[2],
                                              t=[ctx.rng.randint(-9, 9) for _ in range(3)],
                                              p=[ctx.rng.randint(-9, 9) for _ in range(3)])])
          for e in itertools.product(ang, repeat=3)]
    # oblique Euler angles: the read-back rotation must cancel the original one
    for i in range(ctx.n(600, 6000)):
        tr.append(euler_free(ctx.rng, i))
    for i in range(ctx.n(500, 5000)):
        tr.append(a.record('d%d' % i, {}, doc_ops(ctx.rng)))
    ctx.report_bads(ctx.validate('KinTrace', tr), tr, 'document')


def euler_free(rng, i):
    """Oblique angles have no integer matrix; only the read-back law is judged:
    the spec's expectation for the zero rotation is what inverse @ readback must be."""
    from yapcad.kinematics import Transform
    t = [rng.randint(-9, 9) for _ in range(3)]
    ang = [rng.choice([rng.uniform(-180, 180), 90, -90, 45, 0]) for _ in range(3)]
    p = [rng.randint(-9, 9) for _ in range(3)]
    op = dict(k='euler', rx=0, ry=0, rz=0, t=t, p=p)
    try:
        T = Transform.from_position_rpy(*t, *ang)
        d = json.loads(json.dumps(T.to_dict()))
        U = Transform.from_dict(dict(translation=d['translation'], rotation_xyz=d['rotation_xyz']))
        V = Transform.from_dict(d)
        B, C = T.inverse() @ U, V.inverse() @ T
        inv = T.inverse()
        back = inv.transform_vector(T.transform_vector(p))
        q = T.transform_point(inv.transform_point(p))
        obs = dict(res='ok', R=tfj(C)['R'], t=[ri(a) for a in d['translation']], R2=tfj(B)['R'],
                   t2=[ri(x) for x in T.translation], back=tfj(B)['R'],
                   p=[ri(x + y) for x, y in zip(q, t)], v=[ri(x) for x in back])
    except Exception as e:
        obs = dict(res=exc(e))
    return norm(dict(id='o%d_%s' % (i, ['%.3f' % x for x in ang]), init={}, ops=[dict(op=op, obs=obs)]))
