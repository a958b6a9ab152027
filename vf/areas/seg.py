"""Segmentation of swept elements: binds Seg.tla to yapcad.manufacturing (solids are stand-ins: the stretch of the spine they cover)."""
import copy, math, re
import numpy as np
from ..core import Area, exc
from .path import Spine

U = 64
TYPES = ('male', 'female')


class Piece:
    def __init__(self, lo, hi, tabs=()):
        self.lo, self.hi, self.tabs = lo, hi, list(tabs)


class Tab:
    def __init__(self, profile, spine, how):
        self.profile, self.spine, self.how = profile, spine, how


def box(profile):
    pts = [p[:2] for seg in profile for p in seg]
    lo, hi = np.min(pts, 0), np.max(pts, 0)
    if abs(lo + hi).max() > 1e-9:
        return 'not centred'
    d = (hi - lo) * 100
    return [int(round(x)) if abs(x - round(x)) < 1e-6 else 'off %.6f' % x for x in d]


def hun(x):
    return int(round(x * 100)) if abs(x * 100 - round(x * 100)) < 1e-4 else 'off %.6f' % x


class Seg(Area):
    def new(self, init):
        e = init['e']
        return dict(e=e, sp=Spine(init['w'], e['seed']), plan=None)

    def profile(self, e):
        from yapcad.geom import line, point
        w, h = e['d'][0] / 200, e['d'][1] / 200
        c = [point(-w, -h), point(w, -h), point(w, h), point(-w, h)]
        return [[line(c[i], c[(i + 1) % 4]) for i in range(4)]]

    def pos(self, s, t):
        i = min(t // U, len(s['sp'].g) - 1)
        return i, (t - i * U) * 256 / U

    def where(self, s, p):
        x = s['sp'].label(p)
        if not x:
            return 'off'
        u = x[0] * U + x[1] * U / 256
        return int(u) if u == int(u) else 'off %s' % u

    def dirs(self, s, t):
        q = [self.pos(s, t)]
        if q[0][1] == 0 and q[0][0] > 0:
            q.append((q[0][0] - 1, 256))
        return [s['sp'].tangent(*x) for x in q]

    def along(self, s, t):
        i, u = self.pos(s, t)
        return sum(s['sp'].seglen(j) for j in range(i)) + s['sp'].seglen(i) * u / 256

    def prov(self, s, solid=True):
        from yapcad.manufacturing import SweptElementProvenance
        e = s['e']
        return SweptElementProvenance(id=e['id'], operation='sweep', outer_profile=self.profile(e), spine=dict(segments=copy.deepcopy(s['sp'].segs)),
                                      wall_thickness=e['wall'] / 100 if e['wall'] else None, metadata=dict(solid=Piece(0, e['n'] * U)) if solid else {})

    def apply(self, s, op):
        import yapcad.geom3d as g3, yapcad.geom3d_util as gu, yapcad.brep as br, yapcad.manufacturing.segmentation as sg
        saved = g3.solid_boolean, gu.sweep_adaptive, gu.sweep_profile_along_path, br.brep_from_solid, sg.split_solid_at_plane, sg.extract_segment_between_planes
        made = []
        s['made'] = made

        def boolean(a, b, kind, *args, **kw):
            if kind != 'union' or not isinstance(a, Piece) or not isinstance(b, Tab):
                raise RuntimeError('unexpected %s of %s and %s' % (kind, a, b))
            t = self.tab_at(s, b, a)
            for c in (s['plan'] or []):
                if c['t'] == t and c['f'] == 'union':
                    raise RuntimeError('no union here')
            return Piece(a.lo, a.hi, a.tabs + [t])

        def sweep(how):
            def f(profile, spine, **kw):
                made.append(Tab(profile, spine, how))
                return made[-1]
            return f

        def split(solid, point, normal):
            t = self.where(s, point)
            if not any(np.linalg.norm(np.array(normal) - d) < 1e-5 for d in self.dirs(s, t)):
                raise KeyError('plane is not across the spine')
            for c in s['plan']:
                if c['t'] == t and c['f'] == 'split':
                    raise RuntimeError('no split here')
            if not solid.lo < t < solid.hi:
                raise KeyError('cut outside the rest')
            # tabs stay with the side they were joined to
            return Piece(solid.lo, t, solid.tabs), Piece(t, solid.hi)

        def between(solid, p1, n1, p2, n2):
            a, b = self.where(s, p1), self.where(s, p2)
            # the end of a closed ring is its start, but the plane may be named by either
            ok = all(any(np.linalg.norm(np.array(n) * k - d) < 1e-5 for d in self.dirs(s, t)) for n, t, k in ((n1, a, -1), (n2, b, 1)))
            return dict(lo=a, hi=b, out=bool(ok))
        g3.solid_boolean, gu.sweep_adaptive, gu.sweep_profile_along_path, br.brep_from_solid = boolean, sweep('adaptive'), sweep('plain'), lambda x: None
        sg.split_solid_at_plane, sg.extract_segment_between_planes = split, between
        try:
            return self._apply(s, op)
        except Exception as e:
            return dict(res=exc(e))
        finally:
            g3.solid_boolean, gu.sweep_adaptive, gu.sweep_profile_along_path, br.brep_from_solid, sg.split_solid_at_plane, sg.extract_segment_between_planes = saved

    def span(self, s, tab):
        q = tab.spine['segments']
        a, b = s['sp'].along(q[0]['start']), s['sp'].along(q[-1]['end'])
        return a, b

    def tab_at(self, s, tab, piece):
        """the cut of the plan whose tab this is"""
        a, b = self.span(s, tab)
        L = self.along(s, s['e']['n'] * U)
        own = lambda c: (c['w'], c['t']) in (('a', piece.hi), ('b', piece.lo))
        for c in sorted(s['plan'], key=lambda c: not own(c)):
            if c['t'] not in (piece.lo, piece.hi):
                continue
            m = self.along(s, c['t'])
            h = (c['len'] or 3 * max(s['e']['d'])) / 200
            if a is not None and b is not None and abs(a - max(0, m - h)) < 1e-4 and abs(b - min(L, m + h)) < 1e-4 and c not in s['used']:
                s['used'].append(c)
                inner = [d - 2 * s['e']['wall'] - 2 * c['c'] for d in s['e']['d']]
                if box(tab.profile) != inner:
                    s['look'] = False
                return c['t']
        s['look'] = False
        return 'off %s %s' % (a, b)

    def _apply(self, s, op):
        from yapcad.manufacturing import segment_swept_element, CutPoint, create_interior_connector
        from yapcad.manufacturing import connectors as cn, rings as rg, segmentation as sg
        e, k = s['e'], op['k']
        T = lambda t: t / U / e['n']
        if k == 'cutpoint':
            CutPoint(e['id'], op['t'] / 100, union_connector_with=op['w'])
            return dict(res='ok')
        if k == 'segment':
            s['plan'], s['used'], s['look'] = op['cuts'], [], True
            pr = self.prov(s, op['solid'])
            cuts = [CutPoint(c['id'], T(c['t']), fit_clearance=c['c'] / 100, union_connector_with=c['w'], **(dict(connector_length=c['len'] / 100) if c['len'] else {}))
                    for c in op['cuts']]
            was = list(cuts), copy.deepcopy((cuts, pr.spine, pr.outer_profile, pr.wall_thickness, pr.id))
            r = segment_swept_element(pr, cuts, **({} if op['build'] and op['union'] else dict(build_connectors=op['build'], union_connectors=op['union'])))
            ids = [x.id for x in r.segments]
            kept = len(cuts) == len(was[0]) and all(a is b for a, b in zip(cuts, was[0])) and (cuts, pr.spine, pr.outer_profile, pr.wall_thickness, pr.id) == was[1]
            kept = kept and (not op['solid'] or (pr.metadata['solid'].hi == e['n'] * U and not pr.metadata['solid'].tabs))
            num = lambda x: ids.index(x) + 1 if x in ids else x
            unit = lambda t: round(t * U * e['n'], 6)
            parts = [dict(lo=unit(x.parameter_range[0]), hi=unit(x.parameter_range[1]), solid=[x.solid.lo, x.solid.hi], tabs=sorted(x.solid.tabs, key=str), tab=x.has_connector_tab,
                          type=x.connector_type, mates=sorted(map(num, x.mates_with), key=str), graph=sorted(map(num, r.assembly_graph.get(x.id, [])), key=str)) for x in r.segments]
            for p in parts:
                for f in ('lo', 'hi'):
                    p[f] = int(p[f]) if p[f] == int(p[f]) else p[f]
                p['tabs'] = sorted(p['tabs'], key=lambda x: (isinstance(x, str), x))
            cid = [c.id for c in r.connectors]
            good = len(set(ids)) == len(ids) and len(set(cid)) == len(cid) and set(r.assembly_graph) == set(ids) and r.segment_count == len(ids)
            good = good and all(r.get_segment(i).id == i for i in ids) and r.get_segment('none') is None and len(r.get_segments_for_element(e['id'])) == len(ids)
            good = good and not r.get_segments_for_element('x') and all(c.parent_element_id == e['id'] for c in r.connectors) and all(x.parent_element_id == e['id'] for x in r.segments)
            return dict(res='ok', parts=parts, loose=[dict(at=int(round(c.center_parameter * U * e['n'])), len=hun(c.length), clear=hun(c.fit_clearance)) for c in r.connectors],
                        warn=len(r.warnings), males=sum(x.connector_type == 'male' for x in r.segments), females=sum(x.connector_type == 'female' for x in r.segments),
                        ids=good, look=s['look'], kept=kept, told=self.told(r, parts))
        if k == 'tab':
            kw = dict(connector_length=op['len'] / 100) if op['len'] else {}
            create_interior_connector(e['d'][0] / 100, e['d'][1] / 100, dict(segments=s['sp'].segs), T(op['t']), wall_thickness=e['wall'] / 100, fit_clearance=op['c'] / 100, **kw)
            a, b = self.span(s, s['made'][-1])
            return dict(res='ok', dim=box(s['made'][-1].profile), span=dict(lo=hun(a), hi=hun(b)))
        if k == 'plug':
            kw = dict(connector_length=op['len'] / 100) if op['len'] else {}
            cn.create_terminal_connector(e['d'][0] / 100, e['d'][1] / 100, dict(segments=s['sp'].segs), 'end' if op['end'] else 'start', wall_thickness=e['wall'] / 100,
                                         fit_clearance=op['c'] / 100, **kw)
            m = s['made'][-1]
            t = e['n'] * U if op['end'] else 0
            i, u = self.pos(s, t)
            p, d = s['sp'].point(i, u), s['sp'].tangent(i, u) * (1 if op['end'] else -1)
            a, b = (np.array(m.spine['segments'][0][x][:3]) for x in ('start', 'end'))
            on = np.allclose(a, p, atol=1e-6) and len(m.spine['segments']) == 1
            v = np.array(d) * op['scale']
            from yapcad.geom3d import solid_boolean
            import yapcad.geom3d as g3
            done = []
            g3.solid_boolean = lambda x, y, kind: done.append((y, kind)) or x
            kw = dict(hole_depth=op['len'] / 100) if op['len'] else {}
            rg.add_female_holes_to_ring(Piece(0, 1), [(tuple(p), tuple(v))], e['d'][0] / 100, e['d'][1] / 100, e['wall'] / 100, fit_clearance=op['c'] / 100, **kw)
            h = done[0][0]
            ha, hb = (np.array(h.spine['segments'][0][x][:3]) for x in ('start', 'end'))
            on = on and np.allclose(ha, p) and len(done) == 1 and done[0][1] == 'difference'
            on = on and abs((b - a) @ d - np.linalg.norm(b - a)) < 1e-6 and abs((hb - ha) @ d - np.linalg.norm(hb - ha)) < 1e-6
            return dict(res='ok', dim=box(m.profile), hole=box(h.profile), out=hun(float(np.linalg.norm(b - a))), deep=hun(float(np.linalg.norm(hb - ha))), on=bool(on))
        if k == 'plugs':
            import yapcad.geom3d as g3
            tabs = []
            g3.solid_boolean = lambda x, y, kind: tabs.append(y) or (x if kind == 'union' else None)
            P = Piece(0, 1)
            r = cn.add_terminal_connectors_to_segment(P, self.prov(s), add_start=op['start'], add_end=op['end'])
            ends = [self.where(s, t.spine['segments'][0]['start']) for t in tabs]
            return dict(res='ok' if r is P else 'lost', tabs=['start' if x == 0 else 'end' if x == e['n'] * U else 'off' for x in ends])
        if k == 'ring':
            return dict(res='ok', q=sg.segment_closed_ring(Piece(0, 1), dict(segments=s['sp'].segs), [T(t) for t in op['ts']]))
        if k == 'attach':
            from yapcad.manufacturing.path_utils import evaluate_path3d_at_t
            c = tuple(float(x) for x in op['c'])
            kw = dict(tilt_angle_deg=float(op['tilt']), tilt_axis=op['axis'])
            sp = rg.create_ring_spine(float(op['r']), c, **kw)
            p, d = rg.compute_arc_attachment_point(float(op['r']), 5.0 * op['i'], c, float(op['tilt']), op['axis'])
            q = evaluate_path3d_at_t(sp, op['i'] % 72 / 72)[0]
            g = sp['segments']
            closed = all(np.allclose(g[i]['end'], g[(i + 1) % len(g)]['start'], atol=1e-9) for i in range(len(g)))
            closed = closed and all(abs(np.linalg.norm(np.array(x['start']) - c) - op['r']) < 1e-9 for x in g) and len(g) == 72
            # the plane of the ring is the level plane, tilted
            a = math.radians(op['tilt'])
            n = dict(x=[0, -math.sin(a), math.cos(a)], y=[math.sin(a), 0, math.cos(a)], z=[0, 0, 1])[op['axis'].lower()]
            closed = closed and all(abs((np.array(x['start']) - c) @ n) < 1e-9 for x in g)
            v = np.cross(np.array(g[0]['start']) - c, np.array(g[1]['start']) - c)
            return dict(res='ok', on=bool(np.allclose(p, q, atol=1e-9)), inward=bool(np.allclose(np.array(p) + op['r'] * np.array(d), c, atol=1e-9)), closed=bool(closed and v @ n > 0))
        if k == 'avoid':
            N, C, m, H = op['N'], op['C'], op['m'], op['holes']
            n = op['want'] or -(-C // op['max'])
            cs = rg.compute_ring_cuts_avoiding_holes(float(C), float(op['max']), [h * 360 / N for h in H], m * C / N, **(dict(target_segments=op['want']) if op['want'] else {}))
            far = lambda x: all(min((x - h) % N, (h - x) % N) > m - 1e-6 for h in H)
            x = [c * N for c in cs]
            ideal = [N // n * (i + 1) for i in range(n - 1)]
            near = True
            for v, i in zip(x, ideal):
                best = min((abs(y - i) for y in range(1, N) if far(y) and all(min((y - h) % N, (h - y) % N) > m for h in H)), default=0)
                near = near and abs(v - i) <= best + .0006 * N + 1
            return dict(res='ok', n=len(cs), inside=all(a < b for a, b in zip([0] + x, x + [N])), clear=all(map(far, x)), near=near,
                        even=all(abs(a - b) < 1e-6 for a, b in zip(x, ideal)))
        raise ValueError(k)

    def told(self, r, parts):
        """the instructions name every part in order, with its mates and loose connectors"""
        txt = r.assembly_instructions
        steps = re.split(r"\n(?=\d+\. Place segment)", txt)
        head, steps = steps[0], steps[1:]
        if not re.search(r'Total segments: %d\b' % len(parts), head) or len(steps) != len(parts):
            return False
        m, f = (sum(p['type'] == t for p in parts) for t in TYPES)
        if m + f and not (re.search(r'Male.*: %d\b' % m, head) and re.search(r'Female.*: %d\b' % f, head)):
            return False
        for i, (st, p, g) in enumerate(zip(steps, parts, r.segments)):
            if not st.startswith("%d. Place segment '%s'" % (i + 1, g.id)):
                return False
            c = re.search(r'Connects to: (.*)', st)
            if (sorted(c.group(1).split(', ')) if c else []) != sorted(g.mates_with):
                return False
            if [c.id for c in r.connectors if abs(c.center_parameter - g.parameter_range[1]) < 1e-9] != re.findall(r"Insert connector '(.*?)'", st):
                return False
            if ('MALE' in re.sub('FEMALE', '', st)) != (p['type'] == 'male') or ('FEMALE' in st) != (p['type'] == 'female'):
                return False
        return True


def gel(rng):
    n = rng.randint(1, 4)
    straight = rng.random() < .5
    w = [dict(k='line', w=4 * rng.randint(1, 30)) if straight or rng.random() < .6 else dict(k='arc', w=rng.randint(1, 12)) for _ in range(n)]
    return dict(e=dict(id=rng.choice(['beam', 'b']), n=n, d=[100 * rng.randint(4, 30), 100 * rng.randint(4, 30)], wall=rng.choice([0, 50, 100, 150]), seed=rng.randint(1, 10 ** 6)), w=w)


def seg_ops(rng, init, n):
    e, w = init['e'], init['w']
    straight = all(x['k'] == 'line' for x in w)
    top = e['n'] * U
    for _ in range(n):
        r = rng.random()
        c = rng.choice([10, 18, 20, 30, 45])
        ln = rng.choice([0, 0, 500, 1234 * 2, 6000])
        if r < .5:
            k = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5])
            base = rng.randint(1, top - 1)
            ts = rng.sample(range(1, top), k) if rng.random() < .6 else rng.sample(range(max(1, base - 5), min(top, base + 6)), min(k, 5, top - max(1, base - 5)) if top - base > 5 else min(k, 3))
            bad = rng.random() < .04
            plain = rng.random() < .5
            yield dict(k='segment', cuts=[dict(t=t, w=rng.choice(['a', 'a', 'b', 'b', 'none']), len=rng.choice([0, 0, 500, 2468]), c=rng.choice([10, 20, 20, 45]),
                                               f='none' if plain or rng.random() < .8 else rng.choice(['split', 'union']), id='other' if bad and i == 0 else e['id']) for i, t in enumerate(ts)],
                       build=rng.random() < .9, union=rng.random() < .85, solid=rng.random() < .98)
        elif r < .55:
            yield dict(k='cutpoint', t=rng.choice([-5, 0, 1, 50, 99, 100, 130]), w=rng.choice(['a', 'b', 'none', 'c', '']))
        elif r < .65 and straight:
            t = rng.choice(range(4, top, 4))
            i = t // U
            # a length in hundredths of a millimetre
            at = sum(x['w'] * 100 for x in w[:i]) + w[i]['w'] * 100 * (t - i * U) // U if i < len(w) else sum(x['w'] * 100 for x in w)
            if i < len(w) and (w[i]['w'] * 100 * (t - i * U)) % U:
                continue
            yield dict(k='tab', t=t, at=at, L=sum(x['w'] * 100 for x in w), len=ln, c=c if rng.random() < .8 else rng.choice([200, 350, 1500]))
        elif r < .75:
            yield dict(k='plug', end=rng.random() < .5, len=ln, c=c if rng.random() < .8 else rng.choice([200, 350, 1500]), scale=rng.choice([1, 2, .5]))
        elif r < .79:
            yield dict(k='plugs', start=rng.random() < .6, end=rng.random() < .6)
        elif r < .85:
            ts = [rng.randint(1, top - 1) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
            if rng.random() < .1:
                ts.append(rng.choice([0, top, top + 5, -3]))
            if len(set(ts)) == len(ts):
                yield dict(k='ring', ts=ts)
        elif r < .9:
            yield dict(k='attach', r=rng.randint(1, 200), i=rng.randint(0, 90), c=rng.choice([[0, 0, 0], [rng.randint(-9, 9) for _ in range(3)]]), tilt=rng.choice([0, 0, 30, -45, 90, 17]), axis=rng.choice('xyzXY'))
        else:
            n = rng.randint(1, 5)
            N = 1440 * n
            C = N // rng.choice([1, 2, 4])
            H = [4 * n * rng.randint(0, 360) if rng.random() < .5 else (N // n * rng.randint(0, n) + 4 * n * rng.randint(-20, 20)) % N for _ in range(rng.randint(0, 5))]
            by = rng.random() < .6
            mx = C // n if by and C % n == 0 else C // n + 1
            if -(-C // mx) == n or not by:
                yield dict(k='avoid', N=N, C=C, max=mx if by else rng.randint(1, C), want=0 if by else n, holes=H, m=2 * rng.randint(0, 40) * n + 1)


def seg_check(ctx):
    ctx.model_check('SegMC', ['InvTile', 'InvMate', 'InvJoint', 'InvFemale'], consts=dict(Depth=1), workers=6)
    a = Seg()
    tr = []
    for i in range(ctx.n(350, 3500)):
        init = gel(ctx.rng)
        tr.append(a.record('s%d' % i, init, seg_ops(ctx.rng, init, ctx.rng.randint(10, 25))))
    ctx.report_bads(ctx.validate('SegTrace', tr, workers=6), tr, 'segmentation history')
    ctx.assumptions += ['solids and their booleans are stand-ins (OCC is not installed): a solid is the stretch of the spine it covers with its tabs']
