"""Triangle meshes in STL and STEP files (Mesh.tla): written, altered, damaged, read back."""
import io
import math
import os
import re
import shutil
import struct
import tempfile
from pathlib import Path

from vf.core import Area, exc


def num(v):
    r = round(v)
    return int(r) if abs(v - r) < 2e-5 * max(1, abs(v)) else 'x%.5f' % v


class Mesh(Area):
    def __init__(self):
        import yapcad.geom as g
        import yapcad.geom3d as g3
        import yapcad.io.step as step
        import yapcad.io.stl as stl
        self.g, self.g3, self.stl, self.step = g, g3, stl, step

    def new(self, init):
        return dict(live=[], files=[], bins=[], u=init['u'], o=init.get('o', [0, 0, 0]), dir=tempfile.mkdtemp(prefix='mesh'), n=0)

    def close(self, s):
        shutil.rmtree(s['dir'], ignore_errors=True)

    def make(self, s, op):
        g, u, o = self.g, s['u'], s['o']
        k, n = op['split'], len(op['faces'])
        groups = [op['faces'][n * i // k:n * (i + 1) // k] for i in range(k)]
        srfs, n = [], 0
        for fs in groups:
            vs, ns, ix = [], [], []
            for f in fs:
                t = []
                for p in f:
                    n += 1
                    d = 1e-12 * (n % 3 - 1) * min(u, 1) if op['jit'] else 0.0
                    q = g.point(*[(c + a) * u + d for c, a in zip(p, o)])
                    if not op['jit'] and q in vs:
                        t.append(vs.index(q))
                        continue
                    vs.append(q)
                    ns.append([0.0, 0.0, 1.0, 0.0])
                    t.append(len(vs) - 1)
                ix.append(t)
            srfs.append(['surface', vs, ns, ix, [], []])
        if op.get('bare'):
            return srfs[0]
        return ['solid', srfs, [], []]

    def back(self, s, p):
        return [num(c / s['u'] - a) for c, a in zip(p, s['o'])]

    def path(self, s, ext):
        s['n'] += 1
        return os.path.join(s['dir'], 'f%d.%s' % (s['n'], ext))

    def apply(self, s, op):
        try:
            return getattr(self, 'do_' + op['k'])(s, op)
        except Exception as e:
            return dict(res=exc(e))

    def do_make(self, s, op):
        s['live'].append(self.make(s, op))
        return dict(res='ok')

    def do_stl(self, s, op):
        e = s['live'][op['i'] - 1]
        d = repr(e)
        p = self.path(s, 'stl')
        bin = op['fmt'] == 'bin'
        kw = dict(binary=bin, name=op['name'])
        if op['via'] == 'stream':
            st = io.BytesIO() if bin else io.StringIO()
            self.stl.write_stl(e, st, **kw)
            b = st.getvalue()
            with open(p, 'wb') as f:
                f.write(b if bin else b.encode('utf-8'))
        elif op['via'] == 'meta':
            self.stl.write_stl_with_meta(e, p, **kw)
        else:
            self.stl.write_stl(e, Path(p) if op['via'] == 'Path' else p, **kw)
        s['files'].append(p)
        s['bins'].append(bin)
        b = open(p, 'rb').read()
        if bin:
            count = struct.unpack('<I', b[80:84])[0]
            if len(b) != 84 + 50 * count:
                count = -1
        else:
            t = [l.split() for l in b.decode('utf-8').splitlines()[1:-1]]
            count = sum(l[:1] == ['facet'] for l in t)
        return dict(res='ok', kept=repr(e) == d, count=count)

    def do_edit(self, s, op):
        p = s['files'][op['f'] - 1]
        b = open(p, 'rb').read()
        how, at = op['how'], op['at']
        bin = s['bins'][op['f'] - 1]
        if how == 'crlf':
            b = b.replace(b'\n', b'\r\n')
        elif how == 'upper':
            b = b.upper()
        elif how == 'lead':
            b = b'\n  ' + b
        elif how == 'oneline':
            b = b' '.join(b.split())
        elif how == 'header':
            b = (b'solid part of something' + b' ' * 80)[:80] + b[80:]
        elif how == 'tail':
            b = b + b'\0' * (at % 60 + 1)
        elif how == 'zeron':
            if bin:
                n = struct.unpack('<I', b[80:84])[0]
                for i in range(n):
                    b = b[:84 + 50 * i] + b'\0' * 12 + b[96 + 50 * i:]
            else:
                b = re.sub(rb'(?im)^(\s*facet normal).*?(\r?)$', rb'\1 0 0 0\2', b)
        elif how == 'cut':
            if bin:
                n = 84 + 50 * struct.unpack('<I', b[80:84])[0]
                b = b[:n * at // 1000]
            else:
                i = b.lower().rindex(b'endsolid')
                b = b[:i * at // 1000]
        elif how == 'count':
            n = struct.unpack('<I', b[80:84])[0]
            b = b[:80] + struct.pack('<I', n + 1 + at % 5)
        elif how in ('drop', 'word'):
            ls = b.split(b'\n')
            inner = [i for i, l in enumerate(ls) if l.strip() and l.strip().lower().split()[0] in
                     ((b'vertex',) if how == 'word' else (b'facet', b'outer', b'vertex', b'endloop', b'endfacet'))]
            inner = [i for i in inner if 0 < i]
            i = inner[at % len(inner)]
            if how == 'drop':
                del ls[i]
            else:
                w = ls[i].split()
                w[1 + at % 3] = (b'nope', b'--', b'1.5.2', b'')[at % 4]
                ls[i] = b' '.join(w)
            b = b'\n'.join(ls)
        with open(p, 'wb') as f:
            f.write(b)
        return dict(res='ok')

    def do_read(self, s, op):
        p = s['files'][op['f'] - 1]
        kw = {} if op['dedup'] else dict(deduplicate=False)
        if op['via'] == 'file':
            with open(p, 'rb') as f:
                e = self.stl.read_stl(f, **kw)
        elif op['via'] == 'import':
            e = self.stl.import_stl(p, **kw)
        elif op['via'] == 'text':
            b = open(p, 'rb').read()
            e = self.stl.read_stl(io.BytesIO(b) if s['bins'][op['f'] - 1] else io.StringIO(b.decode('utf-8')), **kw)
        else:
            e = self.stl.read_stl(Path(p), **kw)
        s['live'].append(e)
        tris, good, nv = [], self.g3.issolid(e, fast=False), 0
        for f in e[1]:
            nv += len(f[1])
            for t in f[3]:
                ps = [f[1][i] for i in t]
                tris.append([self.back(s, q[:3]) for q in ps])
                n = self.g.cross(self.g.sub(ps[1], ps[0]), self.g.sub(ps[2], ps[0]))
                for i in t:
                    v = f[2][i]
                    # a corner may be shared by faces that cancel; otherwise normals are of unit length
                    m = math.sqrt(sum(c * c for c in v[:3]))
                    if v[3] != 0 or (abs(m - 1) > 1e-3 and op['dedup'] is False):
                        good = False
                    if op['dedup'] is False and sum(a * c for a, c in zip(v, n[:3])) <= 0:
                        good = False
        b = self.g3.solidbbox(e)
        return dict(res='ok', tris=tris, verts=nv, closed=bool(self.g3.issolidclosed(e)), normals=bool(good),
                    box=[self.back(s, c[:3]) for c in b] if b else [])

    # --- STEP files are read by this harness
    def do_step(self, s, op):
        e = s['live'][op['i'] - 1]
        d = repr(e)
        p = self.path(s, 'step')
        try:
            if op['via'] == 'stream':
                st = io.StringIO()
                self.step.write_step(e, st, name=op['name'])
                text = st.getvalue()
            else:
                f = {'path': self.step.write_step, 'meta': self.step.write_step_with_meta, 'analytic': self.step.write_step_analytic}[op['via']]
                f(e, p, name=op['name'])
                text = open(p, encoding='utf-8').read()
        except Exception as x:
            return dict(res=exc(x), kept=repr(e) == d)
        return dict(self.parse(s, op, text, e), res='ok', kept=repr(e) == d)

    def parse(self, s, op, text, e):
        ents = {}
        data = text[text.index('DATA;') + 5:]
        data = data[:data.rindex('ENDSEC;')]
        sound = text.startswith('ISO-10303-21;') and text.rstrip().endswith('END-ISO-10303-21;')
        # statements end at a semicolon outside strings
        cur, q, stm = '', False, []
        for c in data:
            if c == "'":
                q = not q
            if c == ';' and not q:
                stm.append(cur.strip())
                cur = ''
            else:
                cur += c
        sound = sound and not q and not cur.strip()
        for x in stm:
            m = re.match(r'#(\d+)\s*=\s*(.*)$', x, re.S)
            if not m or int(m.group(1)) in ents:
                sound = False
                continue
            ents[int(m.group(1))] = m.group(2)
        nos = lambda t: [int(r) for r in re.findall(r'#(\d+)', re.sub(r"'(?:[^']|'')*'", '', t))]
        for i, t in ents.items():
            if any(r not in ents for r in nos(t)):
                sound = False
        kind = lambda i: re.match(r'[A-Z_0-9]*', ents[i]).group(0)
        pt = lambda i: [float(x) for x in re.search(r'\(([^()]*)\)\s*\)$', ents[i]).group(1).split(',')]
        vp = lambda i: pt(nos(ents[i])[0])
        written = [[self.back(s, c) for c in t] for t in self.real(s, e)]
        used = set()
        name = '?'
        for i, t in ents.items():
            if t.startswith('PRODUCT('):
                name = re.match(r"PRODUCT\('((?:[^']|'')*)'", t).group(1).replace("''", "'")
        shells, edges, points = [], set(), set()
        for i, t in ents.items():
            if t.startswith('EDGE_CURVE'):
                a, b, l = nos(t)[:3]
                edges.add(frozenset((a, b)))
                p0, v = nos(ents[l])
                dr, ln = nos(ents[v])[0], float(ents[v].rsplit(',', 1)[1].rstrip(') '))
                A, B, D = vp(a), vp(b), pt(dr)
                if kind(l) != 'LINE' or pt(p0) != A or any(abs(x + y * ln - z) > 1e-5 + 1e-5 * ln for x, y, z in zip(A, D, B)):
                    sound = False
            if t.startswith('VERTEX_POINT'):
                points.add(i)
        top = [r for i, t in ents.items() if t.startswith('ADVANCED_BREP_SHAPE_REPRESENTATION') for r in nos(t)[:-1]]
        for i in top:
            sh = nos(ents[i])
            closed = kind(i) == 'MANIFOLD_SOLID_BREP'
            if len(sh) != 1 or kind(i) not in ('MANIFOLD_SOLID_BREP', 'SHELL_BASED_SURFACE_MODEL') or kind(sh[0]) != ('CLOSED_SHELL' if closed else 'OPEN_SHELL'):
                sound = False
            faces = []
            for f in nos(ents[sh[0]]):
                bound, plane = nos(ents[f])
                loop = nos(ents[bound])[0]
                ps, last = [], None
                for oe in nos(ents[loop]):
                    a, b, _ = nos(ents[nos(ents[oe])[0]])
                    if '.F.' in ents[oe]:
                        a, b = b, a
                    if last is not None and last != a:
                        sound = False
                    ps.append(a)
                    last = b
                if last != ps[0] or len(ps) != 3:
                    sound = False
                P = [vp(a) for a in ps]
                loc, z, x = nos(ents[nos(ents[plane])[0]])
                n, rx = pt(z), pt(x)
                c = [(P[1][i] - P[0][i], P[2][i] - P[0][i]) for i in range(3)]
                cr = [c[1][0] * c[2][1] - c[2][0] * c[1][1], c[2][0] * c[0][1] - c[0][0] * c[2][1], c[0][0] * c[1][1] - c[1][0] * c[0][1]]
                m = math.sqrt(sum(v * v for v in cr)) or 1
                if any(abs(a / m - b) > 1e-2 for a, b in zip(cr, n)) or abs(sum(a * b for a, b in zip(n, rx))) > 1e-4 or abs(sum(a * a for a in rx) - 1) > 1e-4 or pt(loc) not in P:
                    sound = False
                t = [self.back(s, q) for q in P]
                hit = [k for k, w in enumerate(written) if k not in used and w == t]
                used.update(hit[:1])
                faces.append(hit[0] + 1 if hit else -1)
            shells.append(dict(closed=closed, faces=sorted(faces)))
        return dict(shells=shells, points=len(points), edges=len(edges), sound=sound, name=name)

    def real(self, s, e):
        for f in [e] if e[0] == 'surface' else e[1]:
            for t in f[3]:
                p = [f[1][i] for i in t]
                n = self.g.cross(self.g.sub(p[1], p[0]), self.g.sub(p[2], p[0]))
                if self.g.mag(n) > 1e-9 * s['u'] ** 2:
                    yield [q[:3] for q in p]


# ---------------------------------------------------------------- histories
def shape(rng):
    R = rng.randint
    p = lambda: [R(0, 3) for _ in range(3)]
    r = rng.random()
    if r < .3:
        return [[p(), p(), p()] for _ in range(R(0, 5))]
    if r < .5:
        a, b, c, d = p(), p(), p(), p()
        fs = [[a, c, b], [a, b, d], [b, c, d], [c, a, d]]
    elif r < .75:
        fs = box(p(), [R(1, 3) for _ in range(3)])
    else:
        fs = box([0, 0, 0], [2, 2, 2]) + box(rng.choice([[5, 0, 0], [2, 2, 0], [2, 2, 2], [0, 0, 2]]), [2, 2, 2])
    if rng.random() < .3 and fs:
        fs = fs[:rng.randrange(len(fs))]
    if rng.random() < .2:
        fs = fs + [[p(), p(), p()]]
    if rng.random() < .2:
        a, b = p(), p()
        fs = fs + [[a, b, rng.choice([a, b])]]
    if rng.random() < .2:
        rng.shuffle(fs)
    return fs


def box(o, d):
    v = [[o[0] + d[0] * (i & 1), o[1] + d[1] * (i >> 1 & 1), o[2] + d[2] * (i >> 2)] for i in range(8)]
    qs = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]
    return [[v[q[i]] for i in t] for q in qs for t in ((0, 1, 2), (0, 2, 3))]


NAMES = ['part', '', 'solid', 'My Part 2', 'facet normal', 'endsolid', 'x' * 120, 'a;b', 'vertex 1 2 3']


def hist(rng, size, step=True):
    R = rng.randint
    n, files = 0, []
    for _ in range(size):
        r = rng.random()
        if n == 0 or r < .2:
            fs = shape(rng)
            op = dict(k='make', faces=fs, split=rng.choice([1, 1, 2, 3]), jit=rng.random() < .25)
            if rng.random() < .2:
                op['split'] = 1
                op['bare'] = True
        elif r < .4 or not files:
            op = dict(k='stl', i=R(1, n), fmt=rng.choice(['bin', 'txt']), name=rng.choice(NAMES + ['Stück']), via=rng.choice(['path', 'Path', 'stream', 'meta']))
        elif r < .5 and step:
            op = dict(k='step', i=R(1, n), name=rng.choice(NAMES + ["Bob's part"]), via=rng.choice(['path', 'stream', 'meta', 'analytic']))
        elif r < .75:
            i = rng.randrange(len(files))
            k, bad, cnt = files[i]
            if bad:
                continue
            hows = ['header', 'tail', 'zeron', 'cut', 'count'] if k == 'bin' else ['crlf', 'upper', 'lead', 'zeron', 'cut'] + (['oneline'] if cnt else []) + (['drop', 'word'] * 2 if cnt else [])
            op = dict(k='edit', f=i + 1, how=rng.choice(hows), at=R(1, 999))
            if op['how'] == 'tail' and cnt == 0:
                continue
        else:
            op = dict(k='read', f=R(1, len(files)), via=rng.choice(['path', 'file', 'import', 'text']), dedup=rng.random() < .6)
        obs = yield op
        if obs['res'] != 'ok':
            continue
        if op['k'] in ('make', 'read'):
            n += 1
        elif op['k'] == 'stl':
            files.append([op['fmt'], False, obs['count']])
        elif op['k'] == 'edit' and op['how'] == 'oneline':
            files[op['f'] - 1][2] = 0
        elif op['k'] == 'edit' and op['how'] in ('cut', 'drop', 'word', 'count'):
            files[op['f'] - 1][1] = True


INVS = ('MeInvGood', 'MeInvReal', 'MeInvShells', 'MeInvEuler', 'MeInvTetra')


def mesh_check(ctx):
    a = Mesh()
    ctx.model_check('MeshMC', INVS, consts=dict(Depth=ctx.n(4, 6)), timeout=700)
    beh = ctx.generate('MeshMC', consts=dict(Depth=7), simulate=ctx.n(150, 1500), depth=7, timeout=600)
    a.replay(ctx, [dict(b, init=dict(u=1.0)) for b in beh], 'specification behaviours')
    traces = []
    for i in range(ctx.n(400, 3000)):
        u = ctx.rng.choice([1.0, 1.0, .5, 10.0, .1, 1 / 3, .001, 1 / 3000, 3e-5, 1 / 30001, 1000.0])
        o = ctx.rng.choice([[0, 0, 0], [0, 0, 0], [-2, 5, 0], [-100, 7, 30]])
        fine = u * 1e6 % 1 != 0 and u < .01          # below the six decimals of a STEP file
        if fine:
            o = [0, 0, 0]
        traces.append(a.record('h%d' % i, dict(u=u, o=o), hist(ctx.rng, ctx.rng.randint(5, 14), not fine)))
    ctx.report_bads(ctx.validate('MeshTrace', traces, workers=8, chunk=500), traces, 'mesh files')
    ctx.assumptions += ['STEP files are the faceted ones (the analytic exporter needs OCC); they are parsed by the harness']
