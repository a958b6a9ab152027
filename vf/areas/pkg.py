"""Binds Pkg.tla to yapcad.package (core, validator)."""
import hashlib, json, os, re, shutil, tempfile
from ..core import Area, exc, norm

ALGS = ['sha256', 'sha512', 'blake2b', 'md5']
NAMES = ['part.step', 'part.stl', 'noext', 'b.STEP']
PATHS = [['geometry', 'primary.json'], ['geometry', 'derived', 'part.step'], ['geometry', 'derived', 'part.stl'],
         ['geometry', 'derived', 'noext'], ['geometry', 'derived', 'b.STEP'], ['attachments', 'part.step'],
         ['attachments', 'part.stl'], ['attachments', 'noext'], ['attachments', 'b.STEP'], ['exports', 'm.step'],
         ['deep', 'er', 'f.stl'], ['f.bin'], ['README.md']]
META = {}
GEO = {}       # content id -> entity list


def box(n, kind='solid'):
    from yapcad.geom3d_util import prism
    from yapcad.geom3d import poly2surfaceXY, solid
    from yapcad.geom import point
    if kind == 'solid':
        return prism(1 + n, 2 + n, 3)
    poly = [point(0, 0), point(n, 0), point(n, 1), point(0, 1), point(0, 0)]
    return poly2surfaceXY(poly)[0]


POOL = []


def pool():
    """the entities of the specification, with their tags and material"""
    if not POOL:
        from yapcad.metadata import get_solid_metadata, get_surface_metadata, add_tags, set_material
        for i, (kind, tags, mat) in enumerate([
                ('solid', ['a', 'b'], ''), ('solid', [], 'AL'), ('surface', ['b', 'c'], 'PLA'),
                ('solid', ['c', 'a'], 'AL'), ('solid', ['d'], {'name': 'x', 'grade': 'T6'}), ('surface', [], '')]):
            e = box(i + 1, kind)
            m = (get_solid_metadata if kind == 'solid' else get_surface_metadata)(e, create=True)
            add_tags(m, tags)
            if isinstance(mat, dict):
                set_material(m, **mat)
            elif mat:
                m['material'] = mat
            POOL.append((e, dict(id='e%d' % i, tags=tags, mat=mat if isinstance(mat, str) else ''), m['entityId']))
    return POOL


def gid(idx):
    """content id of the geometry document of an entity list"""
    k = tuple(idx)
    if k not in META:
        META[k] = len(META) + 1
        GEO[META[k]] = k
    return META[k]


def blob(c):
    return (b'solid blob %d\n' % c) * (c % 7) + bytes([c % 256])


class Pkg(Area):
    def __init__(self, scratch):
        self.scratch = scratch

    def new(self, init):
        d = tempfile.mkdtemp(dir=self.scratch)
        s = dict(top=d, root=os.path.join(d, 'w', 'p.ycpkg'), ext=os.path.join(d, 'ext'), mem=None, dig={}, byid={})
        os.makedirs(s['ext'])
        os.makedirs(os.path.dirname(s['root']))
        for c in range(100, 106):
            self.learn(s, c, blob(c))
        for c in (-1,):
            self.learn(s, c, b'{"broken": ')
        return s

    def close(self, s):
        shutil.rmtree(s['top'])

    def learn(self, s, c, data):
        s['byid'].setdefault(c, data)
        for a in ALGS:
            s['dig'][(a, hashlib.new(a, data).hexdigest())] = c

    def content(self, s, p):
        with open(p, 'rb') as f:
            data = f.read()
        h = ('sha256', hashlib.sha256(data).hexdigest())
        if h not in s['dig']:
            try:
                ids = [e['id'] for e in json.loads(data)['entities'] if not e.get('parent')]
                top = [i for eid in ids for i, t in enumerate(pool()) if t[2] == eid]
                self.learn(s, gid(top), data)
            except Exception:
                return 999
        return s['dig'][h]

    def bytes_of(self, s, c):
        if c not in s['byid']:
            from yapcad.io.geometry_json import geometry_to_json
            doc = geometry_to_json([pool()[i][0] for i in GEO[c]])
            self.learn(s, c, (json.dumps(doc, indent=2, sort_keys=False) + '\n').encode())
        return s['byid'][c]

    def h(self, s, h):
        if h is None:
            return dict(a='', c=0)
        a, _, x = str(h).partition(':')
        return dict(a=a, c=s['dig'].get((a.lower(), x.lower()), 998))

    def hstr(self, s, h):
        if not h['a']:
            return None
        return '%s:%s' % (h['a'], hashlib.new(h['a'].lower(), self.bytes_of(s, h['c'])).hexdigest())

    def ent(self, s, e):
        return dict(p=list(e['path'].split('/')), h=self.h(s, e.get('hash')),
                    x=dict(purpose=e.get('purpose', ''), note=e.get('note', ''), format=e.get('format', ''),
                           kind=(e.get('source') or {}).get('kind', ''), id=e.get('id', '')))

    def man(self, s):
        m = s['mem']
        if m is None:
            return dict(has=False)
        d = m.data
        g = d.get('geometry', {})
        p = g.get('primary')
        prim = dict(has=False)
        if p:
            ids = [POOL[i][1]['id'] for eid in p.get('entities', []) for i, t in enumerate(POOL) if t[2] == eid]
            prim = dict(has=True, p=p['path'].split('/'), h=self.h(s, p.get('hash')), ids=ids)
        return dict(has=True, schema=d.get('schema') == 'ycpkg-spec-v0.1', prim=prim,
                    der=[self.ent(s, e) for e in g.get('derived', [])],
                    exp=[self.ent(s, e) for e in d.get('exports', [])],
                    att=[self.ent(s, e) for e in d.get('attachments', [])],
                    tags=list(d.get('tags', [])),
                    mats=[self.unmat(k, v) for k, v in (d.get('materials') or {}).items()],
                    meta=dict(name=d.get('name'), version=d.get('version'), description=d.get('description'),
                              author=d.get('created', {}).get('author', ''), units=d.get('units'),
                              tool=(d.get('generator') or {}).get('tool', '')))

    COLORS = dict(none=None, ok=[0.6, 0.85, 1.0], high=[0.5, 2, 0], neg=[-0.1, 0, 0], word=['r', 0, 0],
                  short=[0.1, 0.2], long=[0, 0, 0, 1], text='red', zero=[0, 1, 0])
    NUMS = dict(none=None, ok=0.5, zero=0, one=1, high=1.5, neg=-0.5, text='shiny')

    def mat(self, m):
        if m['src'] == 'notdict':
            return 'steel'
        d = {}
        if m['src'] == 'notype':
            d['source'] = {'vendor': {'x': 1}}
        elif m['src'] != 'none':
            d['source'] = {'type': m['src']}
            if m['src'] == 'standard':
                d['source']['standard'] = {k: 'v' for k in ['body', 'designation'][m['stdmiss']:]}
        v = {}
        if m['color'] != 'none':
            v['color'] = self.COLORS[m['color']]
        if m['metal'] != 'none':
            v['metallic'] = self.NUMS[m['metal']]
        if m['rough'] != 'none':
            v['roughness'] = self.NUMS[m['rough']]
        if v:
            d['visual'] = v
        if m['props']:
            d['properties'] = {'density_kg_m3': 2700}
        return d

    def unmat(self, k, v):
        if not isinstance(v, dict):
            return dict(id=k, src='notdict', color='none', metal='none', rough='none', props=False, stdmiss=0)
        src = v.get('source')
        t = 'none' if not src else src.get('type', 'notype')
        vis = v.get('visual', {})

        def back(tab, x):
            return next((n for n, y in tab.items() if y == x and (y is None) == (x is None)), '?')
        return dict(id=k, src=t, color=back(self.COLORS, vis.get('color')), metal=back(self.NUMS, vis.get('metallic')),
                    rough=back(self.NUMS, vis.get('roughness')), props=bool(v.get('properties')),
                    stdmiss=2 - len(src.get('standard', {})) if t == 'standard' else 0)

    def apply(self, s, op):
        try:
            o = self._apply(s, op)
        except (ValueError, FileNotFoundError, FileExistsError, OSError) as e:
            o = dict(res='rejected')
            if op['k'] == 'geometry':
                o['c'] = 0
        except Exception as e:
            return dict(res=exc(e), msg=str(e)[:160])
        try:
            files, stray = [], []
            known = {os.path.join(s['root'], *p) for p in PATHS}
            for p in PATHS:
                f = os.path.join(s['root'], *p)
                files.append(self.content(s, f) if os.path.exists(f) else 0)
            for dp, dn, fn in os.walk(s['top']):
                for n in fn:
                    f = os.path.join(dp, n)
                    if f not in known and not f.startswith(s['ext'] + '/') and f != os.path.join(s['root'], 'manifest.yaml'):
                        stray.append(os.path.relpath(f, s['root']))
            o['files'], o['stray'] = files, sorted(stray)
            o['man'] = self.man(s)
        except Exception as e:
            o['man'] = exc(e) + str(e)[:100]
        return o

    def _apply(self, s, op):
        from yapcad.package import core as C
        from yapcad.package.validator import validate_package
        k = op['k']
        if k == 'create':
            P = pool()
            s['mem_'] = C.create_package_from_entities(
                [P[int(e['id'][1:])][0] for e in op['ents']], s['root'], name=op['meta']['name'],
                version=op['meta']['version'], description=op['meta']['description'] or None,
                author=op['meta']['author'] or None, units=None if op['meta']['units'] == 'mm' else op['meta']['units'],
                generator={'tool': op['meta']['tool']} if op['meta']['tool'] != 'yapCAD' else None,
                materials={m['id']: self.mat(m) for m in op['mats']} or None, overwrite=op['ow'],
                **({} if op['alg'] == 'sha256' else dict(hash_algorithm=op['alg'])))
            s['mem'] = s.pop('mem_')
            return dict(res='ok')
        if k == 'load':
            s['mem'] = C.PackageManifest.load(s['root'] if op['str'] else __import__('pathlib').Path(s['root']))
            return dict(res='ok')
        if k == 'nomanifest':
            f = os.path.join(s['root'], 'manifest.yaml')
            if os.path.exists(f):
                os.remove(f)
            return dict(res='ok')
        if k in ('write', 'delete'):
            f = os.path.join(s['root'], *op['p'])
            if k == 'delete':
                if os.path.exists(f):
                    os.remove(f)
            else:
                os.makedirs(os.path.dirname(f), exist_ok=True)
                data = self.bytes_of(s, op['c'])
                with open(f, 'wb') as fh:
                    fh.write(data)
            return dict(res='ok')
        if k == 'validate':
            ok, msgs = validate_package(s['root'], strict=op['strict'])
            errs = [m for m in msgs if m.startswith('ERROR')]
            early = not os.path.exists(os.path.join(s['root'], 'manifest.yaml'))
            files, mats = [], []
            if not early:
                d = C.PackageManifest.load(s['root']).data
                g = d.get('geometry', {})
                early = not g.get('primary')
            if not early:
                bad = [e for e in errs if 'material' not in e]
                ents = [g['primary']] + list(g.get('derived', [])) + list(d.get('exports', [])) + list(d.get('attachments', []))
                norms = [os.path.normpath(e['path']) for e in ents]
                named = {n for n, e in zip(norms, ents)
                         if any(re.search(r'(?<![\w/.-])' + re.escape(x) + r'(?![\w/-]|\.\w)', m) for m in bad
                                for x in (n, e['path'], os.path.join(s['root'], n), os.path.join(s['root'], e['path'])))}
                files = [n in named for n in norms]
                mats = [any("'%s'" % i in e and 'material' in e for e in errs) for i in (d.get('materials') or {})]
            return dict(res='ok', v=dict(ok=ok, files=files, mats=mats,
                                         warns=0 if early else sum(m.startswith('WARNING') for m in msgs), early=early))
        m = s['mem']
        if k == 'save':
            m.save()
            return dict(res='ok')
        if k == 'rehash':
            if op['alg'] == 'sha256':
                m.recompute_hashes()
            else:
                m.recompute_hashes(algorithm=op['alg'])
            return dict(res='ok')
        if k == 'add':
            src = os.path.join(s['ext'], op['name'])
            if op['c']:
                with open(src, 'wb') as f:
                    f.write(self.bytes_of(s, op['c']))
            elif os.path.exists(src):
                os.remove(src)
            dest = None
            if op['dest']:
                dest = ('/' if op['abs'] else '') + '/'.join(op['dest'])
                if op['abs']:
                    dest = s['top'] + dest
            md = {k: op['x'][k] for k in ('note',) if op['x'][k]}
            e = C.add_geometry_file(m, src, dest_relative=dest, purpose=op['x']['purpose'] or None, category=op['cat'],
                                    overwrite=op['ow'], metadata=md or None)
            return dict(res='ok')
        if k == 'geometry':
            ents = C.load_geometry(m)
            vol = []
            from yapcad.geom3d import issolid, volumeof, surfacebbox
            def sig(e):
                return ('solid', round(float(volumeof(e)), 4)) if issolid(e) else \
                    ('surface', round(float(surfacebbox(e)[1][0] - surfacebbox(e)[0][0]), 4))
            P = [sig(t[0]) for t in pool()]
            got = [P.index(sig(e)) if sig(e) in P else -1 for e in ents]
            c = self.content(s, os.path.join(s['root'], *self.man(s)['prim']['p']))
            want = list(GEO.get(c, ()))
            return dict(res='ok', c=c if got == want else 'got %s' % got)
        d = m.data
        g = d.setdefault('geometry', {})
        if k in ('entry', 'drop', 'unhash'):
            lst = g.setdefault('derived', []) if op['sec'] == 'der' else \
                d.setdefault('exports' if op['sec'] == 'exp' else 'attachments', [])
            if k == 'entry':
                e = op['e']
                n = dict(path='/'.join(e['p']))
                if e['h']['a']:
                    n['hash'] = self.hstr(s, e['h'])
                    if op['up']:
                        n['hash'] = n['hash'].partition(':')[0] + ':' + n['hash'].partition(':')[2].upper()
                for q in ('purpose', 'note', 'format', 'id'):
                    if e['x'][q]:
                        n[q] = e['x'][q]
                lst.append(n)
            elif k == 'drop' and lst:
                lst.pop()
            elif k == 'unhash' and lst:
                lst[0].pop('hash', None)
            return dict(res='ok')
        if k == 'primhash':
            if g.get('primary'):
                x = self.hstr(s, op['h'])
                g['primary'].pop('hash', None)
                if x:
                    g['primary']['hash'] = x
            return dict(res='ok')
        if k == 'schema':
            d['schema'] = 'ycpkg-spec-v0.1' if op['good'] else 'ycpkg-spec-v9'
            return dict(res='ok')
        if k == 'noprim':
            g.pop('primary', None)
            return dict(res='ok')
        if k == 'mats':
            d['materials'] = {x['id']: self.mat(x) for x in op['mats']}
            return dict(res='ok')
        raise KeyError(k)


def rmat(rng, i, soft=False):
    src = rng.choice(['standard', 'vendor', 'custom', 'tested'] if soft or rng.random() < .7 else
                     ['none', 'notype', 'bought', 'notdict', 'Standard'])
    if src == 'notdict':
        return dict(id=i, src=src, color='none', metal='none', rough='none', props=False, stdmiss=0)
    num = lambda: rng.choice(['none', 'ok', 'zero', 'one', 'high', 'neg', 'text'])
    return dict(id=i, src=src, color=rng.choice(['none', 'ok', 'zero'] if soft else
                                                ['none', 'ok', 'ok', 'zero', 'high', 'neg', 'word', 'short', 'long', 'text']),
                metal=num(), rough=num(), props=rng.random() < .5, stdmiss=rng.choice([0, 1, 2]) if src == 'standard' else 0)


def ops(rng, n, contain=False):
    """closed-loop generator: yields operations, is sent the observations"""
    P = pool()
    X0 = dict(purpose='', note='', format='', kind='', id='')
    live = False
    o = None
    for step in range(n):
        q = rng.random()
        man = (o or {}).get('man') if isinstance((o or {}).get('man'), dict) else None
        live = bool(man and man.get('has'))
        if not live or q < .05:
            idx = rng.sample(range(len(P)), rng.randint(0 if rng.random() < .1 else 1, 3))
            idx.sort(key=lambda i: P[i][0][0] != 'solid')       # documents list solids first
            meta = dict(name=rng.choice(['Part', 'N: x']), version=rng.choice(['0.1', '1.2.0']),
                        description=rng.choice(['', 'text']), author=rng.choice(['', 'me']),
                        units=rng.choice(['mm', 'mm', 'inch']), tool=rng.choice(['yapCAD', 'dsl']))
            op = dict(k='create', ents=[P[i][1] for i in idx], c=gid(idx), ow=rng.random() < (.8 if step > 2 else .3),
                      alg=rng.choice(['sha256'] * 4 + ['sha512', 'blake2b']), meta=meta,
                      mats=[rmat(rng, i, True) for i in ('AL', 'M2')[:rng.choice([0, 0, 1, 2])]])
        elif q < .1:
            op = dict(k='load', str=rng.random() < .5)
        elif q < .24:
            op = dict(k='save')
        elif q < .32:
            if any(e['p'][:1] == ['..'] or e['p'][1:3] == ['..', '..'] for k in ('der', 'exp', 'att') for e in man[k]):
                continue        # whether files outside are rehashed is left open
            op = dict(k='rehash', alg=rng.choice(['sha256'] * 3 + ['sha512', 'md5']))
        elif q < .52:
            name = rng.choice(NAMES)
            dest = rng.choice([[], [], ['deep', 'er', 'f.stl'], ['f.bin'], ['geometry', 'derived', 'part.stl'],
                               ['geometry', 'primary.json'], ['exports', 'm.step']])
            ab = False
            if rng.random() < (.7 if contain else .12):
                dest = rng.choice([['..', 'x.step'], ['..', '..', 'x.step'], ['geometry', '..', '..', 'y.stl'],
                                   ['..', 'p.ycpkg2', 'f.stl'], ['deep', 'er', '..', 'g', '..', '..', '..', 'z'],
                                   ['deep', 'er', '..', 'er', 'f.stl'], ['geometry', '..', 'f.bin'],
                                   ['a', '..', '..', 'w', 'q.stl']])
            elif dest and rng.random() < .1:
                ab = True
            cat = rng.choice(['derived'] * 5 + ['attachments'] * 4 + ['exports'])
            x = dict(X0, purpose=rng.choice(['', 'why']), note=rng.choice(['', 'n']), kind='import',
                     format=name.split('.')[1].lower() if '.' in name else '')
            d = dest or [name]
            if cat == 'attachments':
                x['id'] = d[-1].split('.')[0]
            op = dict(k='add', c=0 if rng.random() < .08 else rng.randint(100, 105), name=name, dest=dest, cat=cat,
                      abs=ab, ow=rng.random() < .5, x=x)
        elif q < .6:
            p = rng.choice(PATHS)
            if p == PATHS[0]:
                c = gid(rng.sample(range(len(P)), 1)) if rng.random() < .6 else rng.choice([-1, 101])
            else:
                c = rng.randint(100, 105)
            op = dict(k='write', p=p, c=c) if rng.random() < .7 else dict(k='delete', p=p)
        elif q < .74:
            op = dict(k='validate', strict=rng.random() < .5)
        elif q < .78:
            op = dict(k='geometry')
        elif q < .86:
            r = rng.random()
            p = rng.choice(PATHS[1:]) if r < .8 and not contain else rng.choice(
                [['..', '..', 'ext', rng.choice(NAMES)], ['..', 'x.step'], ['geometry', '..', '..', '..', 'ext', 'noext'],
                 ['exports', '..', 'f.bin']])
            have = [100 + i for i in range(6)]
            h = dict(a=rng.choice(['sha256', 'sha256', 'sha512']), c=rng.choice(have)) if rng.random() < .7 else dict(a='', c=0)
            op = dict(k='entry', sec=rng.choice(['der', 'exp', 'exp', 'att']), up=rng.random() < .2,
                      e=dict(p=p, h=h, x=dict(X0, id='i', purpose=rng.choice(['', 'v']))))
        elif q < .88:
            op = dict(k=rng.choice(['drop', 'unhash']), sec=rng.choice(['der', 'exp', 'att']))
        elif q < .9:
            op = dict(k='primhash', h=rng.choice([dict(a='', c=0), dict(a='sha256', c=rng.choice([100, gid([0])]))]))
        elif q < .92:
            op = dict(k='schema', good=rng.random() < .6)
        elif q < .93:
            op = dict(k=rng.choice(['noprim', 'nomanifest']))
        else:
            op = dict(k='mats', mats=[rmat(rng, i, rng.random() < .5) for i in ('AL', 'M2', 'x-3')[:rng.randint(0, 3)]])
        o = yield op
        # a change is usually saved and judged
        if op['k'] not in ('validate', 'geometry', 'load', 'nomanifest') and rng.random() < .5 and \
                isinstance(o.get('man'), dict) and o['man'].get('has'):
            o = yield dict(k='save')
            o = yield dict(k='validate', strict=rng.random() < .5)


def run(ctx, contain):
    a = Pkg(ctx.scratch)
    tr = [a.record('k%d' % i, dict(paths=PATHS), ops(ctx.rng, ctx.n(22, 30), contain)) for i in range(ctx.n(150, 1200))]
    ctx.report_bads(ctx.validate('PkgTrace', tr), tr, 'package')


def package_check(ctx):
    ctx.model_check('PkgMC', ['InvContained', 'InvRehash', 'InvTamper', 'InvLib'], consts=dict(Depth=ctx.n(4, 6)))
    run(ctx, False)


def contain_check(ctx):
    run(ctx, True)
