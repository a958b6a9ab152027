"""Metadata of parts: helpers, decorator hints, copies and sidecars (Meta.tla)."""
import hashlib
import os
import shutil
import tempfile

from vf.core import Area, exc

PATHS = None


def dec(v):
    """value of the specification -> Python"""
    t, x = v
    if t == 's':
        return x
    if t == 'i':
        return int(x)
    if t == 'f':
        return float(x)
    if t == 'b':
        return x == 'true'
    if t == 'l':
        return [dic(e) if e and isinstance(e[0], list) else dec(e) for e in x]


def dic(kw):
    return {k: val(v) for k, v in kw}


def val(v):
    if v and isinstance(v[0], str):
        return dec(v)
    if v and isinstance(v[0], list) and v[0] and isinstance(v[0][0], str) and v[0][0] in ('s', 'i', 'f', 'b') and len(v[0]) == 2:
        return [dec(e) for e in v]
    return dic(v)


def enc(v):
    if isinstance(v, bool):
        return ['b', 'true' if v else 'false']
    if isinstance(v, int):
        return ['i', str(v)]
    if isinstance(v, float):
        return ['f', '%g' % v]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, dict):
        return [[k, enc(x)] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return ['?', type(v).__name__]


NESTED = {'material', 'manufacturing', 'designHistory', 'constraints', 'constraints.mass', 'constraints.envelope', 'analysis', 'assembly', 'operation', 'org'}


def flat(meta):
    out = {}

    def go(pre, d):
        for k, v in d.items():
            p = pre + str(k)
            if p in NESTED and isinstance(v, dict):
                go(p + '.', v)
            else:
                out[p] = enc(v)
    go('', meta)
    return out


def lit(v):
    t, x = v
    if t == 's':
        return '"%s"' % x
    if t == 'l':
        return '[%s]' % ', '.join('{%s}' % ', '.join('"%s": %s' % (k, lit2(w)) for k, w in e) if e and isinstance(e[0], list) else lit(e) for e in x)
    return x if t != 'f' or any(c in x for c in '.e') else x + '.0'


def lit2(v):
    if isinstance(v[0], str):
        return lit(v)
    if isinstance(v[0], list) and v[0][0] in ('s', 'i', 'f', 'b') and len(v[0]) == 2 and isinstance(v[0][1], str):
        return '[%s]' % ', '.join(lit(e) for e in v)
    return '{%s}' % ', '.join('"%s": %s' % (k, lit2(w)) for k, w in v)


class Meta(Area):
    def __init__(self):
        import yapcad.dsl as dsl
        import yapcad.geom3d as g3
        import yapcad.geom3d_util as u
        import yapcad.io.meta_yaml as my
        import yapcad.metadata as md
        import yapcad.dsl.meta_apply as ma
        from yapcad.dsl.lexer import tokenize
        from yapcad.dsl.parser import parse
        from yapcad.dsl.runtime.interpreter import Interpreter
        from yapcad.io import step, stl
        self.dsl, self.g3, self.u, self.my, self.md, self.ma, self.step, self.stl = dsl, g3, u, my, md, ma, step, stl
        self.parse = lambda s: parse(tokenize(s))
        self.Interpreter = Interpreter
        global PATHS
        PATHS = [x.strip().strip('"') for x in open(os.path.join(os.path.dirname(__file__), '..', '..', 'spec', 'Meta.tla')).read().split('PathSeq == <<')[1].split('>>')[0].split(',')]

    def new(self, init):
        return dict(parts=[], files=[], ids=[], hints={}, mods={}, dir=tempfile.mkdtemp(prefix='meta'), n=0)

    def close(self, s):
        shutil.rmtree(s['dir'], ignore_errors=True)

    def slot(self, p):
        n = 4 if p[0] == 'solid' else 6
        return p[n] if len(p) > n and isinstance(p[n], dict) else {}

    def show(self, s, meta, i):
        f = flat(meta)
        for k in ('entityId', 'id'):
            if k in f:
                real = meta[k]
                first = s['ids'][i].setdefault('id', real)
                f[k] = ['s', 'set' if first == real and real else 'changed']
        return [[p, f.pop(p)] for p in PATHS if p in f] + [[p, f[p]] for p in sorted(f)]

    def all(self, s):
        return [self.show(s, self.slot(p), i) for i, p in enumerate(s['parts'])]

    def get(self, p):
        return (self.md.get_solid_metadata if p[0] == 'solid' else self.md.get_surface_metadata)(p, create=True)

    def apply(self, s, op):
        try:
            r = getattr(self, 'do_' + op['k'])(s, op) or dict(res='ok')
        except Exception as e:
            r = dict(res=exc(e))
        return dict(r, all=self.all(s))

    def add(self, s, p, ids=None):
        s['parts'].append(p)
        s['ids'].append(dict(ids or {}))

    def do_new(self, s, op):
        m = [] if op['layer'] == '-' else [{'layer': op['layer']}]
        b = self.u.prism(2, 2, 2)
        if op['kind'] == 'solid':
            self.add(s, self.g3.solid(b[1], [], [], *m))
        else:
            f = b[1][0]
            self.add(s, self.g3.surface(f[1], f[2], f[3], f[4], f[5], *m))

    def do_get(self, s, op):
        p = s['parts'][op['i'] - 1]
        m = (self.md.get_solid_metadata if p[0] == 'solid' else self.md.get_surface_metadata)(p, create=op['create'])
        if m is not self.slot(p):
            return dict(res='detached')

    def do_help(self, s, op):
        kw = dic(op['kw'])
        m = self.get(s['parts'][op['i'] - 1])
        pos = [kw.pop(k) for k in ('layer', 'tags', 'standards', 'record') if op['name'] in ('set_layer', 'add_tags', 'add_compliance', 'add_analysis_record') and k in kw]
        getattr(self.md, op['name'])(m, *pos, **kw)

    def do_hint(self, s, op):
        key = repr(op['h'])
        if key not in s['hints']:        # the same object is applied to several parts
            s['hints'][key] = {}
            for k, v in op['h']:
                s['hints'][key][k] = val(v)
        h = s['hints'][key]
        p = s['parts'][op['i'] - 1]
        if op['via'] == 'part' and p[0] == 'solid':
            self.ma.apply_meta_hint(p, h)
        else:
            self.ma.apply_meta_hint_to_raw(self.get(p), h)

    def do_copy(self, s, op):
        p, g3 = s['parts'][op['i'] - 1], self.g3
        x = p[0]
        q = {'copy': lambda: getattr(g3, x)(p), 'translate': lambda: getattr(g3, 'translate' + x)(p, [1.0, 2.0, 3.0, 1.0]),
             'rotate': lambda: getattr(g3, 'rotate' + x)(p, 30), 'mirror': lambda: getattr(g3, 'mirror' + x)(p, 'xy'),
             'scale': lambda: g3.scalesolid(p, 2.0) if x == 'solid' else getattr(g3, x)(p)}[op['via']]()
        self.add(s, q, s['ids'][op['i'] - 1])

    def do_poke(self, s, op):
        m = self.slot(s['parts'][op['i'] - 1])
        for k in op['p'].split('.')[:-1]:
            m = m.get(k, {})
        m = m.get(op['p'].split('.')[-1])
        if m is not None:
            m.append('poked')

    def do_dsl(self, s, op):
        key = repr(op['chain'])
        if key not in s['mods']:
            t = ['module m']
            for i, h in enumerate(op['chain']):
                n = len(h)
                cut = [0, n // 2, n] if op['how'] != 'one' else [0, n]
                for a, b in zip(cut, cut[1:]):
                    if a < b:
                        t.append('@meta(%s)' % ', '.join('%s=%s' % (k, lit2(v)) for k, v in h[a:b]))
                call = 'box(2.0, 3.0, 4.0)' if i == 0 else 'C%d()' % (i - 1)
                if i and op['how'] == 'move':
                    call = 'translate(%s, 1.0, 2.0, 3.0)' % call
                t += ['command C%d() -> solid:' % i, '    emit %s' % call, '']
            s['mods'][key] = '\n'.join(t) if op['how'] == 'text' else self.parse('\n'.join(t))
        m, name = s['mods'][key], 'C%d' % (len(op['chain']) - 1)
        r = self.dsl.compile_and_run(m, name, {}) if isinstance(m, str) else self.Interpreter().execute(m, name, {})
        if not r.success:
            return dict(res='failed')
        self.add(s, r.geometry)

    def do_dump(self, s, op):
        p = s['parts'][op['i'] - 1]
        s['n'] += 1
        d = os.path.join(s['dir'], str(s['n']))
        os.mkdir(d)
        g = os.path.join(d, op['name'])
        dsl = {'none': None, 'file': os.path.join(d, 'src.dsl'), 'missing': os.path.join(d, 'gone.dsl')}[op['dsl']]
        open(os.path.join(d, 'src.dsl'), 'w').write('module m\n')
        kw = dict(source_dsl=dsl, source_command=op['cmd'] or None)
        if op['via'] == 'stl':
            r = self.stl.write_stl_with_meta(p, g, **kw)
        elif op['via'] == 'step':
            r = self.step.write_step_with_meta(p, g, **kw)
        else:
            open(g, 'w').write('geometry')
            if op['via'] == 'explicit':
                kw['yaml_path'] = os.path.join(d, 'given.yaml')
            r = self.my.dump_metadata_yaml(p, g, **kw)
        want = os.path.join(d, 'given.yaml') if op['via'] == 'explicit' else str(self.my.sidecar_path_for(g))
        there = sorted(x for x in os.listdir(d) if x.endswith('.yaml'))
        if r is None:
            return dict(res='none', file=bool(there))
        y = self.my.load_metadata_yaml(r)
        pv = y.get('_provenance', {})
        sha = lambda f: hashlib.sha256(open(f, 'rb').read()).hexdigest()
        got = [k for k in ('source_dsl_sha256', 'geometry_sha256') if k in pv]
        right = 'none' if not got else 'dsl' if got == ['source_dsl_sha256'] and pv[got[0]] == sha(dsl) else 'geometry' if got == ['geometry_sha256'] and pv[got[0]] == sha(g) else 'wrong'
        s['files'].append((r, op['i'] - 1))
        return dict(res='ok', file=bool(there), path=os.path.realpath(r) == os.path.realpath(want) and len(there) == 1 and os.path.basename(want) == (there or [''])[0]
                    and (op['via'] == 'explicit' or there == [op['name'].split('.')[0] + '.meta.yaml']),
                    prov=dict(dsl='source_dsl' in pv and pv['source_dsl'] == dsl, sha=right, cmd=pv.get('source_command', '')))

    def do_load(self, s, op):
        f, i = s['files'][op['f'] - 1]
        y = self.my.load_metadata_yaml(f)
        y.pop('_provenance')
        return dict(res='ok', data=self.show(s, y, i))


# ---------------------------------------------------------------- histories
WORDS = ['a', '', 'b', 'yes', 'x: y', '2026-01-01', '1e5', 'null', 'Stück', '- q', '#n', '10', "it's"]


def S(x):
    return ['s', x]


def kws(rng, req, opt):
    out = [[k, f()] for k, f in req]
    for k, f in opt:
        if rng.random() < .4:
            out.append([k, f()])
    return out


def vocab(rng):
    R = rng.random
    W = lambda: S(rng.choice(WORDS))
    N = lambda: rng.choice([['i', '3'], ['i', '0'], ['f', '0'], ['f', '2.5'], ['i', '-4'], ['f', '0.125'], ['f', '151.9']])
    C = lambda: ['i', rng.choice(['4', '8', '12', '0'])]
    WS = lambda: [W() for _ in range(rng.randint(0, 3))]
    pick = lambda ok, bad: (lambda: S(rng.choice(bad) if R() < .12 else rng.choice(ok)))
    ID = pick(['p', 'q', 'r'], [''])
    vec = lambda: [N() for _ in range(2 if R() < .1 else 3)]
    ring = pick(['axial', 'radial'], ['upper'])
    fast = lambda: kws(rng, [('designation', W)], [('thread', pick(['tap', 'clearance', 'heat-set', 'through'], ['M8'])), ('head', pick(['SHCS', 'hex', 'none'], ['pan'])), ('size', W)])
    opk = ('kind', pick(['subtract', 'intersect', 'union'], ['cut']))
    B = lambda: ['b', rng.choice(['true', 'false'])]
    ent = {
        'bolt_patterns': lambda: kws(rng, [('id', ID), ('ring', ring), ('R_mm', N), ('z_mm', N), ('count', C)], [('theta0_deg', N), ('fastener', fast), ('tolerance_mm', N)]),
        'datums': lambda: kws(rng, [('id', ID), ('kind', pick(['axis', 'plane', 'point', 'edge', 'bolt_circle'], ['cone']))], [('ring', ring), ('R_mm', N), ('z_mm', N), ('origin_mm', vec), ('direction', vec)]),
        'surfaces': lambda: kws(rng, [('id', ID), ('kind', pick(['mating', 'bearing', 'sealing', 'datum', 'wear'], ['flat']))], [('mate_to', W), ('finish', W), ('tolerance_mm', N)]),
        'keepouts': lambda: kws(rng, [('id', ID), ('kind', pick(['volume', 'axis', 'ring'], ['box']))], [('reason', W)]),
    }
    oper = [('target_filter', WS), ('priority', N), ('through', B), ('consume', B), ('policy', pick(['strict', 'warn', 'ignore'], ['lax'])),
            ('feature_id', W), ('feature_kind', pick(['vent', 'pocket', 'channel', 'other'], ['slot'])), ('stage', W)]
    helps = {
        'set_layer': lambda: [['layer', pick(['z', 'deep', 'Stück'], [''])()]],
        'add_tags': lambda: [['tags', WS()]],
        'set_material': lambda: kws(rng, [], [('name', W), ('standard', W), ('grade', W), ('density_kg_m3', N), ('source', W)]),
        'set_manufacturing': lambda: kws(rng, [], [('process', W), ('instructions', W), ('fixtures', WS), ('postprocessing', WS)]),
        'add_design_history_entry': lambda: kws(rng, [], [('author', W), ('source', W), ('context', W), ('tools', WS), ('revision', W), ('timestamp', W), ('notes', W)]),
        'set_mass_constraint': lambda: kws(rng, [], [('max_kg', N), ('target_kg', N)]),
        'set_envelope_constraint': lambda: kws(rng, [], [('x_mm', N), ('y_mm', N), ('z_mm', N)]),
        'add_compliance': lambda: [['standards', WS()]],
        'add_analysis_record': lambda: [['record', kws(rng, [('id', W)], [('status', W), ('mass', N)])]],
        'set_assembly': lambda: kws(rng, [], [('joint_kind', pick(['axial', 'radial', 'mixed', 'none'], ['revolute'])), ('no_cut', B)]),
        'add_bolt_pattern': ent['bolt_patterns'], 'add_datum': ent['datums'], 'add_surface': ent['surfaces'], 'add_keepout': ent['keepouts'],
        'set_operation': lambda: kws(rng, [opk] if R() < .95 else [], oper),
    }

    def entries(f):
        def go():
            if R() < .04:
                return W()
            es = [ent[f]() for _ in range(rng.randint(1, 3))]
            if R() < .1:
                es[0] = es[0] + [['odd', W()]]
            return ['l', es]
        return go
    tf = lambda: rng.choice([S('a, b'), S('a'), ['l', WS()], ['i', '3']])
    BT = lambda: rng.choice([B(), S(rng.choice(['true', 'True', 'yes', 'no', '0', '1', 'false'])), ['i', rng.choice(['0', '1'])]])
    hints = dict([('layer', lambda: S(rng.choice(['z', 'deep']))), ('tags', lambda: rng.choice([W(), ['l', WS()], ['i', '7']])), ('custom', lambda: ['l', WS()]), ('org.x', N),
                  ('assembly.joint_kind', pick(['axial', 'radial'], ['revolute'])), ('assembly.no_cut', BT), ('assembly.foo', lambda: ['l', WS()]), ('operation.bar', W)]
                 + [('assembly.' + f, entries(f)) for f in ent]
                 + [('operation.' + k, f) for k, f in [opk] + oper if k not in ('target_filter', 'through', 'consume')]
                 + [('operation.target_filter', tf), ('operation.through', BT), ('operation.consume', BT)])

    def hint(n):
        ks = [k for k in hints if R() < n / len(hints)]
        rng.shuffle(ks)
        if ks and R() < .25:
            ks.append(rng.choice(ks))
        return [[k, hints[k]()] for k in ks]
    return helps, hint


def hist(rng, size):
    helps, hint = vocab(rng)
    n = files = 0
    pool, obs = [], None
    for _ in range(size):
        r = rng.random()
        i = rng.randint(1, n) if n else 0
        if n == 0 or r < .12 and n < 5:
            op = dict(k='new', kind=rng.choice(['solid', 'solid', 'surface']), layer=rng.choice(['-', '-', '', 'deep']))
        elif r < .2:
            op = dict(k='get', i=i, create=rng.random() < .5)
        elif r < .42:
            name = rng.choice(list(helps))
            op = dict(k='help', i=i, name=name, kw=helps[name]())
        elif r < .6:
            if not pool or rng.random() < .5:
                pool.append(dedup(hint(4)))
            op = dict(k='hint', i=i, h=rng.choice(pool), via=rng.choice(['part', 'raw']))
        elif r < .68 and n < 6:
            # (transforming gives parts without metadata the default fields)
            full = any(p == 'schema' for p, _ in obs['all'][i - 1])
            op = dict(k='copy', i=i, via=rng.choice(['copy'] + ['translate', 'rotate', 'scale', 'mirror'] * full))
        elif r < .76:
            op = dict(k='poke', i=i, p=rng.choice(['custom', 'assembly.foo', 'tags', 'operation.target_filter', 'assembly.datums']))
        elif r < .86 and n < 6:
            if rng.random() < .4 and pool:
                chain = [rng.choice(pool) for _ in range(rng.randint(1, 3))]
            else:
                chain = [hint(4) for _ in range(rng.randint(1, 3))]
            chain[0] = chain[0] or [['layer', S('z')]]
            op = dict(k='dsl', chain=chain, how=rng.choice(['call', 'move', 'one', 'text']))
        elif r < .94 or not files:
            op = dict(k='dump', i=i, via=rng.choice(['dump', 'explicit', 'stl', 'step']), dsl=rng.choice(['none', 'file', 'missing']), cmd=rng.choice(['', 'C0']),
                      name=rng.choice(['p.step', 'part_CURRENT.stl', 'a b.step', 'plain']))
        else:
            op = dict(k='load', f=rng.randint(1, files))
        obs = yield op
        n = len(obs['all'])
        if op['k'] == 'dump' and obs['res'] == 'ok':
            files += 1


def dedup(h):
    """a hint given as a dictionary: the first mention fixes the place, the last one the value"""
    d = {}
    for k, v in h:
        d[k] = v
    return [[k, v] for k, v in d.items()]


INVS = ('MtInvIdem', 'MtInvTags', 'MtInvVocab', 'MtInvRoot')


def meta_check(ctx):
    a = Meta()
    ctx.model_check('MetaMC', INVS, consts=dict(Depth=ctx.n(3, 4)), timeout=800)
    beh = ctx.generate('MetaMC', consts=dict(Depth=7), simulate=ctx.n(150, 1500), depth=7, timeout=600)
    a.replay(ctx, [dict(b, init={}) for b in beh], 'specification behaviours')
    traces = [a.record('h%d' % i, {}, hist(ctx.rng, ctx.rng.randint(6, 16))) for i in range(ctx.n(300, 3000))]
    ctx.report_bads(ctx.validate('MetaTrace', traces, workers=8, chunk=500), traces, 'metadata histories')
