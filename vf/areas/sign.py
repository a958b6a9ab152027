"""Binds Sign.tla to yapcad.package.signing, with real GPG and SSH keys of its own."""
import copy, datetime, json, os, random, shutil, subprocess, tempfile
import yaml
from ..core import Area, exc

SSHC = dict(s1='alice@example.com', s2='alice@example.com', s3='bob the builder/x', s4='')
GPG = dict(g1='Alice <alice@example.com>', g2='Bob B <b@x.org>', g3='Carol <carol@x.org>')

BASE = {'schema': 'ycpkg-spec-v0.1', 'id': 'u-1', 'name': 'Part é', 'version': '0.1.0', 'description': '',
        'created': {'timestamp': '2024-10-12T18:04:00+00:00', 'author': 'me'}, 'units': 'mm', 'tags': ['b', 'a'],
        'geometry': {'primary': {'path': 'geometry/primary.json', 'hash': 'sha256:00ff', 'entities': ['x', 'y']},
                     'derived': [{'path': 'geometry/derived/a.stl', 'hash': 'sha256:1'}]},
        'metadata': {'signatures': ['none'], 'n': 1, 'f': 1.5, 'b': True, 'z': None, 'day': datetime.date(2024, 1, 2),
                     'at': datetime.datetime(2024, 10, 12, 18, 4, 5)}}


def contents():
    out = [BASE]

    def add(f):
        d = copy.deepcopy(BASE)
        f(d)
        out.append(d)
    add(lambda d: d.update(version='0.1.1'))
    add(lambda d: d['tags'].reverse())
    add(lambda d: d['geometry']['primary'].update(hash='sha256:00fe'))
    add(lambda d: d['geometry']['derived'].append({'path': 'b', 'hash': 'sha256:2'}))
    add(lambda d: d['geometry']['derived'].clear())
    add(lambda d: d['metadata'].update(signatures=['some']))
    add(lambda d: d['metadata'].update(n='1'))
    add(lambda d: d['metadata'].update(b=False))
    add(lambda d: d['metadata'].pop('z'))
    add(lambda d: d.update(extra={}))
    add(lambda d: d.update(name='Part e'))
    add(lambda d: d.update(name='part é'))
    add(lambda d: d.update(description=None))
    add(lambda d: d['created'].update(timestamp=datetime.datetime(2024, 10, 12, 18, 4, tzinfo=datetime.timezone.utc),
                                      day=datetime.date(2024, 1, 2)))
    add(lambda d: d['metadata'].update(f=1.25))
    add(lambda d: d['metadata'].update(at=datetime.datetime(2024, 10, 12, 17, 4, 5)))
    add(lambda d: d['metadata'].update(at=datetime.datetime(2024, 10, 12, 18, 4, 5, 250000)))
    add(lambda d: d['metadata'].update(day=datetime.date(2024, 1, 3)))
    add(lambda d: d['metadata'].update(f=1.5000000001))
    return out


C = contents()


def shuffled(rng, x):
    if isinstance(x, dict):
        k = list(x)
        rng.shuffle(k)
        return {i: shuffled(rng, x[i]) for i in k}
    if isinstance(x, list):
        return [shuffled(rng, i) for i in x]
    return x


class Keys:
    """keys and the homes of the verifiers, made once per run"""
    def __init__(self, scratch):
        self.d = tempfile.mkdtemp(prefix='vfk', dir='/tmp')       # short: agents listen on sockets below it
        self.fpr, self.kid = {}, {}
        env = self.env('h')
        for g, uid in GPG.items():
            self.run(['gpg', '--batch', '-q', '--passphrase', '', '--quick-gen-key', uid, 'ed25519', 'sign', '0'], env)
            o = self.run(['gpg', '--list-keys', '--with-colons', uid], env).decode().split('\n')
            self.fpr[g] = next(l.split(':')[9] for l in o if l.startswith('fpr'))
            self.kid[g] = next(l.split(':')[4] for l in o if l.startswith('pub'))
            open(self.d + '/%s.pub' % g, 'wb').write(self.run(['gpg', '--export', self.fpr[g]], env))
        self.have = {}
        # verifiers: what they have, what they trust
        for name, have, trust in [('v0', [], []), ('v1', ['g1', 'g2'], ['g1']), ('v2', ['g1', 'g2', 'g3'], ['g2', 'g3']),
                                  ('v3', ['g1', 'g2'], [])]:
            e = self.env(name)
            for g in have:
                self.run(['gpg', '-q', '--batch', '--import', self.d + '/%s.pub' % g], e)
            ot = ''.join('%s:6:\n' % self.fpr[g] for g in trust)
            self.run(['gpg', '-q', '--import-ownertrust'], e, ot.encode())
            self.run(['gpg', '-q', '--list-keys'], e)
            self.have[name] = (have, trust)
        for r, ks in [('r1', ['g1']), ('r23', ['g2', 'g3'])]:
            open(self.d + '/%s.gpg' % r, 'wb').write(b''.join(open(self.d + '/%s.pub' % g, 'rb').read() for g in ks))
            self.have[r] = (ks, [])
        for k, c in SSHC.items():
            subprocess.run(['ssh-keygen', '-q', '-t', 'ed25519', '-N', '', '-C', c, '-f', self.d + '/' + k], check=True)
        self.sfp = {}
        for k in SSHC:
            o = subprocess.run(['ssh-keygen', '-lf', self.d + '/' + k], capture_output=True, check=True).stdout.decode()
            self.sfp[o.split()[1]] = k

    def env(self, n):
        h = self.d + '/' + n
        os.makedirs(h, mode=0o700, exist_ok=True)
        return dict(os.environ, GNUPGHOME=h)

    def run(self, cmd, env, inp=b''):
        return subprocess.run(cmd, env=env, input=inp, capture_output=True, check=True).stdout

    def close(self):
        for n in ('h', 'v0', 'v1', 'v2', 'v3'):
            subprocess.run(['gpgconf', '--kill', 'all'], env=self.env(n), capture_output=True)
        shutil.rmtree(self.d, ignore_errors=True)


class Sign(Area):
    def __init__(self, scratch, keys):
        self.scratch, self.keys = scratch, keys

    def new(self, init):
        d = os.path.join(tempfile.mkdtemp(dir=self.scratch), 'p.ycpkg')
        os.makedirs(d)
        s = dict(d=d, m=d + '/manifest.yaml', junk=set(), odd=set())
        self.dump(s, C[0], 0)
        return s

    def close(self, s):
        shutil.rmtree(os.path.dirname(s['d']))

    def load(self, s):
        with open(s['m'], encoding='utf-8') as f:
            return yaml.safe_load(f)

    def dump(self, s, d, how):
        rng = random.Random(how)
        if how:
            sig = d.get('signatures')
            d = shuffled(rng, d)
            if sig is not None:
                d['signatures'] = sig
        kw = [dict(sort_keys=False), dict(default_flow_style=True), dict(indent=6, width=20), dict(default_style='"'),
              dict(allow_unicode=True, sort_keys=True)][how % 5]
        if kw.get('default_style'):
            kw = dict(allow_unicode=True, width=30)
        t = yaml.safe_dump(d, **kw)
        if how % 3 == 1:
            t = '# signed by nobody\n---\n' + t + '\n# end\n'
        with open(s['m'], 'w', encoding='utf-8') as f:
            f.write(t)

    def apply(self, s, op):
        try:
            return self._apply(s, op)
        except Exception as e:
            if type(e).__name__ == 'SigningError' and op['k'] == 'sign':
                return dict(res='SigningError', n=len(self.entries(s)))
            return dict(res=exc(e), msg=str(e)[:200])

    def entries(self, s):
        return [e for e in self.load(s).get('signatures') or [] if e.get('method') in ('gpg', 'ssh')]

    def _apply(self, s, op):
        from yapcad.package import signing as G
        K = self.keys
        k = op['k']
        if k == 'sign':
            os.environ['GNUPGHOME'] = K.d + '/h'
            kw = dict(add=op['add'])
            if op['how'] % 2 and op['signer']:
                kw['signer_name'] = op['signer']
            if op['m'] == 'gpg':
                kw.update(method='GPG' if op['how'] % 3 else G.SignatureMethod.GPG,
                          key_id='nobody@nowhere' if op['fail'] else
                          [K.fpr, K.kid, {g: u.split('<')[1][:-1] for g, u in GPG.items()}][op['how'] % 3][op['key']])
            else:
                kw.update(method='ssh')
                p = K.d + '/' + op['key'] + ('nope' if op['fail'] else '')
                if not (op['fail'] and op['how'] % 2):
                    kw['key_path'] = p
            r = G.sign_package(s['d'], **kw)
            ents = self.entries(s)
            files = [e['signature_file'] for e in ents]
            if not op['add']:
                s['junk'].clear()
            e = ents[-1]
            ok = os.path.isfile(os.path.join(s['d'], e['signature_file'])) and r.signature_file == e['signature_file'] \
                and r.method.value == e['method'] and r.key_id == e['key_id'] and r.signer == e['signer']
            rk = next((g for g in GPG if e['key_id'] in (K.fpr[g], K.kid[g])), None) if e['method'] == 'gpg' \
                else K.sfp.get(e['key_id'])
            sg = e['signer'] if 'signer_name' in kw else op['signer']
            return dict(res='ok', n=len(ents), own=ok and len(set(files)) == len(files), m=e['method'], key=rk, signer=sg)
        if k == 'edit':
            d = copy.deepcopy(C[op['c']])
            old = self.load(s).get('signatures')
            if old is not None:
                d['signatures'] = old
            self.dump(s, d, op['how'])
            return dict(res='ok')
        if k == 'format':
            self.dump(s, self.load(s), op['how'])
            return dict(res='ok')
        if k == 'junk':
            f = os.path.join(s['d'], self.entries(s)[op['i'] - 1]['signature_file'])
            if op['how'] == 'gone':
                if os.path.exists(f):
                    os.remove(f)
            else:
                t = open(f).read() if os.path.exists(f) else ''
                j = len(t) // 2
                open(f, 'w').write(t[:j] + ('A' if t[j:j + 1] != 'A' else 'B') + t[j + 1:] if op.get('flip') and t else 'garbage\n')
            return dict(res='ok')
        if k == 'swap':
            e = self.entries(s)
            a, b = (os.path.join(s['d'], e[op[x] - 1]['signature_file']) for x in 'ij')
            ta, tb = (open(x).read() if os.path.exists(x) else None for x in (a, b))
            for x, t in ((a, tb), (b, ta)):
                if t is None:
                    os.remove(x)
                else:
                    open(x, 'w').write(t)
            return dict(res='ok')
        if k == 'alien':
            d = self.load(s)
            d.setdefault('signatures', []).append({'signer': 'x', 'method': 'x509', 'signature_file': 'signatures/x'})
            self.dump(s, d, 0)
            return dict(res='ok')
        if k == 'list':
            return dict(res='ok', n=len(G.list_signatures(s['d'])))
        if k == 'verify':
            t = op['t']
            os.environ['GNUPGHOME'] = K.d + '/' + (t['home'])
            kw = {}
            if t['ring']:
                kw['gpg_keyring'] = K.d + '/%s.gpg' % t['ringname']
            if t['mode'] != 'none':
                f = os.path.join(os.path.dirname(s['d']), 'allowed')
                with open(f, 'w') as fh:
                    fh.write('# allowed signers\n')
                    for i, x in enumerate(t['ssh']):
                        pub = open(K.d + '/%s.pub' % x).read().split()[:2]
                        who = ['%s@example.com' % x, '*', 'me@x,%s@y' % x, '*@example.com', '!me@x,*@y'][(t['style'] + i) % 5]
                        opt = ['', 'namespaces="ycpkg" '][(t['style'] // 5 + i) % 2]
                        fh.write('%s %s%s\n' % (who, opt, ' '.join(pub)))
                    for i, x in enumerate(sorted(set(SSHC) - set(t['ssh']))):       # listed, but not for this
                        if (t['style'] + i) % 3 == 0:
                            pub = open(K.d + '/%s.pub' % x).read().split()[:2]
                            fh.write('%s@y %s %s\n' % (x, ['namespaces="git"', 'valid-before="20200101"'][t['style'] % 2], ' '.join(pub)))
                kw['allowed_signers'] = f
                if t['mode'] == 'missing':
                    kw['allowed_signers'] = f + '.nope'
            r = G.verify_package(s['d'], **kw)
            ents = self.entries(s)
            open_ = False
            ss = []
            bad = op['bad']
            for i, x in enumerate(r.signatures):
                v = x.status.value if x.status else 'None'
                if i < len(bad) and bad[i] and v in ('INVALID', 'ERROR'):
                    v = 'bad'
                if t['ring'] and i < len(ents) and ents[i]['method'] == 'gpg' and v in ('VALID', 'VALID_UNTRUSTED'):
                    v, open_ = 'good', True
                ss.append(v)
            ov = r.overall_status.value
            if not op['alien']:
                if open_ and ov in ('VALID', 'VALID_UNTRUSTED'):
                    ov = 'VALID' if 'VALID' in ss else 'good'
                elif ov in ('INVALID', 'ERROR') and 'bad' in ss and 'INVALID' not in ss:
                    ov = 'bad'
            return dict(res='ok', ss=ss, warned=bool(r.warnings),
                        trusted=-1 if open_ else r.trusted_signers, untrusted=-1 if open_ else r.untrusted_signers,
                        valid='open' if open_ else 'yes' if r.is_valid else 'no', overall=ov)
        raise KeyError(k)


def trust(rng, K):
    q = rng.random()
    t = dict(ring=False, ringname='', mode=rng.choice(['file', 'file', 'file', 'none', 'missing']), style=rng.randrange(30))
    t['ssh'] = rng.sample(sorted(SSHC), rng.randint(0, 3)) if t['mode'] == 'file' else []
    if q < .25:
        t.update(home='v0', ring=True, ringname=rng.choice(['r1', 'r23']))
    else:
        t['home'] = rng.choice(['v0', 'v1', 'v1', 'v2', 'v2', 'v3'])
    h = K.have[t['ringname'] or t['home']]
    t['gpgk'], t['gpgt'] = list(h[0]), list(h[1])
    return t


def ops(rng, K, n):
    sigs, alien, cur, old = [], False, 0, []      # what the entries are, to aim the operations
    for _ in range(n):
        q = rng.random()
        if q < .3 or not sigs:
            m = rng.choice(['gpg', 'ssh'])
            key = rng.choice(sorted(GPG if m == 'gpg' else SSHC))
            op = dict(k='sign', m=m, key=key, add=rng.random() < .75, fail=rng.random() < .06, how=rng.randrange(12),
                      signer=rng.choice(['', 'Me Myself']))
            o = yield op
            if o.get('res') == 'ok':
                if not op['add']:
                    sigs, alien = [], False
                sigs.append(dict(m=m, as_=m, s='sig'))
                if rng.random() < .3:
                    yield dict(k='list')
        elif q < .42:
            c = rng.choice(old) if old and rng.random() < .5 else rng.randrange(len(C))
            old.append(cur)
            cur = c
            yield dict(k='edit', c=c, how=rng.randrange(40))
        elif q < .5:
            yield dict(k='format', how=rng.randrange(1, 200))
        elif q < .57:
            i = rng.randrange(len(sigs))
            how = rng.choice(['gone', 'junk'])
            yield dict(k='junk', i=i + 1, how=how, flip=sigs[i]['s'] == 'sig' and rng.random() < .6)
            sigs[i]['s'] = how
        elif q < .62 and len(sigs) > 1:
            i, j = rng.sample(range(len(sigs)), 2)
            yield dict(k='swap', i=i + 1, j=j + 1)
            a, b = sigs[i], sigs[j]
            sigs[i], sigs[j] = dict(b, as_=a['as_']), dict(a, as_=b['as_'])
        elif q < .63 and not alien:
            yield dict(k='alien')
            alien = True
        else:
            yield dict(k='verify', t=trust(rng, K), alien=alien,
                       bad=[s['s'] == 'junk' or (s['m'] != s['as_'] and s['s'] != 'gone') for s in sigs])


def sign_check(ctx):
    ctx.model_check('SignMC', ['InvIntegrity', 'InvSwap', 'InvReturn'], consts=dict(Depth=ctx.n(4, 6)))
    K = Keys(ctx.scratch)
    old = os.environ.get('GNUPGHOME')
    try:
        a = Sign(ctx.scratch, K)
        tr = [a.record('g%d' % i, 0, ops(ctx.rng, K, ctx.n(16, 24))) for i in range(ctx.n(55, 600))]
    finally:
        K.close()
        os.environ.pop('GNUPGHOME', None) if old is None else os.environ.update(GNUPGHOME=old)
    ctx.report_bads(ctx.validate('SignTrace', tr), tr, 'signing')
