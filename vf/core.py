"""Shared machinery of the checks: TLC runner, trace validation, behaviour
replay, evidence and verdicts.  Exit codes: 0 held, 1 violation (with a
VIOLATION line), 3 the check itself failed."""
import json, logging, os, random, re, shutil, subprocess, sys, tempfile, time, traceback, warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
EVID = os.path.join(ROOT, 'evidence')
REPO = os.environ.get('VF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


OUT = sys.stdout


def say(*a):
    print(*a, file=OUT)
    OUT.flush()


class CheckError(Exception):
    """The machinery itself failed (never a verdict on the code)."""


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        g, d = m[-1] if m else ('0', '0')
        self.generated, self.distinct = int(g.replace(',', '')), int(d.replace(',', ''))
        m = re.search(r'The number of states generated: (\d+)', out)   # simulation
        if m and not self.generated:
            self.generated = self.distinct = int(m.group(1))
        self.ok = rc == 0


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s-%d' % (prop, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf_%s_' % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.behaviours = 0
        self.samples, self.notes, self.assumptions = [], [], []
        self.extra = {}
        self.violations = []
        self.known_hits = []
        self.known = load_known(prop)
        self.opcount = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, env=None, workers=4, timeout=800, args=(), expect_ok=True):
        name = '%s_%d' % (module, len(os.listdir(self.scratch)))
        d = os.path.join(self.scratch, name)
        os.makedirs(d)
        cfg = os.path.join(d, module + '.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = ['timeout', str(timeout), 'java', '-XX:+UseParallelGC', '-Xmx6g', '-Xss64m',
               '-Djava.io.tmpdir=' + d,
               '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-metadir', os.path.join(d, 'md'),
               '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg] + list(args) + \
              [os.path.join(SPEC, module + '.tla')]
        t = time.time()
        p = subprocess.run(cmd, env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = TLCResult(p.stdout, p.returncode, time.time() - t)
        shutil.rmtree(os.path.join(d, 'md'), ignore_errors=True)
        if expect_ok and not r.ok:
            raise CheckError('TLC %s failed (rc %d):\n%s' % (module, r.rc, errlines(r.out)))
        return r

    def model_check(self, module, invariants=(), properties=(), consts=None, view='MView', workers=4,
                    timeout=800, min_states=2):
        """Exhaustive bounded exploration of the specification itself."""
        cfg = 'INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n'
        if view:
            cfg += 'VIEW %s\n' % view
        for k, v in (consts or {}).items():
            cfg += 'CONSTANT %s = %s\n' % (k, v)
        for i in invariants:
            cfg += 'INVARIANT %s\n' % i
        for i in properties:
            cfg += 'PROPERTY %s\n' % i
        r = self.tlc(module, cfg, workers=workers, timeout=timeout)
        if r.distinct < min_states:
            raise CheckError('model %s explored only %d states' % (module, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault('models', []).append(
            dict(module=module, distinct=r.distinct, generated=r.generated, consts=consts or {},
                 invariants=list(invariants) + list(properties), wall_s=round(r.wall, 1)))
        return r

    def generate(self, module, consts=None, simulate=None, depth=None, workers=4, timeout=800, limit=None):
        """Behaviours of the specification, as [{init, ops:[{op,obs}]}]."""
        out = os.path.join(self.scratch, 'beh_%s_%d.csv' % (module, len(os.listdir(self.scratch))))
        cfg = 'INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n'
        for k, v in (consts or {}).items():
            cfg += 'CONSTANT %s = %s\n' % (k, v)
        args = []
        if simulate:
            args = ['-simulate', 'num=%d' % simulate, '-depth', str(depth + 3), '-seed', str(self.seed)]
            workers = 1
        r = self.tlc(module, cfg, env={'VF_OUT': out}, workers=workers, timeout=timeout, args=args)
        if not simulate:
            self.states += r.distinct
        self.transitions += r.generated
        beh = read_csv_json(out)
        if not beh:
            raise CheckError('specification %s generated no behaviours' % module)
        self.behaviours += len(beh)
        self.extra.setdefault('generated', []).append(
            dict(module=module, behaviours=len(beh), simulate=bool(simulate), wall_s=round(r.wall, 1)))
        if limit and len(beh) > limit:
            beh = self.rng.sample(beh, limit)
        return beh

    def validate(self, module, traces, workers=4, timeout=800, chunk=4000):
        """TLC judges traces recorded from the real code.  Returns bad verdicts."""
        bads = []
        for i in range(0, len(traces), chunk):
            part = traces[i:i + chunk]
            tf = os.path.join(self.scratch, 'tr_%s_%d.json' % (module, len(os.listdir(self.scratch))))
            bf = tf + '.bad'
            with open(tf, 'w') as f:
                json.dump(part, f)
            r = self.tlc(module, 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n',
                         env={'VF_TRACES': tf, 'VF_BAD': bf, 'VF_SKIP': tf + '.skip'}, workers=workers, timeout=timeout)
            try:
                bad = read_csv_json(bf)
            except ValueError:      # long verdicts of several workers interleaved
                os.remove(bf)
                r = self.tlc(module, 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n',
                             env={'VF_TRACES': tf, 'VF_BAD': bf, 'VF_SKIP': tf + '.skip'}, workers=1, timeout=timeout)
                bad = read_csv_json(bf)
            byid = {t['id']: t for t in part}
            for b in bad:
                e = byid[b['trace']]['ops'][b['pos'] - 1]
                b['op'], b['got'] = e['op'], e['obs']
            want = sum(len(t['ops']) for t in part) + len(part)
            if not bad and r.distinct != want:
                raise CheckError('trace validation of %s consumed %d of %d events'
                                 % (module, r.distinct, want))
            self.states += r.distinct
            self.transitions += r.generated
            bads += bad
            if os.path.exists(tf + '.skip'):
                self.extra['events_outside_spec'] = self.extra.get('events_outside_spec', 0) + \
                    sum(1 for _ in open(tf + '.skip'))
            os.remove(tf)
        self.traces += len(traces)
        self.events += sum(len(t['ops']) for t in traces)
        for t in traces:
            for o in t['ops']:
                k = str(o['op'].get('k', o['op'].get('op', '?'))) + '/' + str(o['obs'].get('res', ''))[:24]
                self.opcount[k] = self.opcount.get(k, 0) + 1
        if traces and len(self.samples) < 3:
            self.samples.append(clip(traces[len(traces) // 2]))
        return bads

    # ------------------------------------------------------------ verdicts
    def violation(self, what, key, data=None):
        """key identifies the failing input / call site / history."""
        for k in self.known:
            if k['kind'] == 'known' and k['key'] == key:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                    say('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
                return
        self.violations.append(dict(what=what, key=key, data=data))

    def report_bads(self, bads, traces=None, what=''):
        byid = {t['id']: t for t in traces} if traces else {}
        for b in bads:
            t = byid.get(b['trace'])
            self.violation('%s: trace %s event %d: clause %s expected %s got %s' % (
                what, b['trace'], b['pos'], b['clause'], clip(b['expected']), clip(b['got'])),
                key='%s:%s' % (b['op'].get('k', '?'), ','.join(sorted(map(str, b['clause'])))),
                data=dict(verdict=b, trace=t))

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(EVID, exist_ok=True)
        rp = ''
        old = os.path.join(EVID, 'replay', '%s.json' % self.prop)
        if os.path.exists(old):
            os.remove(old)
        if self.violations:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s.json' % self.prop)
            with open(rp, 'w') as f:
                json.dump(self.violations[:50], f, indent=1, default=str)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   events_validated=self.events,
                   spec_behaviours_replayed=self.behaviours,
                   event_kinds=dict(sorted(self.opcount.items(), key=lambda kv: -kv[1])[:60]),
                   samples=self.samples[:3] or ['(none)'])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=cov, assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(self.violations))
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for v in self.violations[:6]:
            say('  - ' + v['what'][:1200])
        if self.violations:
            say('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        say('OK property=%s states=%d transitions=%d traces=%d events=%d behaviours=%d %.1fs' % (
            self.prop, self.states, self.transitions, self.traces, self.events, self.behaviours, wall))
        return 0


def tail(s, n=3500):
    return s[-n:]


def errlines(out):
    i = out.find('Error:')
    return out[i:i + 700] + out[-2600:] if i >= 0 else tail(out)


def clip(o, n=900):
    s = json.dumps(o, default=str)
    return o if len(s) <= n else s[:n] + '...'


def read_csv_json(path):
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    v = json.loads(line)
                    out.append(json.loads(v) if isinstance(v, str) else v)
    return out


def load_known(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def norm(o):
    """JSON-normalise (tuples to lists, etc.)."""
    return json.loads(json.dumps(o))


def same(a, b):
    """Equality between a spec observation (through TLC's ToJson) and a real
    one: an empty sequence and an empty record are one value in TLA+ JSON."""
    if isinstance(a, (list, dict)) and isinstance(b, (list, dict)) and not a and not b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


class Area:
    """Driver of one area: binds ApplyOp of a spec to the real code."""
    def new(self, init):
        raise NotImplementedError

    def apply(self, sut, op):
        raise NotImplementedError

    def close(self, sut):
        pass

    def replay(self, ctx, behaviours, what='replay'):
        """Drive the real code through behaviours the specification generated."""
        nbad = 0
        for b in behaviours:
            sut = self.new(b['init'])
            try:
                for i, e in enumerate(b['ops']):
                    got = norm(self.apply(sut, e['op']))
                    exp = e['obs']
                    if 'any' in exp:
                        continue
                    if not same(exp, got):
                        cl = sorted(k for k in set(exp) | set(got)
                                    if not same(exp.get(k), got.get(k)))
                        ctx.violation('%s: event %d %s: clause %s expected %s got %s' % (
                            what, i + 1, clip(e['op']), cl, clip(exp), clip(got)),
                            key='%s:%s' % (e['op'].get('k', '?'), ','.join(cl)),
                            data=dict(behaviour=b, event=i + 1, expected=exp, got=got))
                        nbad += 1
                        break
            finally:
                self.close(sut)
            if nbad >= 20:
                break
        ctx.traces += len(behaviours)
        ctx.events += sum(len(b['ops']) for b in behaviours)
        for b in behaviours:
            for e in b['ops']:
                k = str(e['op'].get('k', '?')) + '/' + str(e['obs'].get('res', ''))[:24]
                ctx.opcount[k] = ctx.opcount.get(k, 0) + 1
        if behaviours and len(ctx.samples) < 3:
            ctx.samples.append(clip(behaviours[len(behaviours) // 2]))

    def record(self, ident, init, ops):
        """Run ops (list or generator fed with observations) on the real code."""
        sut = self.new(init)
        out = []
        try:
            if hasattr(ops, 'send'):
                try:
                    op = next(ops)
                    while True:
                        obs = norm(self.apply(sut, op))
                        out.append(dict(op=op, obs=obs))
                        op = ops.send(obs)
                except StopIteration:
                    pass
            else:
                for op in ops:
                    out.append(dict(op=op, obs=norm(self.apply(sut, op))))
        finally:
            self.close(sut)
        return dict(id=str(ident), init=init, ops=norm(out))


def exc(e):
    return 'exc:' + type(e).__name__


def main(prop, tier, fn):
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    sys.stdout = sys.stderr = open(os.devnull, 'w')      # the code under test may chatter
    ctx = Ctx(prop, tier)
    try:
        fn(ctx)
        return ctx.finish()
    except CheckError as e:
        say('CHECK-ERROR property=%s %s' % (prop, e))
    except Exception:
        say(traceback.format_exc())
        say('CHECK-ERROR property=%s (driver exception)' % prop)
    if ctx.violations:     # a violation already established stands
        return ctx.finish()
    shutil.rmtree(ctx.scratch, ignore_errors=True)
    return 3
