"""mutate.py WORKER PROP[:N] ... : random mutants of the files a property is anchored in, run against its quick check.
Missed mutants are run against the test suite; those that pass it are written to /tmp/mut/survivors.jsonl."""
import ast, json, os, random, shutil, subprocess, sys
W = sys.argv[1]
R, V = '/tmp/mut/repo%s' % W, '/tmp/mut/verif%s' % W
os.makedirs('/tmp/mut', exist_ok=True)
for d, s in ((R, os.environ.get('VF_REPO', '/repo')), (V, '/verif')):
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', s, d])
shutil.rmtree(V + '/seeded', ignore_errors=True)
PROPS = {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl'))}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Mult}


def sites(tree):
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
                out += [('cmp', n, fn)] * 2
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | isinstance(getattr(n.left, 'value', 0), str):
                out.append(('bin', n, fn))
            elif isinstance(n, ast.BoolOp):
                out += [('bool', n, fn), ('drop', n, fn)]
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                out.append(('un', n, fn))
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
                out.append(('const', n, fn))
            elif isinstance(n, ast.If):
                out.append(('if', n, fn))
            elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                out.append(('del', n, fn))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'list', 'dict', 'deepcopy', 'sorted', 'abs', 'any', 'all'):
                out += [('call', n, fn)] * 2
            elif isinstance(n, (ast.Continue, ast.Break)):
                out.append(('loop', n, fn))
    return out


def mutate(src, rng):
    tree = ast.parse(src)
    k, n, fn = rng.choice(sites(tree))
    seg = ast.get_source_segment(src, n)
    lines = src.splitlines(keepends=True)
    m = None
    if k == 'cmp':
        n.ops[0] = CMP[type(n.ops[0])]()
    elif k == 'bin':
        n.op = BIN[type(n.op)]()
    elif k == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == 'drop':
        n.values.pop(rng.randrange(len(n.values)))
    elif k == 'un':
        m = n.operand
    elif k == 'const':
        v = n.value
        n.value = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else v * 2 if v else 1.0
    elif k == 'if':
        m = ast.If(test=ast.Constant(rng.random() < .5), body=n.body, orelse=n.orelse)
        cond = ast.get_source_segment(src, n.test)
    elif k == 'del':
        m = ast.Pass()
    elif k == 'call':
        f = n.func.id
        if f in ('min', 'max', 'any', 'all'):
            n.func.id = dict(min='max', max='min', any='all', all='any')[f]
        elif len(n.args) == 1:
            m = n.args[0]
        else:
            return None
    elif k == 'loop':
        m = ast.Break() if isinstance(n, ast.Continue) else ast.Continue()
    if k == 'if':       # replace the condition text only
        t, new = n.test, ast.unparse(m.test)
    else:
        t, new = n, ast.unparse(m if m is not None else n)
        if k in ('cmp', 'bin', 'bool', 'drop', 'un'):
            new = '(' + new + ')'
    if '"""' in new or "'''" in new:
        return None
    a = sum(len(x) for x in lines[:t.lineno - 1]) + len(lines[t.lineno - 1].encode()[:t.col_offset].decode())
    b = sum(len(x) for x in lines[:t.end_lineno - 1]) + len(lines[t.end_lineno - 1].encode()[:t.end_col_offset].decode())
    out = src[:a] + new + src[b:]
    try:
        compile(out, 'x', 'exec')
    except SyntaxError:
        return None
    if out == src:
        return None
    return out, '%s:%d %s | %s -> %s' % (fn.name, t.lineno, k, src[a:b][:160].replace('\n', ' '), new[:160].replace('\n', ' '))


seed = int(os.environ.get('MSEED', '1'))
for spec in sys.argv[2:]:
    prop, _, num = spec.partition(':')
    only = None
    rng = random.Random('%s %s %d' % (W, prop, seed))
    files = [f for f in (x.split(':')[0].split(' ')[0] for x in PROPS[prop]['anchors']['files']) if f.endswith('.py') and os.path.exists(os.path.join(R, f))]
    for i in range(int(num or 8)):
        f = rng.choice(files)
        p = os.path.join(R, f)
        src = open(p).read()
        m = None
        while m is None:
            m = mutate(src, rng)
        open(p, 'w').write(m[0])
        try:
            try:
                r = subprocess.run([V + '/check', prop], env=dict(os.environ, VF_REPO=R, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                res = {0: 'missed', 1: 'caught'}.get(r.returncode, 'error%d' % r.returncode)
            except subprocess.TimeoutExpired:
                res = 'timeout'
            if res == 'missed':
                try:
                    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-n', '3', '--timeout=300', '-m', 'not visual', '--ignore=tests/test_fasteners.py', 'tests'], cwd=R,
                                       env=dict(os.environ, PYTHONPATH=R + '/src', VISUALTEST='false', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1'),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                    res = 'SURVIVES' if t.returncode == 0 else 'tests'
                except subprocess.TimeoutExpired:
                    res = 'tests'
            with open('/tmp/mut/log%s.txt' % W, 'a') as o:
                o.write('%s %s %s %s\n' % (res, prop, f, m[1]))
            if res in ('SURVIVES',) or res.startswith('error'):
                with open('/tmp/mut/survivors.jsonl', 'a') as o:
                    o.write(json.dumps(dict(prop=prop, file=f, what=m[1], res=res)) + '\n')
        finally:
            open(p, 'w').write(src)
