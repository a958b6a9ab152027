"""Binds Prov.tla to yapcad.dsl.runtime.provenance and the provenance of runs."""
import json
from ..core import Area, exc

# (none of the visible ones occurs in the programs, so every character has one code)
CH = {0: 'k', 1: 'w', 2: 'W', 3: '{', 4: '7', 5: '\u00e9', 6: '#', 20: ' ', 21: '\t', 22: '\n', 23: '\r'}
# programs, written in characters above 100 so that the specification can treat them as text
PROG = 'module %s\ndef %s(n: int, x: float = 0.5, s: string = "", l: list[int] = [], b: bool = true) -> int:\n' \
       '    require n < 100, "big"\n    emit n\n'


def ptext(t):
    return ''.join(CH.get(c, chr(c - 100) if c >= 100 else '?') for c in t)


def enc(s):
    inv = {' ': 20, '\t': 21, '\n': 22, '\r': 23}
    return [inv.get(c, 100 + ord(c)) for c in s]


class Prov(Area):
    def new(self, init):
        return []

    def apply(self, sigs, op):
        from yapcad.dsl.runtime import provenance as P
        from yapcad.dsl.runtime.interpreter import compile_and_run
        try:
            t = ptext(op['text'])
            if op['k'] == 'sign':
                s = P.compute_source_signature(t)
                o = dict(res='ok', same=[s == x for x in sigs])
                sigs.append(s)
                return o
            if op['k'] == 'verify':
                return dict(res='ok', ok=[bool(P.verify_source_signature(t, x)) for x in sigs])
            params = {p['n']: p['v'] for p in op['params']}
            given = json.loads(json.dumps(params))
            r = compile_and_run(t, op['cmd'], params)
            p = r.provenance
            if p is None:
                return dict(res='noprov', err=str(r.error_message))
            res = 'ok' if r.success else ('require' if r.require_failures and not r.error_message else 'error')
            q = P.Provenance.from_dict(json.loads(p.to_json()))
            back = (q.module_name, q.command_name, q.version, q.parameters, q.source_signature, q.timestamp, q.extra) == \
                   (p.module_name, p.command_name, p.version, p.parameters, p.source_signature, p.timestamp, p.extra) \
                and params == given
            o = dict(res=res, mod=p.module_name, cmd=p.command_name,
                     params=[dict(n=k, v=v) for k, v in p.parameters.items()], back=back,
                     same=[p.source_signature == x for x in sigs])
            sigs.append(p.source_signature)
            return o
        except Exception as e:
            return dict(res=exc(e), msg=str(e)[:100])


def vary(rng, t):
    """an edit that may or may not change the canonical text"""
    t = list(t)
    q = rng.random()
    ws = [20, 21, 22, 23]
    if q < .2:
        t = [rng.choice(ws) for _ in range(rng.randint(0, 3))] + t
    elif q < .4:
        t = t + [rng.choice(ws) for _ in range(rng.randint(0, 3))]
    elif q < .6:
        r = rng.choice([[22], [23], [23, 22], [22, 23]])
        t = [y for x in t for y in (r if x == 22 and rng.random() < .9 else [x])]
    elif q < .75:
        t = [y for i, x in enumerate(t) for y in ([22] if x == 23 else [x]) if not (x == 22 and i and t[i - 1] == 23)]
    elif t:
        i = rng.randrange(len(t))
        t[i:i + rng.choice([0, 1])] = [rng.choice([20, 21, 22, 23, 0, 1, 2])]
    return t


def ops(rng, n):
    pool = [[rng.choice([0, 1, 2, 3, 4, 5, 6, 20, 20, 21, 22, 22, 23, 23]) for _ in range(rng.randint(0, 9))] for _ in range(2)]
    progs = [enc(PROG % (rng.choice(['m', 'gear_design', 'M2']), rng.choice(['C', 'MAKE_IT']))) for _ in range(2)]
    for _ in range(n):
        q = rng.random()
        if q < .25:
            t = rng.choice(progs)
            while rng.random() < .6:
                t = vary(rng, t)
                if 23 in t or any(c < 20 for c in t):       # not a program the lexer takes
                    t = rng.choice(progs)
            src = ptext(t)
            try:
                mod = src.split('module ')[1].split()[0]
                cmd = src.split('def ')[1].split('(')[0]
            except IndexError:
                continue
            from yapcad.dsl.runtime.interpreter import compile_and_run
            big = rng.random() < .3
            ps = [dict(n='n', v=rng.randint(100, 200) if big else rng.randint(-5, 99))]
            for nm, v in [('s', rng.choice(['', 'q', 'a"b'])), ('l', [rng.randint(0, 9) for _ in range(rng.randint(0, 3))]),
                          ('b', rng.random() < .5)]:
                if rng.random() < .5:
                    ps.append(dict(n=nm, v=v))
            rng.shuffle(ps)
            if not compile_and_run(src, cmd, {'n': 1}).success:      # the edit broke the program
                continue
            yield dict(k='exec', text=t, mod=mod, cmd=cmd, params=ps, fails=big)
        else:
            t = vary(rng, rng.choice(pool + progs))
            pool.append(t)
            yield dict(k='sign' if q < .7 else 'verify', text=t)


def provenance_check(ctx):
    a = Prov()
    tr = [a.record('v%d' % i, 0, ops(ctx.rng, 12)) for i in range(ctx.n(300, 3000))]
    ctx.report_bads(ctx.validate('ProvTrace', tr), tr, 'provenance')
