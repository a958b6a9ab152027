"""yapCAD DSL: binds Dsl.tla to yapcad.dsl (lexer, parser, checker, interpreter)."""
import math, signal
from fractions import Fraction
from ..core import Area, norm, exc

S = 64
PREC = {'or': 1, 'and': 2, '==': 3, '!=': 3, '<': 4, '>': 4, '<=': 4, '>=': 4, '+': 5, '-': 5,
        '*': 6, '/': 6, '//': 6, '%': 6, '**': 7}

# ------------------------------------------------------------------ rendering


def num_text(v, isint):
    if isint:
        return str(v // S)
    f = Fraction(v, S)
    return repr(float(f)) if f.denominator > 1 or True else ''


class Render:
    """Source text of a module; rng varies the layout, never the meaning."""
    def __init__(self, rng, brace=False):
        self.rng, self.brace = rng, brace

    def e(self, e, ctx=0):
        t, p = self.raw(e)
        if p < ctx or (p < 9 and self.rng.random() < .08):
            return '(' + t + ')'
        return t

    def sp(self):
        return self.rng.choice([' ', ' ', '  ']) if self.rng else ' '

    def raw(self, e):
        """text and binding strength (0 ternary .. 7 power, 8 unary, 10 atoms)"""
        k = e['k']
        if k == 'num':
            return num_text(e['v'], e['int']), 10
        if k == 'bool':
            return self.rng.choice([['false', 'False'], ['true', 'True']][e['v']]), 10
        if k == 'str':
            q = self.rng.choice(['"', "'"])
            return q + e['v'].replace('\\', '\\\\').replace('"', '\\"').replace("'", "\\'") + q, 10
        if k == 'var':
            return e['n'], 10
        if k == 'bin':
            p = PREC[e['op']]
            if e['op'] == '**':
                l, r = self.e(e['l'], 9), self.e(e['r'], 7)
            else:
                l, r = self.e(e['l'], p), self.e(e['r'], p + 1)
            return l + self.sp() + e['op'] + self.sp() + r, p
        if k == 'un':
            if e['op'] == 'not':
                return 'not ' + self.e(e['e'], 8), 8
            return '-' + self.e(e['e'], 8), 8
        if k == 'call':
            a = [self.e(x) for x in e['args']] + [x['n'] + '=' + self.e(x['e']) for x in e['named']]
            return e['f'] + '(' + self.join(a) + ')', 10
        if k == 'idx':
            return self.e(e['e'], 10) + '[' + self.e(e['i']) + ']', 10
        if k == 'list':
            return '[' + self.join([self.e(x) for x in e['es']]) + ']', 10
        if k == 'range':
            return '[' + self.e(e['a'], 1) + ' .. ' + self.e(e['b'], 1) + ']', 10
        if k == 'comp':
            s = '[' + self.e(e['e'], 1)
            for c in e['cl']:
                s += self.brk() + 'for ' + c['v'] + ' in ' + self.e(c['it'], 1)
                for d in c['conds']:
                    s += self.brk() + 'if ' + self.e(d, 1)
            return s + ']', 10
        if k == 'tern':
            return self.e(e['t'], 1) + ' if ' + self.e(e['c'], 1) + ' else ' + self.e(e['f'], 0), 0
        raise KeyError(k)

    def brk(self):      # inside brackets a line break is a space
        return self.rng.choice([' '] * 12 + ['\n   ', '\n', '  # note\n  '])

    def join(self, xs):
        s = ''
        for i, x in enumerate(xs):
            s += (',' + self.brk() if i else '') + x
        return s

    def ty(self, t):
        s = t[0]
        for _ in range(t[1]):
            s = ('list[%s]' if self.rng.random() < .5 else 'list<%s>') % s
        return s

    def block(self, b, ind):
        if self.brace:
            return ' {\n' + ''.join(self.stmt(s, ind + 2) for s in b) + ' ' * ind + '}\n'
        n = ind + self.rng.choice([1, 2, 2, 4, 4, 7])
        body = b or [dict(k='pass')]
        return '\n' + ''.join(self.junk(n) + self.stmt(s, n) for s in body)

    def junk(self, ind):
        r = self.rng.random()
        if r < .04:
            return '\n'
        if r < .08:
            return ' ' * self.rng.choice([0, 1, ind, ind + 3]) + '# comment: if emit {\n'
        if r < .1:
            return ' ' * self.rng.choice([0, ind, ind + 5]) + '/* block\n comment */\n'
        return ''

    def end(self):
        if self.brace:
            return ';\n'
        return self.rng.choice(['\n', '\n', '\n', '  # trailing\n', '\n\n', '   \n'])

    def stmt(self, s, ind):
        k, pre = s['k'], ' ' * ind
        if not self.brace and self.rng.random() < .03:
            pre += '/* c */ '
        if k == 'def':
            if s['ty'][0]:
                if self.brace or self.rng.random() < .4:
                    return pre + 'let %s: %s = %s' % (s['n'], self.ty(s['ty']), self.e(s['e'])) + self.end()
                return pre + '%s: %s = %s' % (s['n'], self.ty(s['ty']), self.e(s['e'])) + self.end()
            return pre + 'let %s = %s' % (s['n'], self.e(s['e'])) + self.end()
        if k == 'set':
            return pre + '%s = %s' % (s['n'], self.e(s['e'])) + self.end()
        if k == 'req':
            m = ', ' + self.e(s['m']) if s['hasmsg'] else ''
            return pre + self.rng.choice(['require ', 'assert ']) + self.e(s['c']) + m + self.end()
        if k == 'emit':
            m = ''
            if s['meta']:
                if self.rng.random() < .5:
                    m = ''.join(', %s=%s' % (x['n'], self.e(x['e'])) for x in s['meta'])
                else:
                    m = ' with {' + ', '.join('%s: %s' % (x['n'], self.e(x['e'])) for x in s['meta']) + '}'
            return pre + 'emit ' + self.e(s['e']) + m + self.end()
        if k == 'for':
            return pre + 'for %s in %s:' % (s['v'], self.e(s['it'])) + self.block(s['body'], ind)
        if k == 'if':
            o = ''
            for i, a in enumerate(s['arms']):
                o += (pre if not i else ' ' * ind) + ('if ' if not i else 'elif ') + self.e(a['c']) + ':' + \
                    self.block(a['body'], ind)
            if s['hasels']:
                o += ' ' * ind + 'else:' + self.block(s['els'], ind)
            return o
        if k == 'expr':
            return pre + self.e(s['e']) + self.end()
        if k == 'pass':
            return pre + 'pass' + self.end()
        if k == 'ret':
            return pre + 'return' + self.end()
        raise KeyError(k)

    def cmd(self, c):
        ps = []
        for p in c['params']:
            ps.append('%s: %s' % (p['n'], self.ty(p['ty'])) + (' = ' + self.e(p['d']) if p['has'] else ''))
        head = c['n'] + '(' + self.join(ps) + ') -> ' + self.ty(c['ret'])
        if self.brace:
            return 'command ' + head + self.block(c['body'], 0)
        return self.rng.choice(['def ', 'def ', 'command ']) + head + ':' + self.block(c['body'], 0)

    def module(self, cmds, name='m'):
        s = 'module %s%s' % (name, ';\n' if self.brace else '\n')
        for c in cmds:
            s += self.rng.choice(['', '\n', '# c\n']) + self.cmd(c)
        return s


# ------------------------------------------------------------------- generator
INT, FLT, BOO, STR = ['int', 0], ['float', 0], ['bool', 0], ['string', 0]
VARS = ['a', 'b', 'c', 'x', 'y', 'n']


def lst(t):
    return [t[0], t[1] + 1]


def num(v, isint=True):
    return dict(k='num', v=int(v * S), int=isint)


class Gen:
    """Random modules, biased towards name reuse, nesting and helper calls."""
    def __init__(self, rng, illtyped=0.0, reqs=0.3):
        self.r, self.ill, self.reqs = rng, illtyped, reqs
        self.cmds = []
        self.nreq = 0

    def pick(self, env, t, promo=True):
        seen, out = set(), []
        for sc in reversed(env):
            for n, ty in sc.items():
                if n not in seen:
                    seen.add(n)
                    if ty == t or (promo and t == FLT and ty == INT):
                        out.append(n)
        return self.r.choice(out) if out else None

    def expr(self, env, t, d):
        r = self.r
        if self.ill and r.random() < self.ill:
            if t[0] in ('int', 'float') and r.random() < .5:      # the other number type
                t = [FLT[0] if t[0] == INT[0] else INT[0], t[1]]
            else:
                t = r.choice([INT, FLT, BOO, STR, lst(INT), lst(FLT), lst(BOO)])
            if r.random() < .1:
                return dict(k='var', n=r.choice(VARS))
        if r.random() < (.35 if d > 0 else .7):
            v = self.pick(env, t)
            if v:
                return dict(k='var', n=v)
        hs = [c for c in self.cmds if c['ret'] == t or (t == FLT and c['ret'] == INT)]
        if d > 0 and hs and r.random() < .22:
            return self.call(env, r.choice(hs), d)
        if t[1] > 0:
            return self.listexpr(env, t, d)
        if d > 0 and r.random() < .12:
            return dict(k='tern', c=self.expr(env, BOO, d - 1), t=self.expr(env, t, d - 1), f=self.expr(env, t, d - 1))
        if d > 0 and r.random() < .1:
            v = self.pick(env, lst(t), False)
            if v:
                return dict(k='idx', e=dict(k='var', n=v), i=num(r.randint(0, 2)) if r.random() < .7
                            else self.expr(env, INT, 0))
        if t == BOO:
            if d <= 0 or r.random() < .15:
                return dict(k='bool', v=r.random() < .5)
            q = r.random()
            if q < .35:
                return dict(k='bin', op=r.choice(['and', 'or']), l=self.expr(env, BOO, d - 1), r=self.expr(env, BOO, d - 1))
            if q < .45:
                return dict(k='un', op='not', e=self.expr(env, BOO, d - 1))
            if q < .52:
                return dict(k='call', f=r.choice(['any_true', 'all_true']), args=[self.expr(env, lst(BOO), d - 1)], named=[])
            if q < .6:
                u = r.choice([lst(INT), STR, INT, BOO])
                return dict(k='bin', op=r.choice(['==', '!=']), l=self.expr(env, u, d - 1), r=self.expr(env, u, d - 1))
            return dict(k='bin', op=r.choice(['<', '>', '<=', '>=', '==', '!=']), l=self.expr(env, r.choice([INT, FLT]), d - 1),
                        r=self.expr(env, r.choice([INT, FLT]), d - 1))
        if t == STR:
            return dict(k='str', v=r.choice(['', 'a', 'low', 'x y', 'it"s', "q'", 'b\\n']))
        if d <= 0 or r.random() < .15:
            return num(r.randint(0, 5)) if t == INT else num(r.choice([0, .5, 1.25, 2, 3.75, 4]), False)
        q = r.random()
        if t == INT:
            if q < .6:
                op = r.choice(['+', '-', '*', '+', '-', '//', '%', '**'])
                if op == '**':
                    return dict(k='bin', op=op, l=self.small(env, INT, d - 1),
                                r=num(r.randint(0, 3)) if r.random() < .8 else
                                dict(k='bin', op='**', l=num(r.randint(0, 2)), r=num(r.randint(0, 2))))
                return dict(k='bin', op=op, l=self.expr(env, INT, d - 1),
                            r=self.small(env, INT, d - 1) if op == '*' else self.expr(env, INT, d - 1))
            if q < .66:
                return dict(k='un', op='-', e=self.expr(env, INT, d - 1))
            if q < .76:
                return dict(k='call', f='len', args=[self.expr(env, lst(r.choice([INT, BOO])), d - 1)], named=[])
            if q < .86:
                return dict(k='call', f=r.choice(['floor', 'ceil', 'round']), args=[self.expr(env, FLT, d - 1)], named=[])
            return num(r.randint(0, 9))
        if q < .45:
            op = r.choice(['+', '-', '*', '/', '%'])
            t2 = r.choice([FLT, INT])
            return dict(k='bin', op=op, l=self.expr(env, FLT, d - 1),
                        r=self.small(env, t2, d - 1) if op == '*' else self.expr(env, t2, d - 1))
        if q < .52:
            return dict(k='bin', op='/', l=self.expr(env, INT, d - 1), r=num(r.choice([1, 2, 4, 8])))
        if q < .6:
            return dict(k='un', op='-', e=self.expr(env, FLT, d - 1))
        if q < .72:
            return dict(k='call', f=r.choice(['min', 'max']), named=[],
                        args=[self.expr(env, r.choice([FLT, INT]), d - 1) for _ in range(r.choice([2, 2, 3]))])
        if q < .78:
            return dict(k='call', f='abs', args=[self.expr(env, FLT, d - 1)], named=[])
        if q < .95:
            return dict(k='call', f=r.choice(['sum', 'sum', 'product', 'min_of', 'max_of']),
                        args=[self.expr(env, lst(r.choice([INT, FLT])), d - 1)], named=[])
        return num(r.choice([.25, .5, 2.5]), False)

    def small(self, env, t, d):
        """an operand of bounded size (products and powers in loops stay small)"""
        if self.r.random() < .5:
            return num(self.r.randint(0, 4)) if t == INT else num(self.r.choice([.5, 1.5, 2]), False)
        return dict(k='bin', op='%', l=self.expr(env, t, d), r=num(self.r.randint(2, 5)))

    def grow(self, env, v, t):
        """a list variable updated inside a loop grows by at most one element"""
        el = [t[0], t[1] - 1]
        x, one = dict(k='var', n=v), dict(k='list', es=[self.expr(env, el, 1 if el[1] == 0 else 0)])
        return self.r.choice([dict(k='bin', op='+', l=x, r=one), dict(k='bin', op='+', l=one, r=x),
                              dict(k='call', f='concat', args=[x, one], named=[]),
                              dict(k='call', f='reverse', args=[x], named=[]), one])

    def listexpr(self, env, t, d):
        r = self.r
        el = [t[0], t[1] - 1]
        q = r.random()
        if d <= 0 or q < .3:
            return dict(k='list', es=[self.expr(env, el, d - 1) for _ in range(r.choice([1, 1, 2, 3]))])
        if q < .4:
            l, u = t, t
            if t == lst(FLT):           # lists of both number types add up to a list of floats
                l, u = r.choice([(t, t), (lst(INT), t), (t, lst(INT))])
            return dict(k='bin', op='+', l=self.expr(env, l, d - 1), r=self.expr(env, u, d - 1))
        if q < .5:
            return dict(k='call', f='concat', args=[self.expr(env, t, d - 1), self.expr(env, t, d - 1)], named=[])
        if q < .57:
            return dict(k='call', f='reverse', args=[self.expr(env, t, d - 1)], named=[])
        if q < .62 and t[1] == 1:
            return dict(k='call', f='flatten', args=[self.expr(env, lst(t), d - 1)], named=[])
        if t == lst(INT) and q < .74:
            if r.random() < .5:
                return dict(k='range', a=num(r.randint(0, 3)), b=self.expr(env, INT, 0))
            return dict(k='call', f='range', named=[],
                        args=[[num(r.randint(0, 5))], [num(r.randint(0, 3)), num(r.randint(0, 7))],
                              [num(r.randint(0, 9)), num(r.randint(0, 9)),
                               dict(k='un', op='-', e=num(r.randint(1, 3))) if r.random() < .4 else num(r.randint(0, 3))]][r.randrange(3)])
        n = r.choice([1, 1, 2, 2, 3])
        e2 = env + [{}]
        cl = []
        for i in range(n):
            it = r.choice([INT, INT, FLT, BOO]) if r.random() < .8 else lst(INT)
            itx = self.expr(e2, lst(it), d - 1)
            v = r.choice(VARS)
            e2 = e2[:-1] + [dict(e2[-1], **{v: it})]
            cl.append(dict(v=v, it=itx, conds=[self.expr(e2, BOO, d - 1) for _ in range(r.choice([0, 0, 1, 1, 2]))]))
        return dict(k='comp', e=self.expr(e2, el, d - 1), cl=cl)

    def call(self, env, c, d):
        r = self.r
        args, named = [], []
        for p in c['params']:
            x = self.expr(env, p['ty'], d - 1)
            if p['has'] and r.random() < .4:
                if named or r.random() < .5:
                    named.append(None)
                    continue
                named.append(None)
                continue
            if named or r.random() < .2:
                named.append(dict(n=p['n'], e=x))
            else:
                args.append(x)
        named = [x for x in named if x]
        if self.ill and r.random() < self.ill * 3:
            q = r.random()
            if q < .3 and args:
                args.pop()
            elif q < .6:
                args.append(num(1))
            elif q < .8:
                named.append(dict(n='zz', e=num(1)))
        return dict(k='call', f=c['n'], args=args, named=named)

    def stmts(self, env, ret, d, n, loop=0):
        r = self.r
        out = []
        for i in range(n):
            q = r.random()
            if q < .2:
                t = r.choice([INT, INT, FLT, BOO, lst(INT), lst(FLT), lst(BOO), STR])
                v = r.choice(VARS)
                if v in env[-1] and r.random() < .93:
                    q = .25
                else:
                    ann = r.random() < .6
                    e = self.expr(env, t, 2)
                    if t[1] > 0 and r.random() < .12:       # the empty list needs its type declared
                        e, ann = dict(k='list', es=[]), True
                    out.append(dict(k='def', n=v, ty=t if ann else ['', 0], e=e))
                    env[-1][v] = t if ann else self.tyof(env, e, t)
            if .2 <= q < .42:
                vs = {}
                for sc in env:
                    vs.update(sc)
                if vs and r.random() < .8:
                    v = r.choice(sorted(vs))
                    out.append(dict(k='set', n=v, ty=['', 0], e=self.grow(env, v, vs[v]) if loop and vs[v][1] > 0
                                    else self.expr(env, vs[v], 2)))
                else:
                    v = r.choice(VARS)
                    t = vs.get(v) or r.choice([INT, FLT, BOO])
                    e = self.expr(env, t, 2)
                    out.append(dict(k='set', n=v, ty=['', 0], e=e))
                    if v not in vs:
                        env[-1][v] = self.tyof(env, e, t)
            elif .42 <= q < .42 + .18 * self.reqs / .3 * .9:
                self.nreq += 1
                hm = r.random() < .8
                out.append(dict(k='req', c=self.expr(env, BOO, 2), hasmsg=hm,
                                m=dict(k='str', v='r%d' % self.nreq) if hm else num(0)))
            elif q < .72 and d > 0 and loop < 2:
                t = r.choice([INT, INT, FLT, BOO, STR])
                it = self.expr(env, lst(t), 1)
                v = r.choice(VARS)
                sc = {v: t}
                out.append(dict(k='for', v=v, it=it, body=self.stmts(env + [sc], ret, d - 1, r.randint(1, 3), loop + 1)))
                env[-1].update(self.leak(sc))
            elif q < .88 and d > 0:
                arms = []
                leak = {}           # (ill) names of earlier branches used in later ones
                for _ in range(r.choice([1, 1, 2, 3])):
                    c = self.expr(env + [leak], BOO, 2)
                    sc = {}
                    arms.append(dict(c=c, body=self.stmts(env + [leak, sc], ret, d - 1, r.randint(1, 2), loop)))
                    leak = self.leak(sc)
                h = r.random() < .5
                out.append(dict(k='if', arms=arms, hasels=h,
                                els=self.stmts(env + [leak, {}], ret, d - 1, r.randint(1, 2), loop) if h else []))
                env[-1].update(self.leak(sc))
            elif q < .92:
                hs = self.cmds
                if hs:
                    out.append(dict(k='expr', e=self.call(env, r.choice(hs), 2)))
            elif q < .96:
                out.append(self.emit(env, ret))
            elif q < .97:
                out.append(dict(k='ret'))
            elif q < .98:
                out.append(dict(k='pass'))
        return out

    def leak(self, sc):
        return dict(sc) if self.ill and self.r.random() < self.ill * 6 else {}

    def tyof(self, env, e, t):
        """declared type of an unannotated variable: int expressions stay int"""
        if t == FLT or t == lst(FLT):
            return infer(self.cmds, env, e) or t
        return t

    def emit(self, env, ret):
        r = self.r
        return dict(k='emit', e=self.expr(env, ret, 2),
                    meta=[dict(n=n, e=self.expr(env, r.choice([INT, STR, BOO]), 1))
                          for n in r.sample(['name', 'mat', 'q'], r.choice([0, 0, 1, 2]))])

    def command(self, name, ret=None):
        r = self.r
        ret = ret or r.choice([INT, INT, FLT, BOO, lst(INT), lst(FLT), STR])
        env = [{}]
        ps = []
        hasd = False
        for v in r.sample(VARS, r.choice([0, 1, 2, 3])):
            t = r.choice([INT, INT, FLT, BOO, lst(INT)])
            hasd = hasd or r.random() < .3
            p = dict(n=v, ty=t, has=hasd, d=self.expr([{}], t, 1) if hasd else num(0))
            ps.append(p)
            env[0][v] = t
        body = self.stmts(env, ret, 2, r.randint(1, 5))
        if r.random() < .93:
            body.append(self.emit(env, ret))
        if r.random() < .15:
            body += self.stmts(env, ret, 1, 2)
        return dict(n=name, params=ps, ret=ret, body=body)

    def module(self):
        for i in range(self.r.choice([1, 2, 2, 3, 4])):
            self.cmds.append(self.command(['H%d', 'h%d', 'Q%d'][self.r.randrange(3)] % i))
        if self.ill and self.r.random() < .1:
            self.r.shuffle(self.cmds)
        return self.cmds

    def value(self, t):
        r = self.r
        if t[1] > 0:
            return [self.value([t[0], t[1] - 1]) for _ in range(r.randint(0, 3))]
        return {'int': lambda: r.randint(-3, 6), 'float': lambda: r.choice([0.5, 1, -2.25, 3.0]),
                'bool': lambda: r.random() < .5, 'string': lambda: r.choice(['', 'p'])}[t[0]]()


def infer(cmds, env, e):
    """int or float for a numeric expression of expected type float (or list)"""
    k = e['k']
    if k == 'num':
        return INT if e['int'] else FLT
    if k == 'var':
        for sc in reversed(env):
            if e['n'] in sc:
                return sc[e['n']]
        return FLT
    if k == 'un':
        return infer(cmds, env, e['e'])
    if k == 'bin':
        if e['op'] == '/':
            return FLT
        if e['op'] == '//':
            return INT
        l, r = infer(cmds, env, e['l']), infer(cmds, env, e['r'])
        if l[1]:
            if l == ['?', 1]:
                return r
            return l if l == r or r == ['?', 1] else lst(FLT)
        return INT if l == r == INT else FLT
    if k == 'tern':
        l, r = infer(cmds, env, e['t']), infer(cmds, env, e['f'])
        return l if l == r else ([FLT, lst(FLT)][min(1, l[1])])
    if k == 'call':
        if e['f'] in ('floor', 'ceil', 'round', 'len'):
            return INT
        if e['f'] in ('concat', 'reverse'):
            return infer(cmds, env, e['args'][0])
        if e['f'] == 'flatten':
            t = infer(cmds, env, e['args'][0])
            return [t[0], t[1] - 1] if t[1] > 1 else lst(FLT)
        for c in cmds:
            if c['n'] == e['f']:
                return c['ret']
        if e['f'] == 'range':
            return lst(INT)
        return FLT
    if k == 'idx':
        t = infer(cmds, env, e['e'])
        return [t[0], t[1] - 1]
    if k == 'range':
        return lst(INT)
    if k == 'list':
        ts = [infer(cmds, env, x) for x in e['es']]
        if not ts:
            return ['?', 1]
        if all(t == ts[0] for t in ts):
            return lst(ts[0])
        return lst([t for t in ts if t != INT][0])
    if k == 'comp':
        e2 = env + [{}]
        for c in e['cl']:
            t = infer(cmds, e2, c['it'])
            e2 = e2[:-1] + [dict(e2[-1], **{c['v']: [t[0], t[1] - 1]})]
        return lst(infer(cmds, e2, e['e']))
    return {'bool': BOO, 'str': STR}.get(k, FLT)


# -------------------------------------------------------------------- the driver
def val(v):
    if isinstance(v, bool):
        return dict(t='bool', v=v)
    if isinstance(v, (int, float)):
        if isinstance(v, float) and not math.isfinite(v):
            return dict(t='num', v=str(v))
        x = Fraction(v) * S
        if x.denominator != 1 or abs(x) > 2 ** 30:
            return dict(t='num', v='off-grid %r' % v)
        return dict(t='num', v=int(x))
    if isinstance(v, str):
        return dict(t='str', v=v)
    if isinstance(v, (list, tuple)):
        return dict(t='list', v=[val(x) for x in v])
    return dict(t='other', v=type(v).__name__)


def raw(v, ty):
    """parameter value from its encoding"""
    if v['t'] == 'list':
        return [raw(x, ty) for x in v['v']]
    if v['t'] == 'num':
        f = Fraction(v['v'], S)
        return int(f) if ty[0] == 'int' else float(f)
    return v['v']


class Overdue(BaseException):
    pass


def overdue(*a):
    raise Overdue()


class Dsl(Area):
    def new(self, init):
        return dict(src='', mod=None, it=None)

    def apply(self, sut, op):
        signal.signal(signal.SIGALRM, overdue)
        signal.setitimer(signal.ITIMER_REAL, 20)
        try:
            return self._apply(sut, op)
        except Overdue:
            return dict(res='timeout')
        except Exception as e:
            return dict(res=exc(e), msg=str(e)[:200])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def _apply(self, sut, op):
        from yapcad.dsl.lexer import tokenize
        from yapcad.dsl.parser import parse
        from yapcad.dsl.checker import check
        from yapcad.dsl.runtime.interpreter import Interpreter, compile_and_run
        k = op['k']
        if k == 'load':
            sut['src'] = op['src']
            try:
                sut['mod'] = parse(tokenize(op['src']), source=op['src'])
            except Exception as e:
                return dict(res='syntax', msg=str(e)[:200])
            sut['it'] = Interpreter(recursion_limit=op.get('lim', 100))
            c = check(sut['mod'])
            sut['ok'] = not c.has_errors
            return dict(res='ok' if sut['ok'] else 'rejected')
        if k == 'run':
            params = {a['n']: raw(a['v'], a['ty']) for a in op['args']}
            if op['via'] == 'fresh' or not sut.get('ok'):
                r = compile_and_run(sut['src'], op['cmd'], params, recursion_limit=op['lim'])
            else:
                sut['it'].recursion_limit = op['lim']
                r = sut['it'].execute(sut['mod'], op['cmd'], params, sut['src'])
            return self.result(r)
        if k == 'bigcomp':
            vs = ['i%d' % i for i in range(len(op['sizes']))]
            src = 'module b\ndef BIG() -> int:\n    emit len([1 ' + ' '.join(
                'for %s in range(%d)' % (v, n) for v, n in zip(vs, op['sizes'])) + '])\n'
            return self.result(compile_and_run(src, 'BIG', {}))
        raise KeyError(k)

    def result(self, r):
        if r.success:
            if r.require_failures or r.error_message:
                return dict(res='contradictory')
            return dict(res='ok', value=val(r.geometry),
                        meta=[dict(n=n, v=val(v)) for n, v in r.metadata.items()])
        if r.error_message is None:
            return dict(res='require', fails=[f.message for f in r.require_failures])
        if r.error_message == 'Command did not emit any geometry':
            return dict(res='noemit')
        if r.error_message.startswith('Type errors'):
            return dict(res='rejected')
        if r.error_message.startswith(('Lexer error', 'Parser error', 'Checker error')):
            return dict(res='syntax', msg=r.error_message[:200])
        return dict(res='error')


def program_ops(rng, g, runs, brace=None, lims=(100, 100, 2, 3)):
    m = g.module()
    src = Render(rng, rng.random() < .25 if brace is None else brace).module(m)
    obs = yield dict(k='load', mod=m, src=src, lim=100)
    for _ in range(runs):
        c = rng.choice(m)
        if rng.random() < .02:
            yield dict(k='run', cmd='NOSUCH', args=[], lim=100, via='fresh')
            continue
        args = [dict(n=p['n'], v=val(g.value(p['ty'])), ty=p['ty']) for p in c['params']
                if not p['has'] or rng.random() < .6]
        yield dict(k='run', cmd=c['n'], args=args, lim=rng.choice(lims), via=rng.choice(['fresh', 'shared', 'shared']))


def semantics_check(ctx):
    a = Dsl()
    tr = []
    for i in range(ctx.n(700, 8000)):
        tr.append(a.record('p%d' % i, 0, program_ops(ctx.rng, Gen(ctx.rng, 0), 5)))
    ctx.report_bads(ctx.validate('DslTrace', tr), tr, 'program')


def static_check(ctx):
    a = Dsl()
    tr = []
    for i in range(ctx.n(900, 9000)):
        tr.append(a.record('t%d' % i, 0, program_ops(ctx.rng, Gen(ctx.rng, ctx.rng.choice([.01, .03, .1])), 2)))
    ctx.report_bads(ctx.validate('DslTrace', tr), tr, 'static')


def require_check(ctx):
    """Programs made mostly of requirements, in loops, branches and helpers."""
    a = Dsl()
    tr = []
    for i in range(ctx.n(700, 7000)):
        tr.append(a.record('r%d' % i, 0, program_ops(ctx.rng, Gen(ctx.rng, 0, reqs=1.0), 6)))
    ctx.report_bads(ctx.validate('DslTrace', tr), tr, 'requirement')


# ------------------------------------------------- recursion and size limits
def cmd(n, params, ret, body):
    return dict(n=n, params=[dict(n=p, ty=t, has=False, d=num(0)) for p, t in params], ret=ret, body=body)


def V(n):
    return dict(k='var', n=n)


def bop(op, l, r):
    return dict(k='bin', op=op, l=l, r=r)


def callc(f, *args):
    return dict(k='call', f=f, args=list(args), named=[])


def emitc(e):
    return dict(k='emit', e=e, meta=[])


def deep_module(rng):
    """Recursive and mutually recursive commands, some failing at the bottom."""
    bottom = rng.choice([num(0), bop('//', num(1), V('n')), dict(k='idx', e=dict(k='list', es=[num(4)]), i=V('n')),
                         callc('T', V('n')), num(7)])
    pre = [[], [dict(k='req', c=bop('!=', bop('%', V('n'), num(rng.randint(2, 9))), num(0)), hasmsg=rng.random() < .5,
                     m=dict(k='str', v='q'))]][rng.random() < .4]
    step = num(rng.choice([1, 1, 2]))
    nxt = rng.choice(['F', 'G', 'F'])
    rec = bop('+', num(1), callc(nxt, bop('-', V('n'), step)))
    if rng.random() < .3:
        rec = bop('+', callc('T', V('n')), callc(nxt, bop('-', V('n'), step)))
    if rng.random() < .5:
        body = pre + [emitc(dict(k='tern', c=bop('<=', V('n'), num(0)), t=bottom, f=rec))]
    else:
        body = pre + [dict(k='if', arms=[dict(c=bop('<=', V('n'), num(0)), body=[emitc(bottom)])], hasels=False, els=[]),
                      dict(k='def', n='x', ty=INT, e=rec), emitc(V('x'))]
    g = [emitc(callc('F', V('n')))]
    if rng.random() < .3:
        g = [dict(k='for', v='i', it=dict(k='range', a=num(0), b=num(1)),
                  body=[dict(k='def', n='y', ty=INT, e=callc('F', bop('-', V('n'), num(1))))]), emitc(V('n'))]
    t = [emitc(rng.choice([V('n'), bop('*', V('n'), num(2)), bop('%', num(9), V('n'))]))]
    ms = [cmd('T', [('n', INT)], INT, t), cmd('F', [('n', INT)], INT, body), cmd('G', [('n', INT)], INT, g)]
    rng.shuffle(ms)
    return ms


def fan_module(rng):
    """Comprehensions whose clauses multiply, and one beyond the clause limit."""
    n = rng.choice([1, 2, 3, 4, 5])
    vs = ['i%d' % i for i in range(n)]
    sizes = [rng.randint(0, 5) for _ in range(n)]
    cl = [dict(v=v, it=callc('range', num(k)), conds=[bop('!=', V(v), num(rng.randint(0, 4)))] if rng.random() < .3 else [])
          for v, k in zip(vs, sizes)]
    return [cmd('B', [('n', INT)], INT, [emitc(callc('len', dict(k='comp', e=V(rng.choice(vs)), cl=cl)))])]


def limit_ops(rng):
    m = deep_module(rng) if rng.random() < .8 else fan_module(rng)
    yield dict(k='load', mod=m, src=Render(rng, rng.random() < .2).module(m), lim=100)
    names = [c['n'] for c in m]
    for _ in range(rng.randint(3, 8)):
        lim = rng.choice([0, 1, 2, 3, 5, 8, 20, 60, 100])
        n = rng.choice([0, 1, 2, lim - 1, lim, lim + 1, lim + 2, 2 * lim, rng.randint(0, 30)])
        yield dict(k='run', cmd=rng.choice(names), args=[dict(n='n', v=val(n), ty=INT)], lim=lim,
                   via=rng.choice(['shared', 'shared', 'shared', 'fresh']))


def limits_check(ctx):
    a = Dsl()
    tr = []
    for i in range(ctx.n(400, 3000)):
        tr.append(a.record('l%d' % i, 0, limit_ops(ctx.rng)))
    big = [[99999], [100000], [100001], [316, 316], [317, 316], [46, 46, 47], [47, 46, 47], [18, 17, 18, 18],
           [18, 18, 18, 18], [3, 3, 3, 3, 1], [1, 1, 1, 1, 1], [10, 0, 10000], [100000, 1], [1, 100001], [100, 10, 10, 10]]
    ctx.rng.shuffle(big)
    for i, z in enumerate(big if ctx.thorough else [[100000], [100001], [1, 1, 1, 1, 1]] + big[:4]):
        tr.append(a.record('b%d' % i, 0, [dict(k='bigcomp', sizes=z)]))
    # arbitrary faults inside ill-typed programs stay inside the result
    for i in range(ctx.n(150, 2000)):
        tr.append(a.record('f%d' % i, 0, fault_ops(ctx.rng)))
    ctx.report_bads(ctx.validate('DslTrace', tr), tr, 'limit')


def fault_ops(rng):
    """A failing run, then the same interpreter must still run correctly."""
    m = Gen(rng, 0).module()
    bad = rng.choice([bop('//', num(1), num(0)), bop('%', num(1), num(0)), bop('/', num(1), num(0)),
                      dict(k='idx', e=dict(k='list', es=[num(1)]), i=num(3)),
                      callc('range', num(1), num(5), num(0)),
                      bop('**', num(0), num(-1)) if 0 else bop('//', num(5), bop('-', num(1), num(1)))])
    depth = rng.randint(0, 3)
    ms = [cmd('Z0', [], INT, [emitc(bad)])]
    for i in range(depth):
        body = [emitc(callc('Z%d' % i))]
        if rng.random() < .3:
            body = [dict(k='for', v='a', it=dict(k='range', a=num(0), b=num(2)), body=[dict(k='expr', e=callc('Z%d' % i))])] + body
        if rng.random() < .3:
            body = [dict(k='req', c=dict(k='bool', v=False), hasmsg=False, m=num(0))] + body
        ms.append(cmd('Z%d' % (i + 1), [], INT, body))
    m = m + ms
    yield dict(k='load', mod=m, src=Render(rng, False).module(m), lim=100)
    for _ in range(4):
        yield dict(k='run', cmd='Z%d' % depth, args=[], lim=rng.choice([100, depth, depth + 1]), via='shared')
        c = rng.choice(m)
        g = Gen(rng, 0)
        yield dict(k='run', cmd=c['n'], args=[dict(n=p['n'], v=val(g.value(p['ty'])), ty=p['ty']) for p in c['params']],
                   lim=100, via='shared')
