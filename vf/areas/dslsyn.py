"""Binds DslSyn.tla to the DSL lexer and parser."""
from ..core import Area, exc

OPS = ['+', '-', '*', '/', '//', '%', '**', '<', '>', '<=', '>=', '==', '!=', 'and', 'or']
TIGHT = set('()[],')


def tk(k, v):
    return dict(k=k, v=v)


def op(v):
    return tk('op', v)


class G:
    """Token sequences: productions of the grammar written flat, so that the
    tree depends on precedence; some are then damaged."""
    def __init__(self, rng):
        self.r = rng

    def atom(self, d):
        r = self.r
        q = r.random()
        if d <= 0 or q < .5:
            return [r.choice([tk('num', str(r.randint(0, 9))), tk('name', r.choice('abxyz')), tk('name', r.choice('abxyz')),
                              tk('bool', r.choice(['true', 'false'])), tk('str', r.choice(['', 's', 'if', '# no', '/* no']))])]
        if q < .62:
            return [op('(')] + self.expr(d - 1) + [op(')')]
        if q < .72:
            return [op('[')] + self.sep(d, r.randint(0, 3), True) + [op(']')]
        if q < .78:
            return [op('[')] + self.expr(d - 1) + [op('..')] + self.expr(d - 1) + [op(']')]
        if q < .9:
            o = [op('[')] + self.expr(d - 1)
            for _ in range(r.choice([1, 1, 2])):
                o += [op('for'), tk('name', r.choice('xyz')), op('in')] + self.expr(d - 1)
                for _ in range(r.choice([0, 0, 1, 2])):
                    o += [op('if')] + self.expr(d - 1)
            return o + [op(']')]
        return [tk('name', r.choice('fg')), op('(')] + self.args(d) + [op(')')]

    def sep(self, d, n, trail):
        o = []
        for i in range(n):
            o += ([op(',')] if i else []) + self.expr(d - 1)
        return o + ([op(',')] if trail and n and self.r.random() < .15 else [])

    def args(self, d):
        r = self.r
        o = self.sep(d, r.randint(0, 2), False)
        for n in r.sample('pqr', r.choice([0, 0, 1, 2])):
            o += ([op(',')] if o else []) + [tk('name', n), op('=')] + self.expr(d - 1)
        return o + ([op(',')] if o and r.random() < .1 else [])

    def unit(self, d):
        r = self.r
        o = []
        while r.random() < .2:
            o.append(op(r.choice(['-', 'not'])))
        o += self.atom(d)
        while d > 0 and r.random() < .18:
            q = r.random()
            if q < .4:
                o += [op('[')] + self.expr(d - 1) + [op(']')]
            elif q < .6:
                o += [op('('), *self.args(d), op(')')]
            elif q < .8:
                o += [op('.'), tk('name', r.choice('uvw'))]
            else:
                o += [op('.'), tk('name', r.choice('uvw')), op('('), *self.args(d), op(')')]
        return o

    def expr(self, d):
        r = self.r
        o = self.unit(d)
        for _ in range(r.choice([0, 1, 1, 2, 3, 4]) if d > 1 else r.choice([0, 0, 1, 2])):
            o += [op(r.choice(OPS))] + self.unit(d)
        if r.random() < .15 and d > 0:
            o += [op('if')] + self.expr(d - 1) + [op('else')] + self.expr(d - 1)
        return o

    def damage(self, t):
        r = self.r
        t = list(t)
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(t)) if t else 0
            q = r.random()
            if q < .4 and t:
                t.pop(i)
            elif q < .75:
                t.insert(i, op(r.choice(OPS + ['(', ')', '[', ']', ',', 'if', 'else', 'for', 'in', '..', 'not', '=', '.'])))
            elif t:
                j = r.randrange(len(t))
                t[i], t[j] = t[j], t[i]
        return t


def text(rng, toks):
    s, depth = '', 0
    for i, t in enumerate(toks):
        v = t['v']
        if t['k'] == 'str':
            v = '"%s"' % v
        if t['k'] == 'bool' and rng.random() < .5:
            v = v.capitalize()
        if i:
            p = toks[i - 1]
            tight = (t['k'] == 'op' and v in TIGHT) or (p['k'] == 'op' and p['v'] in TIGHT)
            br = depth > 0 and rng.random() < .06
            s += rng.choice(['\n', '\n     ', '  # if emit :\n ', ' /* { */ ']) if br else \
                ('' if tight and rng.random() < .5 else ' ')
        if t['k'] == 'op':
            depth += (v in '([') - (v in ')]')
        s += v
    return s


def dump(e):
    from yapcad.dsl import ast as A
    n = type(e).__name__
    if n == 'Literal':
        t = e.literal_type.name
        if t == 'BOOL_LITERAL':
            return dict(k='bool', v=str(e.value).lower())
        return dict(k='str' if t == 'STRING_LITERAL' else 'num', v=str(e.value))
    if n == 'Identifier':
        return dict(k='var', n=e.name)
    if n == 'BinaryOp':
        return dict(k='bin', op=OPNAME[e.operator.name], l=dump(e.left), r=dump(e.right))
    if n == 'UnaryOp':
        return dict(k='un', op={'NOT': 'not', 'MINUS': '-'}[e.operator.name], e=dump(e.operand))
    args = lambda: dict(args=[dump(x) for x in e.arguments], named=[dict(n=k, e=dump(v)) for k, v in e.named_arguments.items()])
    if n == 'FunctionCall':
        return dict(k='call', f=dump(e.callee), **args())
    if n == 'MethodCall':
        return dict(k='meth', o=dump(e.object), n=e.method, **args())
    if n == 'MemberAccess':
        return dict(k='mem', o=dump(e.object), n=e.member)
    if n == 'IndexAccess':
        return dict(k='idx', e=dump(e.object), i=dump(e.index))
    if n == 'ListLiteral':
        return dict(k='list', es=[dump(x) for x in e.elements])
    if n == 'RangeExpr':
        return dict(k='range', a=dump(e.start), b=dump(e.end))
    if n == 'ConditionalExpr':
        return dict(k='tern', c=dump(e.condition), t=dump(e.true_branch), f=dump(e.false_branch))
    if n == 'ListComprehension':
        return dict(k='comp', e=dump(e.element_expr), cl=[
            dict(v=c.variable, it=dump(c.iterable), conds=[dump(x) for x in c.conditions]) for c in e.clauses])
    return dict(k=n)


OPNAME = dict(PLUS='+', MINUS='-', STAR='*', SLASH='/', DOUBLE_SLASH='//', PERCENT='%', DOUBLE_STAR='**', LT='<', GT='>',
              LE='<=', GE='>=', EQ='==', NE='!=', AND='and', OR='or')


def block(b):
    o = []
    for s in b.statements:
        n = type(s).__name__
        if n == 'ForStatement':
            o.append(dict(k='for', lab=int(s.variable[1:]), body=block(s.body)))
        elif n == 'IfStatement':
            arms = [dict(lab=s.condition.value, body=block(s.then_branch))]
            arms += [dict(lab=x.condition.value, body=block(x.body)) for x in s.elif_branches]
            o.append(dict(k='if', arms=arms, els=block(s.else_branch) if s.else_branch else []))
        elif n in ('LetStatement', 'VarDecl'):
            o.append(dict(k='stmt', lab=int(s.name[1:])))
        elif n == 'EmitStatement':
            o.append(dict(k='stmt', lab=s.value.value if type(s.value).__name__ == 'Literal' else
                          s.value.elements[0].value))
        elif n in ('RequireStatement', 'AssertStatement'):
            o.append(dict(k='stmt', lab=s.condition.value))
        else:
            o.append(dict(k=n))
    if b.final_expression is not None:
        o.append(dict(k='final'))
    return o


class Syn(Area):
    def new(self, init):
        return None

    def apply(self, sut, o):
        from yapcad.dsl.lexer import tokenize, LexerError
        from yapcad.dsl.parser import parse, ParserError
        try:
            m = parse(tokenize(o['src']), source=o['src'])
            b = m.commands[0].body
            if o['k'] == 'expr':
                if len(m.commands) != 1 or len(b.statements) != 1 or b.final_expression is not None:
                    return dict(res='shape')
                return dict(res='ok', ast=dump(b.statements[0].initializer))
            return dict(res='ok', tree=block(b))
        except (LexerError, ParserError):
            return dict(res='syntax')
        except Exception as e:
            return dict(res=exc(e), msg=str(e)[:200])


def layout(rng):
    """Lines of a plausible body, with occasional wrong indentation."""
    lines, lab = [], [0]

    def blk(ind, d):
        for _ in range(rng.randint(1, 3)):
            lab[0] += 1
            q = rng.random()
            if d <= 0 or q < .5:
                lines.append(dict(ind=ind, k='stmt', lab=lab[0]))
            elif q < .7:
                lines.append(dict(ind=ind, k='for', lab=lab[0]))
                blk(ind + rng.randint(1, 4), d - 1)
            else:
                lines.append(dict(ind=ind, k='if', lab=lab[0]))
                blk(ind + rng.randint(1, 4), d - 1)
                for _ in range(rng.choice([0, 0, 1, 2])):
                    lab[0] += 1
                    lines.append(dict(ind=ind, k='elif', lab=lab[0]))
                    blk(ind + rng.randint(1, 4), d - 1)
                if rng.random() < .4:
                    lab[0] += 1
                    lines.append(dict(ind=ind, k='else', lab=lab[0]))
                    blk(ind + rng.randint(1, 4), d - 1)
    blk(rng.randint(1, 4), 3)
    q = rng.random()
    if q < .5:
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(lines))
            z = rng.random()
            if z < .5:
                lines[i]['ind'] = max(0, rng.choice([l['ind'] for l in lines] + [0, lines[i]['ind'] + 1, lines[i]['ind'] - 1]))
            elif z < .75 and len(lines) > 1:
                lines.pop(i)
            else:
                lines[i]['k'] = rng.choice(['stmt', 'if', 'else', 'elif', 'for'])
    out = []
    for l in lines:
        while rng.random() < .12:
            out.append(dict(ind=rng.randint(0, 12), k='blank', lab=0))
        out.append(l)
    return out


def render(rng, lines):
    s = 'module m\ndef T() -> int:' + rng.choice(['', '  ', ' # c', ' /* c */']) + '\n'
    for l in lines:
        n, k = l['lab'], l['k']
        p = ' ' * l['ind']
        if k == 'blank':
            s += rng.choice(['\n', p + '\n', p + '# else: x\n', p + '/* emit */\n', p + '/* if\n else */\n'])
            continue
        e = rng.choice(['', '', '  ', '  # c: {'])
        if k == 'stmt':
            nl = rng.choice(['', '', '\n', '\n' + ' ' * rng.randint(0, 9), ' # c [\n'])
            s += p + rng.choice(['s%d = [%s0,%s1]' % (n, nl, nl), 's%d = 0' % n, 'emit %d' % n, 'emit %d, q=(%s1%s)' % (n, nl, nl),
                                 'require %d, "if x:"' % n, 's%d: list[int] = [%s]' % (n, nl), 'let s%d = (%s1 +%s 2)' % (n, nl, nl),
                                 'emit [%s%d%s]' % (nl, n, nl)])
        elif k == 'for':
            s += p + 'for s%d in [1]:' % n
        elif k == 'else':
            s += p + 'else:'
        else:
            s += p + k + ' %d:' % n
        s += e + '\n'
    return s if rng.random() < .8 else s.rstrip('\n')


def syntax_check(ctx):
    a = Syn()
    g = G(ctx.rng)
    tr = []
    for i in range(ctx.n(1500, 15000)):
        ops = []
        for _ in range(4):
            t = g.expr(ctx.rng.choice([1, 2, 2, 3]))
            while len(t) > 70:
                t = g.expr(2)
            if ctx.rng.random() < .35:
                t = g.damage(t)
            # a name directly followed by "(" and a lambda arrow is not generated
            ops.append(dict(k='expr', toks=t, src='module m\ndef T() -> int:\n  r: int = ' + text(ctx.rng, t) + '\n'))
        tr.append(a.record('x%d' % i, 0, ops))
    for i in range(ctx.n(1500, 15000)):
        l = layout(ctx.rng)
        tr.append(a.record('l%d' % i, 0, [dict(k='layout', lines=l, src=render(ctx.rng, l))]))
    ctx.report_bads(ctx.validate('DslSynTrace', tr), tr, 'syntax')
