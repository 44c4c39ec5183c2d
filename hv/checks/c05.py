"""Expressions evaluate to the values that Python semantics and the documented operators define."""
from hv.core import Check
from hv import regress, doc as D, expr as X, gen as G
from hv.difftest import diff_case, run_real
from hv.stdmodel import Recorder

check = Check('C05', ['precedence of the unary minus is below * / // % as documented, so it is not followed by // or % in the monitor that uses Python as the oracle',
                      'an inline "if" without "else" gives an empty string (the documentation says None; embedding None would fail)'])


def scope_blocks(g, rng):
    """Assignments of variables of every type."""
    out = []
    for t in ['int', 'str', 'list', 'bool', 'dict', 'strlist', 'num', 'int', 'str']:
        n = g.fresh(G.PREFIX[t])
        out.append(D.Assign(targets=n, op='', expr=X.Gen(rng, hostile=.3).leaf(t)))
        g.frames[-1].vars[n] = t
    return out


def tagcall(g, rng):
    name = rng.choice(['p', 'B', 'div', 'upper', 'merge', 'lower'])
    kw = [(k, g.e('str', 1)) for k in rng.sample(['title', 'id', 'x1'], rng.randint(0, 2))] if name in ('p', 'B', 'div') else []
    return ('call', ('tag', name), [g.e('str', 1)], kw)


def position(g, rng, e, k):
    """Blocks where an expression is evaluated and its value is observed by the probe, or is visible in the output."""
    pe = ('call', ('var', 'P'), [('num', str(1000 + k)), e], [])
    sub = lambda: D.Body(blocks=[D.Text(kind='|', lines=[('', ['y%d' % k])])])
    x = rng.randint(0, 12)
    if x <= 2: return [D.Expr(expr=pe)]
    if x == 3:
        v = g.fresh('v')
        return [D.Assign(targets=v, op='', expr=e), D.Expr(expr=('call', ('var', 'P'), [('num', str(1000 + k)), ('var', v)], []))]
    if x == 4: return [D.Text(kind=rng.choice('|/'), lines=[('', ['a', ('{', pe, None), 'b'])])]
    if x == 5: return [D.Tag(chain=[('p', [('kw', 'title', pe)])])]
    if x == 6: return [D.If(clauses=[(pe, sub())], else_=D.Body(blocks=[D.Text(kind='|', lines=[('', ['n'])])]))]
    if x == 7: return [D.For(targets='it', expr=('list', [pe, e]), body=D.Body(blocks=[D.Expr(expr=('call', ('var', 'P'), [('num', '5'), ('var', 'it')], []))]))]
    if x == 8: return [D.Expr(expr=('call', ('var', 'P'), [('num', '6'), ('str', ['t', pe, 'u', e])], []))]
    if x == 9:
        n = g.fresh('H')
        return [D.Def(name=n, params=[('q', pe if rng.random() < .5 else None)], text=D.Text(kind='|', lines=[('', [('{', ('call', ('var', 'P'), [('num', '8'), ('var', 'q')], []), None)])])),
                D.Tag(chain=[(n, [('pos', e)] if rng.random() < .5 else [('kw', 'q', e)])])]
    if x == 10: return [D.Expr(expr=('call', ('var', 'P'), [('num', '9'), ('if', ('num', '1'), e, ('num', '2'))], []))]
    if x == 11: return [D.Text(kind='|', lines=[('', ['a', ('{', pe, '?'), 'b'])])]
    return [D.Expr(expr=('call', ('var', 'P'), [('num', '7'), ('q', ('call', ('var', 'P'), [('num', '1'), e], []), '?')], []))]


def make(depth, types, errors=False):
    def fun(g):
        rng = g.rng
        blocks = [D.Context(items=[('$P', None), ('$boom', None)])] + scope_blocks(g, rng)
        for k in range(rng.randint(2, 5)):
            e = g.e(rng.choice(types), rng.randint(1, depth)) if rng.random() < .92 else tagcall(g, rng)
            bs = position(g, rng, e, k)
            if errors:
                if any(isinstance(b, D.Def) for b in bs): continue
                bs = [D.Try(branches=[D.Body(blocks=bs), D.Body(blocks=[D.Text(kind='|', lines=[('', ['failed'])])])])]
            blocks += bs
        return blocks
    return fun


TYPES = ['int', 'num', 'str', 'bool', 'list', 'dict', 'strlist', 'any']

@check.monitor('values', 2400, rule='random typed expressions (depth up to 4) over all operators, in every position where an expression can occur; type and repr of every value is logged by a probe and compared with the reference evaluator; non-trivial: 5+ values observed')
def values_(rng, i, rec):
    p = dict(hostile=rng.choice([0, .3, .7]), exprdepth=4, probes=True)
    diff_case(rng, rec, p, lambda stats, script: len(script) > 150, make=make(4, TYPES), wkw=dict(vary=rng.choice([0, .15, .5])))


@check.monitor('errors', 1200, rule='the same, with subexpressions that raise exceptions (caught by try): an exception propagates exactly where Python would propagate it, and not where an operator is lazy; non-trivial: some branch failed')
def errors(rng, i, rec):
    p = dict(hostile=.2, exprdepth=3, probes=True, errors=.05)
    diff_case(rng, rec, p, lambda stats, script: any(k[0] == 'try' and k[1] == 1 for k in stats), make=make(3, TYPES, True))


# ---------------------------------------------------------------------------------------------------------------------
#  Python itself as the oracle

ARITH = ['+', '-', '*', '/', '//', '%']
BIT = ['&', '|', '^']
COMP = ['<', '>', '==', '!=', '<=', '>=', 'in', 'not in', 'is', 'is not']

class Text:
    """Random text of an expression that is valid in Hypertag and in Python, without regard to precedence."""
    def __init__(self, rng):
        self.r = rng
        self.pow = 0
        self.shift = 0

    def num(self):
        return self.r.choice(['0', '1', '2', '3', '5', '7', '10', 'x', 'y', 'n', 'len(s)', 'd["k"]', 'l[1]', 'l[-1]', 't[0]', 'abs(y)', 'max(x, 2)', '2.5', '.5', '1e2', 'True', 'int("4")', 'l.index(5)', 'len(l[1:])', 's.find("b")', 'sum(l)'])

    def coll(self):
        return self.r.choice(['l', 't', '[1, 2, x]', '(3, y)', '[]', 'l[::2]', 'd.values()', '[x]', 'l[:x]', '(n,)'])

    def operand(self, d):
        r = self.r
        x = r.random()
        if d > 0 and x < .35: return '(' + self.expr(d - 1) + ')'
        if d > 0 and x < .42: return '[%s, %s][%s]' % (self.expr(d - 1), self.expr(d - 1), r.choice(['0', '1', '-1']))
        if d > 0 and x < .47: return 'len([%s, %s])' % (self.expr(d - 1), self.num())
        if d > 0 and x < .5: return '(%s if %s else %s)' % (self.expr(d - 1), self.expr(d - 1), self.num())
        return self.num()

    def arith(self, d, neg=True):
        r = self.r
        out = []
        ops = []
        for i in range(r.choice([1, 2, 2, 3, 4, 5])):
            if i:
                x = r.random()
                if x < .12 and not self.pow:
                    self.pow = 1
                    out.append('**')
                    out.append(r.choice(['2', '1', '0', '2 ** 1', '(x - 4)', '2 ** 2']))
                    continue
                if x < .2 and not self.shift:
                    self.shift = 1
                    out += [r.choice(['<<', '>>']), r.choice(['1', '2', '(1 + 1)', '3 - 1'])]
                    continue
                out.append(r.choice(ARITH + ARITH + BIT))
            out.append(self.operand(d))
        s = ' '.join(out)
        if neg and r.random() < .15 and '//' not in out and '%' not in out: s = '-' + s
        return s if r.random() < .7 else s.replace(' ', '') if not any(k in s for k in ('if', 'and', 'or', 'not', 'in', 'is')) else s

    def comp(self, d):
        r = self.r
        s = self.arith(d)
        x = r.random()
        if x < .5: return s
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            op = r.choice(COMP)
            s += ' ' + op + ' ' + (self.coll() if 'in' in op else self.arith(d) if 'is' not in op else r.choice(['None', 'True', 'False']))
        return s

    def expr(self, d):
        r = self.r
        def item(): return 'not ' * r.choice([0, 0, 0, 0, 1, 1, 2]) + self.comp(d)
        s = item()
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])): s += r.choice([' and ', ' or ']) + item()
        if r.random() < .12: s += ' if ' + item() + ' else ' + self.comp(d)
        return s


VARS = dict(x=6, y=-3, n=0, s='abc', l=[1, 5, 7], t=(4, 2), d={'k': 9})

@check.monitor('python', 6000, rule='random texts of expressions with all operators of Python at random, with few parentheses; type and value must be the same as in Python, or the same exception class; non-trivial: no exception and 4+ tokens')
def python(rng, i, rec):
    import warnings
    t = Text(rng)
    s = t.expr(rng.choice([0, 1, 1, 2]))
    if len(s) > 300: return
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try: code = compile(s, 'x', 'eval')
        except SyntaxError: return rec.stat('invalid in Python')
        try: want = (None, eval(code, dict(VARS)))
        except RecursionError: return
        except Exception as ex: want = (type(ex).__name__, None)
    r = Recorder()
    p = r.probes()
    form = rng.choice(['$ P(1, {E})', '$ z = {E}\n$ P(1, z)', '| { P(1, {E}) }', 'p title={ P(1, {E}) }', 'if (P(1, {E}))\n  | a', 'for i in [P(1, {E})]\n  | a', "$ P(2, 'q{P(1, {E})}')" if "'" not in s else '$ P(1, {E})',
                       '%H z\n  $P(1, z)\nH ({E})', '%H z=({E})\n  $P(1, z)\nH', '$ [({E}), 1][0] : P1', '$ P1({E})', '$ P1(a={E})'])
    script = 'context $P, $P1, ' + ', '.join('$' + k for k in VARS) + '\n' + form.replace('{E}', s)
    out = run_real(script, context=dict(VARS, P=p['P'], P1=lambda a: p['P'](1, a)))
    rec.event()
    rec.show(script)
    if want[0] is None and s.count(' ') > 3: rec.sig(s)
    rec.stat('ok' if want[0] is None else want[0])
    log = [x for x in r.log if x[1] == 1]
    if want[0] is None:
        if not log: return rec.violation('not evaluated', 'expected value %r, got %r' % (want[1], out), script)
        zero = lambda s: '0.0' if s == '-0.0' else s            # -(a * b) is the documented reading of -a * b
        if (log[0][2], zero(log[0][3])) != (type(want[1]).__name__, zero(repr(want[1]))): return rec.violation('value differs', 'Python gives %r, Hypertag %s %s' % (want[1], log[0][2], log[0][3]), script)
    else:
        if log: return rec.violation('no exception', 'expected %s, got value %s' % (want[0], log[0][3]), script)
        names = [c.__name__ for c in type(out.exc).__mro__] if out.exc is not None else []
        if want[0] not in names: return rec.violation('exception differs', 'expected %s, got %r' % (want[0], out), script)

regress.probes(check)
