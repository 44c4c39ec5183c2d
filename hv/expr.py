"""
Typed random expressions of the Hypertag language: generator, serializer and an independent evaluator.

An expression is a nested tuple; the first element is its kind:
  ('num', literal)            ('str', parts)  parts: list of str | expression      ('raw', text)
  ('const', value)            ('var', name)           ('tag', name)
  ('list'|'tuple'|'set', items)      ('dict', pairs)      ('utuple', items)   -- without parentheses
  ('bin', op, a, b)  ('neg', a)  ('cmp', first, [(op, x), ...])  ('not', a)  ('and'|'or', items)
  ('if', then, cond, else|None)      ('concat', items)     ('pipe', x, fun, args|None, kwargs)
  ('call', f, args, kwargs)  ('idx', a, i)  ('slice', a, [i, j] | [i, j, k])  ('attr', a, name)
  ('q', factor, '?'|'!')
The evaluator is written from the language description (README, docs), on top of Python's own operators.
"""
import operator


class Model(Exception):
    """Error predicted by the reference model; `name` is the exception class expected from Hypertag."""
    def __init__(self, name, msg=''):
        Exception.__init__(self, name, msg)
        self.name = name


class ProbeError(Exception):
    """Raised by probe functions (in both executions: the real one and the model)."""


# precedence levels
L_TUPLE, L_IF, L_OR, L_AND, L_NOT, L_CMP, L_CONCAT, L_PIPE, L_BOR, L_BXOR, L_BAND, L_SHIFT, L_ARITH, L_TERM, L_POW, L_FACTOR, L_ATOM = range(17)

BIN_LEVEL = {'|': L_BOR, '^': L_BXOR, '&': L_BAND, '<<': L_SHIFT, '>>': L_SHIFT, '+': L_ARITH, '-': L_ARITH,
             '*': L_TERM, '/': L_TERM, '//': L_TERM, '%': L_TERM, '**': L_POW}

BIN_FUN = {'|': operator.or_, '^': operator.xor, '&': operator.and_, '<<': operator.lshift, '>>': operator.rshift,
           '+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
           '%': operator.mod, '**': operator.pow}

CMP_FUN = {'<': operator.lt, '>': operator.gt, '==': operator.eq, '!=': operator.ne, '<>': operator.ne, '<=': operator.le, '>=': operator.ge,
           'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b, 'is': operator.is_, 'is not': operator.is_not}


def level(e):
    k = e[0]
    if k == 'bin': return BIN_LEVEL[e[1]]
    if k in ('call', 'idx', 'slice', 'attr', 'q'): return L_FACTOR
    return {'utuple': L_TUPLE, 'if': L_IF, 'or': L_OR, 'and': L_AND, 'not': L_NOT, 'cmp': L_CMP, 'concat': L_CONCAT,
            'pipe': L_PIPE, 'neg': L_ARITH}.get(k, L_ATOM)


# ---------------------------------------------------------------------------------------------------------------------
#  SERIALIZER

def quote(text, q):
    """Text of a string literal quoted with `q`, excluding the quotes."""
    out = []
    for c in text:
        if c == '\\': out.append('\\\\')
        elif c == '\n': out.append('\\n')
        elif c == '\t': out.append('\\t')
        elif c == '\r': out.append('\\r')
        elif c == q: out.append('\\x%02x' % ord(c))
        elif c in '{}$': out.append(c + c)
        elif ord(c) < 32 or ord(c) == 127: out.append('\\x%02x' % ord(c))
        else: out.append(c)
    return ''.join(out)


class Ser:
    """Serializer of expressions with random, meaning-preserving variation of the surface form."""

    def __init__(self, rng, vary=0.15):
        self.rng = rng
        self.vary = vary

    def ws(self, default=''):
        if self.rng.random() < self.vary: return self.rng.choice(['', ' ', '  '])
        return default

    def sp(self):
        """Obligatory whitespace."""
        if self.rng.random() < self.vary: return '  '
        return ' '

    def at(self, e, lev):
        """Serialize `e` to be an operand at precedence level `lev` or higher."""
        s = self.ser(e)
        if level(e) < lev or (level(e) < L_ATOM and self.rng.random() < self.vary * 0.4):
            return '(' + self.ws() + self.par(e, s) + self.ws() + ')'
        return s

    @staticmethod
    def par(e, s):
        if e[0] == 'utuple': raise ValueError('unbounded tuple cannot be nested')
        return s

    def args(self, args, kwargs):
        items = [self.at(a, L_IF) for a in args] + ['%s%s=%s%s' % (k, self.ws(), self.ws(), self.at(v, L_IF)) for k, v in kwargs]
        return '(' + self.ws() + (',' + self.ws(' ')).join(items) + self.ws() + ')'

    def ser(self, e):
        k = e[0]
        rng = self.rng
        if k == 'num': return e[1]
        if k == 'const': return repr(e[1])
        if k == 'raw':
            q = '"' if "'" in e[1] else "'"
            return 'r' + q + e[1] + q
        if k == 'str':
            q = rng.choice('\'"') if rng.random() < 0.5 else "'"
            out = []
            for p in e[1]:
                if isinstance(p, str): out.append(quote(p, q))
                else: out.append('{' + self.braced(p) + '}')
            return q + ''.join(out) + q
        if k == 'var': return ('$' if rng.random() < self.vary * 0.5 else '') + e[1]
        if k == 'tag': return '%' + e[1]
        if k == 'list': return '[' + self.ws() + (',' + self.ws(' ')).join(self.at(x, L_IF) for x in e[1]) + self.ws() + ']'
        if k == 'set': return '{' + self.ws() + (',' + self.ws(' ')).join(self.at(x, L_IF) for x in e[1]) + self.ws() + '}'
        if k == 'tuple':
            if len(e[1]) == 1: return '(' + self.at(e[1][0], L_IF) + self.ws() + ',)'
            return '(' + self.ws() + (',' + self.ws(' ')).join(self.at(x, L_IF) for x in e[1]) + self.ws() + ')'
        if k == 'utuple':
            return (self.ws() + ',' + self.ws(' ')).join(self.at(x, L_IF) for x in e[1]) + (',' if len(e[1]) == 1 else '')
        if k == 'dict':
            return '{' + self.ws() + (',' + self.ws(' ')).join('%s%s:%s%s' % (self.at(a, L_BOR), self.ws(), self.ws(' '), self.at(b, L_IF)) for a, b in e[1]) + self.ws() + '}'
        if k == 'bin':
            op = e[1]
            lev = BIN_LEVEL[op]
            right_assoc = op == '**'
            a = self.at(e[2], lev + 1 if right_assoc else lev)
            b = self.at(e[3], lev if right_assoc else lev + 1)
            return a + self.ws(' ') + op + self.ws(' ') + b
        if k == 'neg':
            return '-' + self.ws() + self.at(e[1], L_TERM)
        if k == 'cmp':
            out = self.at(e[1], L_CONCAT)
            for op, x in e[2]:
                if op in ('in', 'not in', 'is', 'is not'):
                    o = op.replace(' ', self.sp())
                    out += self.sp() + o + self.sp() + self.at(x, L_CONCAT)
                else:
                    out += self.ws(' ') + op + self.ws(' ') + self.at(x, L_CONCAT)
            return out
        if k == 'not': return 'not' + self.sp() + self.at(e[1], L_NOT)
        if k in ('and', 'or'):
            lev = L_AND if k == 'and' else L_OR
            return (self.sp() + k + self.sp()).join(self.at(x, lev + 1) for x in e[1])
        if k == 'if':
            out = self.at(e[1], L_OR) + self.sp() + 'if' + self.sp() + self.at(e[2], L_OR)
            if e[3] is not None: out += self.sp() + 'else' + self.sp() + self.at(e[3], L_IF)
            return out
        if k == 'concat':
            parts = []
            for i, x in enumerate(e[1]):
                s = self.ser(x) if i and level(x) >= L_PIPE else self.at(x, L_PIPE)
                if i and s[:1] in '([-%': raise ValueError('ambiguous concatenation: %s' % s)
                parts.append(s)
            return self.sp().join(parts)
        if k == 'pipe':
            x, fun, args, kwargs = e[1:]
            out = self.at(x, L_PIPE if x[0] == 'pipe' else L_BOR) + self.ws(' ') + ':' + self.ws(' ') + self.ser(fun)
            if args is not None: out += self.args(args, kwargs)
            return out
        if k == 'call': return self.prim(e[1]) + self.args(e[2], e[3])
        if k == 'idx':
            i = self.at(e[2], L_IF)
            if ':' in i: i = '(' + i + ')'              # otherwise could be taken for a slice
            return self.prim(e[1]) + '[' + self.ws() + i + self.ws() + ']'
        if k == 'slice':
            return self.prim(e[1]) + '[' + ':'.join(self.ws() + (self.at(x, L_BOR) if x is not None else '') + self.ws() for x in e[2]) + ']'
        if k == 'attr':
            if e[1][0] == 'num' and '.' in e[1][1] and not e[1][1].endswith('.') and 'e' not in e[1][1].lower(): return e[1][1] + '.' + e[2]       # like 2.5.real
            return self.prim(e[1]) + '.' + e[2]
        if k == 'q':
            return self.prim(e[1]) + e[2]
        raise ValueError(k)

    def prim(self, e):
        """Serialize as a primary: an atom or a factor without a qualifier."""
        s = self.ser(e)
        if level(e) < L_FACTOR or e[0] in ('q', 'num'): return '(' + s + ')'
        return s

    def braced(self, e):
        """Content of {...}: any expression; a space is inserted where an adjacent brace would make an escape sequence."""
        s = self.ser(e)
        return (' ' if s.startswith('{') else self.ws()) + s + (' ' if s.endswith('}') else self.ws())

    def strict(self, e):
        """As a value of an attribute: a factor without spaces, or {...}."""
        if e[0] in ('num', 'const', 'raw', 'list', 'str') and self.rng.random() < 0.7: return self.ser(e)
        if e[0] == 'var': return self.rng.choice(['$%s', '%s', '{%s}']) % e[1]
        return self.brace(e)

    def brace(self, e):
        if e[0] == 'q' and self.rng.random() < .7: return '{' + self.braced(e[1]) + '}' + e[2]
        return '{' + self.braced(e) + '}'

    def header(self, e, inline=False):
        """As an expression of if/for/while, in a form that can't be confused with a start of the body. `inline`: a text body follows."""
        if e[0] == 'utuple':
            if inline: return self.ser(('tuple', e[1]))
            s = self.ser(e)
            return s if not any(c in s for c in '|/!@:{') else self.ser(('tuple', e[1]))
        s = self.ser(e)
        if inline and level(e) < L_FACTOR: return '(' + s + ')'
        if e[0] in ('var', 'call', 'idx', 'list', 'const', 'num', 'attr', 'slice'): return s
        if e[0] in ('cmp', 'and', 'or', 'not') and not any(c in s for c in '|/!@:{'): return s
        return '(' + s + ')'

    def tail(self, e):
        """As the right side of an assignment."""
        return self.ser(e)


# ---------------------------------------------------------------------------------------------------------------------
#  EVALUATOR

def to_str(v, what='embed'):
    if v is None: raise Model('NoneStringEx', what)
    return str(v)


def ev(e, env):
    """
    Value of an expression; `env` provides get_var(name), get_tag(name).
    Raises the same exceptions as Python would, or Model(name) for exceptions specific to Hypertag.
    """
    k = e[0]
    if k == 'num':
        try: return int(e[1])
        except ValueError: return float(e[1])
    if k == 'const': return e[1]
    if k == 'raw': return e[1]
    if k == 'str': return ''.join(p if isinstance(p, str) else to_str(ev(p, env)) for p in e[1])
    if k == 'var': return env.get_var(e[1])
    if k == 'tag': return env.get_tag(e[1])
    if k == 'list': return [ev(x, env) for x in e[1]]
    if k in ('tuple', 'utuple'): return tuple([ev(x, env) for x in e[1]])
    if k == 'set': return {ev(x, env) for x in e[1]}
    if k == 'dict':
        d = {}
        for a, b in e[1]:
            ka = ev(a, env)
            vb = ev(b, env)
            d[ka] = vb
        return d
    if k == 'bin':
        a = ev(e[2], env)
        b = ev(e[3], env)
        return BIN_FUN[e[1]](a, b)
    if k == 'neg': return -ev(e[1], env)
    if k == 'cmp':
        left = ev(e[1], env)
        res = True
        for op, x in e[2]:
            right = ev(x, env)
            res = CMP_FUN[op](left, right)
            if not res: return res
            left = right
        return res
    if k == 'not': return not ev(e[1], env)
    if k == 'and':
        for x in e[1]:
            v = ev(x, env)
            if not v: break
        return v
    if k == 'or':
        for x in e[1]:
            v = ev(x, env)
            if v: break
        return v
    if k == 'if':
        if ev(e[2], env): return ev(e[1], env)
        return ev(e[3], env) if e[3] is not None else ''
    if k == 'concat': return ''.join([to_str(ev(x, env), 'concat') for x in e[1]])
    if k == 'pipe':
        x = ev(e[1], env)
        f = ev(e[2], env)
        args = [ev(a, env) for a in e[3] or []]
        kwargs = {n: ev(a, env) for n, a in e[4]}
        return f(x, *args, **kwargs)
    if k == 'call':
        f = ev(e[1], env)
        args = [ev(a, env) for a in e[2]]
        kwargs = {n: ev(a, env) for n, a in e[3]}
        return f(*args, **kwargs)
    if k == 'idx':
        a = ev(e[1], env)
        return a[ev(e[2], env)]
    if k == 'slice':
        a = ev(e[1], env)
        return a[slice(*[ev(x, env) if x is not None else None for x in e[2]])]
    if k == 'attr': return getattr(ev(e[1], env), e[2])
    if k == 'q':
        try:
            v = ev(e[1], env)
        except Exception:
            if e[2] == '?': return ''
            raise
        if v: return v
        if e[2] == '?': return ''
        raise Model('FalseValueEx')
    raise ValueError(k)


def walk(e):
    """All subexpressions of `e`, including itself."""
    yield e
    for x in e[1:]:
        yield from _walk_any(x)

def _walk_any(x):
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in KINDS: yield from walk(x)
    elif isinstance(x, (list, tuple)):
        for y in x: yield from _walk_any(y)

KINDS = set('num const raw str var tag list tuple utuple set dict bin neg cmp not and or if concat pipe call idx slice attr q'.split())


# ---------------------------------------------------------------------------------------------------------------------
#  GENERATOR

WORDS = ['a', 'bc', 'Kot', 'zig zag', 'x1', 'Ala ma', '0', 'no', 'one', 'two', 'three']
HOSTILE = ['<', '>', '&', '"', "'", '&lt;', '<b>', '</p>', '<!--', '-->', '&amp;', ']]>', '\\', '%', '$', '{', '}', '{{', '}}', '$$', '$x', '{x}',
           '#', '--', ':', '|', '!', '/', '@', '?', '...', '<script>alert(1)</script>', '" onload="x', "' a='", '=', ',', ';', '\u0105\u017c', '\u4e2d', '\U0001f600',
           '\xa0', '&#10;', '&quot;', 'else', 'if', 'for', '%p', 'p', '(', ')', '[', ']', '*', '~', '`', ';']


class Gen:
    """
    Generator of typed expressions. `scope` is a dict {type: [names]} of visible variables, or a function returning it.
    Types: int, num, str, bool, list (of ints), strlist, dict (str -> int), any.
    `probe`: name of a probe function (id, value) -> value to be inserted at random, or None.
    """

    def __init__(self, rng, scope=None, hostile=0.3, probe=None, errors=0.0, names=None, pipes=True):
        self.rng = rng
        self.scope = scope or (lambda: {})
        self.hostile = hostile
        self.probe = probe
        self.errors = errors            # probability that a subexpression raises an exception
        self.pipes = pipes
        self.counter = 0

    # -- leaves

    def text(self, maxlen=4):
        r = self.rng
        out = []
        for _ in range(r.randint(0, maxlen)):
            out.append(r.choice(HOSTILE) if r.random() < self.hostile else r.choice(WORDS + [' ', 'q']))
        return ''.join(out)

    def var(self, t):
        names = self.scope().get(t)
        if names and self.rng.random() < 0.7: return ('var', self.rng.choice(names))
        return None

    def leaf(self, t):
        r = self.rng
        v = self.var(t)
        if v: return v
        if t == 'int':
            if r.random() < .03: return ('num', str(r.choice([2 ** 31, 2 ** 53 + 1, 10 ** 17 + 1, 2 ** 63, 12345678901234567891, 10 ** 30 + 7])))
            return ('num', str(r.choice([0, 1, 2, 3, 5, 7, 10, 12, 255]))) if r.random() < .9 else ('const', r.random() < .5)
        if t == 'num': return ('num', r.choice(['0', '1', '2.5', '.5', '3.', '1e3', '2.5e-2', '7', '12', '00', '1E2', '4.25']))
        if t == 'bool': return ('const', r.random() < .5)
        if t == 'str':
            if r.random() < .12:
                s = self.text().replace('"', '').replace("'", '')
                return ('raw', s.replace('\n', ''))
            return ('str', [self.text()])
        if t == 'list': return ('list', [self.leaf('int') for _ in range(r.randint(0, 3))])
        if t == 'strlist': return ('list', [self.leaf('str') for _ in range(r.randint(0, 3))])
        if t == 'dict': return ('dict', [(('str', [k]), self.leaf('int')) for k in r.sample(['a', 'k', 'z', 'long key'], r.randint(0, 3))])
        if t == 'any': return self.leaf(r.choice(['int', 'str', 'bool', 'list', 'num', 'dict']))
        raise ValueError(t)

    def failing(self):
        """An expression that raises an exception."""
        r = self.rng
        return r.choice([
            ('bin', '/', ('num', '1'), ('num', '0')),
            ('idx', ('list', []), ('num', '3')),
            ('idx', ('dict', []), ('str', ['k'])),
            ('call', ('var', 'int'), [('str', ['x'])], []),
            ('attr', ('str', ['s']), 'nonexistent'),
            ('bin', '+', ('num', '1'), ('str', ['s'])),
            ('q', ('list', []), '!'),
            ('q', ('str', ['']), '!'),
            ('concat', [('str', ['a']), ('const', None)]),
            ('call', ('num', '5'), [], []),
        ])

    def gen(self, t, d):
        """Expression of type `t` and maximum depth `d`."""
        r = self.rng
        if self.errors and r.random() < self.errors:
            f = self.failing()
            if r.random() < .5 and t == 'str': return ('q', f if level(f) >= L_FACTOR and f[0] != 'q' else ('list', [f]), '?') if level(f) >= L_FACTOR and f[0] != 'q' else ('call', ('var', 'str'), [f], [])
            return f
        if d <= 0: return self.leaf(t)
        e = self._gen(t, d - 1)
        if self.probe and r.random() < .35:
            self.counter += 1
            e = ('call', ('var', self.probe), [('num', str(self.counter)), e], [])
        return e

    def _gen(self, t, d):
        r = self.rng
        g = self.gen
        x = r.random()
        # forms available to every type
        if x < .07: return ('if', g(t, d), g('bool', d), g(t, d))
        if x < .10: return ('or', [g(t, d) for _ in range(r.randint(2, 3))])
        if x < .13: return ('and', [g(t, d) for _ in range(r.randint(2, 3))])
        if x < .16: return ('idx', ('list', [g(t, d) for _ in range(2)]), r.choice([('num', '0'), ('neg', ('num', '1')), ('cmp', g('int', d), [('<', g('int', 0))])]))
        if x < .18: return ('idx', ('dict', [(('str', ['k']), g(t, d)), (('num', '1'), g(t, 0))]), ('str', ['k']))
        if x < .20 and t == 'str': return ('q', ('idx', ('list', [g(t, d), g(t, 0)]), ('num', '0')), '?')
        if x < .22 and t != 'any': return ('idx', ('tuple', [g(t, d)]), ('num', '0'))
        return getattr(self, '_' + t)(d)

    def _any(self, d):
        return self._gen(self.rng.choice(['int', 'num', 'str', 'bool', 'list', 'dict', 'strlist']), d)

    def _int(self, d):
        r = self.rng
        g = self.gen
        x = r.randint(0, 13)
        if x <= 3: return ('bin', r.choice('+-*'), g('int', d), g('int', d))
        if x == 4: return ('bin', r.choice(['//', '%']), g('int', d), ('num', str(r.randint(1, 9))))
        if x == 5: return ('bin', r.choice('&|^'), g('int', d), g('int', d))
        if x == 6: return ('bin', r.choice(['<<', '>>']), g('int', d), ('num', str(r.randint(0, 4))))
        if x == 7: return ('bin', '**', ('num', str(r.randint(0, 4))), r.choice([('num', str(r.randint(0, 3))), ('bin', '**', ('num', str(r.randint(0, 2))), ('num', str(r.randint(0, 2))))]))
        if x == 8: return ('neg', g('int', d))
        if x == 9: return ('call', ('var', r.choice(['len', 'len'])), [g(r.choice(['str', 'list', 'dict', 'strlist']), d)], [])
        if x == 10: return ('call', ('var', 'abs'), [g('int', d)], [])
        if x == 11: return ('call', ('var', r.choice(['max', 'min'])), [g('int', d), g('int', d)], [])
        if x == 12 and self.pipes: return ('pipe', g(r.choice(['str', 'list']), d), ('var', 'len'), None if r.random() < .7 else [], [])
        return ('call', ('var', 'sum'), [g('list', d)], [])

    def _num(self, d):
        r = self.rng
        g = self.gen
        x = r.randint(0, 14)
        if x == 14: return ('attr', ('num', r.choice(['2.5', '.5', '0.25', '7', '10.', '1.5e1'])), r.choice(['real', 'imag']))
        x %= 5
        if x <= 1: return ('bin', r.choice('+-*'), g('num', d), g('num', d))
        if x == 2: return ('bin', '/', g('num', d), ('num', r.choice(['1', '2', '4', '8.', '.5'])))
        if x == 3: return ('neg', g('num', d))
        return ('bin', '-', g('int', d), g('num', d))

    def _bool(self, d):
        r = self.rng
        g = self.gen
        x = r.randint(0, 9)
        if x <= 1: return ('cmp', g('int', d), [(r.choice(['<', '>', '==', '!=', '<=', '>=', '<>']), g('int', d))])
        if x == 2: return ('cmp', g('int', d), [(r.choice(['<', '>', '==', '!=', '<=', '>=']), g('int', d)) for _ in range(r.randint(2, 3))])
        if x == 3: return ('not', g(r.choice(['bool', 'int', 'str', 'list']), d))
        if x == 4: return ('cmp', g('int', d), [(r.choice(['in', 'not in']), g('list', d))])
        if x == 5: return ('cmp', g('str', d), [(r.choice(['in', 'not in', '==', '!=', '<']), g('str', d))])
        if x == 6: return ('cmp', r.choice([('const', None), ('const', True), g('bool', d)]), [(r.choice(['is', 'is not']), ('const', r.choice([None, True, False])))])
        if x == 7: return ('cmp', g('str', d), [('in', g(r.choice(['strlist', 'dict']), d))])
        if x == 8: return ('cmp', ('concat', [g('str', d), self.cat(d)]), [('==', g('str', d))])
        return ('not', ('not', g('bool', d)))

    def cat(self, d):
        """A non-first item of a concatenation: must not start with ( [ - %"""
        r = self.rng
        for _ in range(10):
            e = self.gen(r.choice(['str', 'int', 'num']), d)
            if e[0] in ('str', 'num', 'raw', 'var', 'dict', 'set'): return e
            if e[0] in ('call',) and e[1][0] == 'var': return e
            if e[0] == 'idx' and e[1][0] in ('var', 'dict'): return e
        return self.leaf('str') if r.random() < .7 else ('num', str(r.randint(0, 99)))

    def _str(self, d):
        r = self.rng
        g = self.gen
        x = r.randint(0, 13)
        if x <= 1: return ('bin', '+', g('str', d), g('str', d))
        if x <= 3: return ('concat', [g(r.choice(['str', 'int', 'num']), d)] + [self.cat(d) for _ in range(r.randint(1, 3))])
        if x == 4: return ('bin', '*', g('str', d), ('num', str(r.randint(0, 3))))
        if x == 5:
            mid = self.text(1)
            if mid[:1] in '?!': mid = ' ' + mid                 # otherwise would be a qualifier of the preceding {...}
            return ('str', [self.text(), g('any', d), mid, g('int', d)])
        if x == 6: return ('call', ('attr', g('str', d), r.choice(['upper', 'lower', 'strip', 'title'])), [], [])
        if x == 7: return ('slice', g('str', d), self.slice(d))
        if x == 8: return ('call', ('var', 'str'), [g('any', d)], [])
        if x == 9 and self.pipes and r.random() < .35:                  # filters other than plain names
            y = r.randint(0, 4)
            if y == 0: return ('pipe', g('str', d), ('attr', ('attr', ('var', 'str'), r.choice(['upper', 'lower', 'strip'])), '__call__'), None if r.random() < .7 else [], [])
            if y == 1: return ('pipe', g('str', d), ('idx', ('list', [('var', 'upper'), ('var', 'lower'), ('attr', ('var', 'str'), 'title')]), ('num', str(r.randint(0, 2)))), None if r.random() < .7 else [], [])
            if y == 2: return ('pipe', g('str', d), ('idx', ('idx', ('dict', [(('str', ['f']), ('list', [('var', 'upper'), ('var', 'merge')]))]), ('str', ['f'])), ('num', r.choice('01'))), None if r.random() < .7 else [], [])
            if y == 3: return ('pipe', g('strlist', d), ('attr', ('idx', ('list', [('str', ['-']), ('str', [', '])]), ('num', r.choice('01'))), 'join'), None if r.random() < .7 else [], [])
            return ('pipe', g('strlist', d), ('attr', ('str', [r.choice(['', ' ', '+'])]), 'join'), None if r.random() < .7 else [], [])
        if x == 9 and self.pipes: return ('pipe', g('str', d), ('var', r.choice(['upper', 'lower', 'merge', 'inline'])), None if r.random() < .8 else [], [])
        if x == 10 and self.pipes: return ('pipe', ('pipe', g('any', d), ('var', 'str'), None, []), ('var', 'crop'), [('num', str(r.randint(3, 9)))], [] if r.random() < .5 else [('end', ('str', ['..']))])
        if x == 11: return ('call', ('attr', ('str', [r.choice([',', ', ', ''])]), 'join'), [g('strlist', d)], [])
        if x == 12: return ('if', g('str', d), g('bool', d), None)
        return ('call', ('attr', g('str', d), 'replace'), [('str', ['a']), g('str', d)], [])

    def slice(self, d):
        r = self.rng
        item = lambda: r.choice([None, ('num', str(r.randint(0, 4))), ('neg', ('num', str(r.randint(1, 3)))), self.gen('int', 0)])
        s = [item(), item()]
        if r.random() < .4: s.append(r.choice([None, ('num', '2'), ('neg', ('num', '1')), ('num', '1'), ('num', '3'), ('neg', ('num', '2'))]) if not self.errors or r.random() < .8 else ('num', '0'))
        return s

    def _list(self, d):
        r = self.rng
        g = self.gen
        x = r.randint(0, 7)
        if x <= 1: return ('list', [g('int', d) for _ in range(r.randint(0, 4))])
        if x == 2: return ('bin', '+', g('list', d), g('list', d))
        if x == 3: return ('slice', g('list', d), self.slice(d))
        if x == 4: return ('call', ('var', 'list'), [('call', ('var', 'range'), [('num', str(r.randint(0, 5)))], [])], [])
        if x == 5: return ('call', ('var', 'sorted'), [g('list', d)], [('reverse', g('bool', d))] if r.random() < .5 else [])
        if x == 6 and self.pipes: return ('pipe', g('list', d), ('var', 'sorted'), [] if r.random() < .5 else None, [])
        return ('bin', '*', g('list', d), ('num', str(r.randint(0, 2))))

    def _strlist(self, d):
        r = self.rng
        g = self.gen
        x = r.randint(0, 3)
        if x <= 1: return ('list', [g('str', d) for _ in range(r.randint(0, 3))])
        if x == 2: return ('call', ('attr', g('str', d), 'split'), [], [])
        return ('call', ('var', 'sorted'), [g('dict', d)], [])

    def _dict(self, d):
        r = self.rng
        g = self.gen
        if r.random() < .7: return ('dict', [(g('str', min(d, 1)), g('int', d)) for _ in range(r.randint(0, 3))])
        return ('call', ('var', 'dict'), [], [(k, g('int', d)) for k in r.sample(['a', 'b', 'c_1'], r.randint(0, 3))])
