"""Serializers that vary everything in the surface form of a script that should not matter."""
from . import expr as X, doc as D

COMMENTS = ['c', ' note', ' {x', ' $', ' "open', " it's", ' p : b', ' --', ' #', ' | x', '', ' ą😀', ' }}', ' try', '!', ' else', ' a=1', '\tt', '\t', ' \t x ', '\xa0n', ':', ': x', '=', '=1', '"', "'x'", '\\', '@ b', '%H', '!x', '|', '/', '.', ',', '(', '[', '{', '}', ']', ')', '+', '*', '&', '<', '>', '-', '->', '?', '~', '^', '`', '0', 'É', '\u2028x', ' from x import *', ' context $a']


class NoisySer(X.Ser):
    def __init__(self, rng, vary=.5):
        X.Ser.__init__(self, rng, vary)

    def ws(self, default=''):
        if self.rng.random() < self.vary: return self.rng.choice(['', ' ', '  ', '\t', ' \t '])
        return default

    def sp(self):
        return self.rng.choice([' ', '  ', '   ', '\t', ' \t']) if self.rng.random() < self.vary else ' '

    def comma(self, n):
        return ',' + self.ws() if n and self.rng.random() < .2 else ''

    def ser(self, e):
        k = e[0]
        r = self.rng
        if k == 'str' and r.random() < .6:
            plain = all(isinstance(p, str) for p in e[1])
            text = ''.join(p for p in e[1] if isinstance(p, str))
            if plain and r.random() < .3 and not set(text) & set('\'"\n'):
                return 'r' + r.choice(['"%s"', "'%s'"]) % text
            q = r.choice('\'"')
            return q + ''.join(self.chars(p, q) if isinstance(p, str) else '{' + self.braced(p) + '}' for p in e[1]) + q
        if k == 'raw' and r.random() < .5: return self.ser(('str', [e[1]]))
        if k == 'num' and r.random() < .3:
            s = e[1]
            if s.isdigit(): return '0' * r.choice([0, 1, 2]) + s
            if s[0] == '.': return '0' + s
            if s[-1] == '.': return s + '0'
            return s.replace('e', 'E')
        if k == 'list' and r.random() < .5: return '[' + self.ws() + (self.ws() + ',' + self.ws(' ')).join(self.at(x, X.L_IF) for x in e[1]) + self.ws() + self.comma(len(e[1])) + ']'
        if k == 'set' and r.random() < .5: return '{' + self.ws() + (self.ws() + ',' + self.ws(' ')).join(self.at(x, X.L_IF) for x in e[1]) + self.ws() + self.comma(len(e[1])) + '}'
        if k == 'tuple' and len(e[1]) > 1 and r.random() < .5: return '(' + self.ws() + (self.ws() + ',' + self.ws(' ')).join(self.at(x, X.L_IF) for x in e[1]) + self.ws() + self.comma(len(e[1])) + ')'
        if k == 'dict' and r.random() < .5: return '{' + self.ws() + (self.ws() + ',' + self.ws(' ')).join('%s%s:%s%s' % (self.at(a, X.L_BOR), self.ws(), self.ws(' '), self.at(b, X.L_IF)) for a, b in e[1]) + self.ws() + self.comma(len(e[1])) + '}'
        if k == 'cmp' and r.random() < .5: e = ('cmp', e[1], [({'!=': '<>', '<>': '!='}.get(op, op), x) for op, x in e[2]])
        if k == 'utuple' and len(e[1]) > 1 and r.random() < .15: return X.Ser.ser(self, e) + ','
        if k in ('attr', 'call', 'idx', 'slice') and False: pass
        return X.Ser.ser(self, e)

    def chars(self, text, q):
        out = []
        for c in text:
            n = ord(c)
            if self.rng.random() < .25 and n < 0xd800:
                forms = ['\\u%04x' % n, '\\U%08x' % n]
                if n < 256: forms += ['\\x%02x' % n, '\\%03o' % n]
                out.append(self.rng.choice(forms))
            else: out.append(X.quote(c, q))
        return ''.join(out)

    def strict(self, e):
        if e[0] == 'str' and all(isinstance(p, str) for p in e[1]) and self.rng.random() < .5: return X.Ser.ser(self, e)
        return X.Ser.strict(self, e)


class NoisyWriter(D.Writer):
    """comments: probability of an inserted comment; trailing, blank_ws: see Writer."""
    def __init__(self, ser, rng, vary=.5, trailing=.2, blank_ws=.3, comments=.25):
        D.Writer.__init__(self, ser, rng, vary, trailing, blank_ws)
        self.comments = comments

    def mark(self): return self.rng.choice(['--', '--', '#']) + self.rng.choice(COMMENTS)

    def inline(self):
        """An inline comment, or nothing."""
        return self.rng.choice([' ', '  ', '\t']) + self.rng.choice(['--', '--', '# ']) + self.rng.choice(COMMENTS) if self.rng.random() < self.comments else ''

    def comment_block(self, ind):
        self.emit(ind, self.mark())
        for _ in range(self.rng.choice([0, 0, 1, 2])):
            if self.rng.random() < .3: self.blank(1)
            self.emit(ind + '   ', 't' + self.rng.choice(COMMENTS))

    def script(self, blocks):
        self.lines = []
        for b in blocks: self.block(b, '')
        if self.rng.random() < self.comments: self.comment_block('')
        return '\n'.join(self.lines)

    def block(self, b, ind):
        if self.rng.random() < self.comments * .6:
            k = self.rng.randint(0, b.margin)                       # some of the blank lines go before the comment
            self.blank(k)
            self.comment_block(ind)
            m, b.margin = b.margin, b.margin - k
            try: D.Writer.block(self, b, ind)
            finally: b.margin = m
        else: D.Writer.block(self, b, ind)

    def sp(self): return self.ser.sp()

    def attrs(self, attrs):
        out = ''
        glue = True
        for a in attrs:
            if a[0] == 'short':
                s = a[1] + (a[2] if isinstance(a[2], str) else self.ser.brace(a[2]))
                out += s if glue and self.rng.random() < .6 else self.sp() + s
            elif a[0] == 'pos':
                out += self.sp() + self.ser.strict(a[1])
                glue = False
            else:
                out += self.sp() + a[1] + self.ser.ws() + '=' + self.ser.ws() + self.ser.strict(a[2])
                glue = False
        return out

    def chain(self, chain):
        out = ''
        for k, (name, attrs) in enumerate(chain):
            if k: out += (self.ser.ws(' ') if out[-1].isalnum() or out[-1] in '"\'}])' else ' ') + ':' + self.ser.ws(' ')
            out += name + self.attrs(attrs)
        return out

    def struct(self, b, line, ind):
        if b.text is None and b.embed is not None:
            return self.emit(ind, line + ' @' + self.ser.ws(' ') + self.ser.ser(b.embed) + self.inline())
        if b.text is not None or b.head is not None: return D.Writer.struct(self, b, line, ind)
        colon = b.colon if b.colon is not None else self.rng.random() < .3
        if colon: line += self.ser.ws() + ':'
        self.emit(ind, line + self.inline())
        self.body(b.body, ind + b.unit)

    def body(self, blocks, ind):
        for x in blocks: self.block(x, ind)
        if blocks and self.rng.random() < self.comments * .4: self.comment_block(ind)

    def clause(self, line, body, ind):
        if line.startswith(('else', 'elif')) and self.rng.random() < self.vary * .5: self.blank(self.rng.randint(1, 2))
        if body is None or (body.text is None and not body.blocks): self.emit(ind, line)
        elif body.text is not None: self.text(body.text, line + ' ', ind)
        else:
            colon = body.colon if body.colon is not None else self.rng.random() < .3
            self.emit(ind, line + (self.ser.ws() + ':' if colon else '') + self.inline())
            self.body(body.blocks, ind + body.unit)

    def w_Embed(self, b, prefix, ind):
        self.emit(ind, prefix + '@' + self.ser.ws(' ') + self.ser.ser(b.expr) + self.inline())

    def w_Def(self, b, prefix, ind):
        line = '%' + self.ser.ws() + b.name
        if b.bodyattr: line += self.sp() + '@' + self.ser.ws() + b.bodyattr
        for name, default in b.params:
            line += self.sp() + name
            if default is not None: line += self.ser.ws() + '=' + self.ser.ws() + self.ser.strict(default)
        self.struct(b, prefix + line, ind)

    def w_Assign(self, b, prefix, ind):
        self.emit(ind, prefix + '$' + self.ser.ws() + self.targets(b.targets) + self.ser.ws(' ') + b.op + '=' + self.ser.ws(' ') + self.ser.tail(b.expr) + self.inline())

    def w_Expr(self, b, prefix, ind):
        self.emit(ind, prefix + '$' + self.ser.ws(' ') + self.ser.tail(b.expr) + self.inline())

    def _targets(self, t):
        items = [x if isinstance(x, str) else '(' + self._targets(x) + ')' for x in t]
        return (self.ser.ws() + ',' + self.ser.ws(' ')).join(items) + (',' if len(items) == 1 or self.rng.random() < .1 else '')

    def w_If(self, b, prefix, ind):
        for i, (cond, body) in enumerate(b.clauses):
            self.clause((prefix + 'if' if i == 0 else 'elif') + self.sp() + self.ser.header(cond, body.text is not None), body, ind)
        if b.else_ is not None: self.clause('else', b.else_, ind)

    def w_For(self, b, prefix, ind):
        self.clause(prefix + 'for' + self.sp() + self.targets(b.targets) + self.sp() + 'in' + self.sp() + self.ser.header(b.expr, bool(b.body and b.body.text)), b.body, ind)
        if b.else_ is not None: self.clause('else', b.else_, ind)

    def w_While(self, b, prefix, ind):
        self.clause(prefix + 'while' + self.sp() + self.ser.header(b.cond, bool(b.body and b.body.text)), b.body, ind)
        if b.else_ is not None: self.clause('else', b.else_, ind)

    def items(self, items):
        return (self.ser.ws() + ',' + self.ser.ws(' ')).join(s + (self.sp() + 'as' + self.sp() + r if r else '') for s, r in items) + self.inline()

    def w_Context(self, b, prefix, ind):
        self.emit(ind, 'context' + self.sp() + self.items(b.items))

    def w_Import(self, b, prefix, ind):
        self.emit(ind, 'from' + self.sp() + b.path + self.sp() + 'import' + self.sp() + ('*' + self.inline() if b.items == '*' else self.items(b.items)))


def write(blocks, rng, **kw):
    return NoisyWriter(NoisySer(rng), rng, **kw).script(blocks)
