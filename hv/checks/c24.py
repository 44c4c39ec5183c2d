"""Plain text and embedded values are preserved, character by character."""
from hv.core import Check
from hv import regress, values, expr as X
from hv.difftest import run_real

check = Check('C24', ['whitespace at the end of lines of a script is not a part of the text', 'text spans several lines only when its lines are aligned at the column of the text or further to the right; other alignments are the subject of C03 and C18'])

WORDS = ['one', 'Two', '3', 'x', '-- no comment', '# 5', '--', '#', '| pipe', '/ slash', '! bang', ': colon', '@ at', '%tag', '% 5', 'a=1', 'p : b', 'if x', 'else', 'try', 'for i in x', 'import', 'pass', '.cls', '#id',
         "it's", '"quoted"', "'", '"', '\\n', '\\', '\\\\', '\\x41', '\\u0041', '&amp;', '&lt;', '&', '<b>', '</p>', '<!-- c -->', '<', '>', '&#10;', '...', '< p', '?', '?p', 'a?', 'b!', '()', '[0]', '.attr', '(x)', '_', '~', '`', '^', ';', ',', '*', '**', '+', '=', '==', '😀', 'ż', 'e\u0301', '中文', '\u200b', '\ufeff', 'a\xa0b', 'a\u2003b', 'a\tb', 'a  b', 'a     b',
         '%s', '%d', '%(x)s', '{0}'.replace('{', '(').replace('}', ')'), '\u2768', '\u2769', '\u276a', '\u276b']
SPECIAL = ['$', '$$', '$x', '$ ', '${x}', '{', '}', '{}', '{{', '}}', '{x}', '{{x}}', '{"', '{ }', '}{', '$5', '$.', '$}']
SPECIAL += SPECIAL

def esc(s): return s.replace('$', '$$').replace('{', '{{').replace('}', '}}')
def html(s): return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')

def element(start, lines, end):
    """Lines of an element whose body begins just after the start tag."""
    if lines[0] == '' and len(lines) > 1: return [start] + lines[1:] + [end]
    return [start + lines[0]] + lines[1:-1] + [lines[-1] + end] if len(lines) > 1 else [start + lines[0] + end]

class TextGen:
    def __init__(self, rng, budget=14, vals=True):
        self.rng = rng
        self.budget = budget
        self.vals = {}
        self.withvals = vals
        self.uid = 0
        self.stats = set()
        self.control = 0

    def line(self, kind, first=False):
        """(source, text)"""
        r = self.rng
        parts = []          # (source, text, is a value)
        for k in range(r.choice([1, 1, 2, 2, 3, 4])):
            x = r.random()
            sep = r.choice([' ', ' ', ' ', '  ', '', '    ', '\t']) if k else ''
            if x < .6: s = r.choice(WORDS)
            elif x < .8: s = r.choice(SPECIAL)
            elif self.withvals and kind != '!':
                n = 'v%d' % len(self.vals)
                v = self.vals[n] = self.value()
                parts += [(sep, sep, False), ('{%s}' % n, v, True)]
                # a question or exclamation mark after an expression would be a qualifier
                s = '' if r.random() < .5 else r.choice(['z', ' ', '. ', ', ', '-', ')', '=', '"', ' ?', '&', '<', '\\', '/', ':', '_', '7'])
                parts.append((s, s, False))
                continue
            else: s = ''.join(r.choice(values.CHARS.replace('{', '').replace('}', '').replace('$', '')) for _ in range(r.randint(1, 8)))
            if parts and not sep and s[:1] in ('?', '!'): sep = ' '
            s = sep + s
            parts.append((s if kind == '!' else esc(s), s, False))
        # whitespace at the end of a line is not a part of the text
        while parts and not parts[-1][2]:
            s, t, _ = parts.pop()
            if s.rstrip():
                parts.append((s.rstrip(), t.rstrip(), False))
                break
        src, out = ''.join(p[0] for p in parts), ''.join(p[1] for p in parts)
        return (src, out) if src else ('w', 'w')

    def value(self):
        r = self.rng
        x = r.random()
        if x < .3: return ''
        if x < .5: return values.text(r, newline=False, control=False).replace('\r', '')
        v = '\n'.join(r.choice(['', ' ' * r.randint(0, 4) + r.choice(WORDS), '\t' + r.choice(WORDS), r.choice(WORDS) + '  ', ' ']) for _ in range(r.randint(1, 4)))
        return v

    def lines(self, kind, single=False):
        """Lines of text: [(extra indentation, source, text)] or None if blank; the first one with extra ''"""
        r = self.rng
        out = []
        s, t = self.line(kind, True)
        if s[:1] in ' \t': s, t = 'w' + s, 'w' + t
        if r.random() < .12:
            lead = ' ' * r.randint(1, 3)
            s, t = lead + s, lead + t
            self.stats.add('leading spaces')
        out.append(('', s, t))
        if not single:
            for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3, 5])):
                while r.random() < .15: out.append(None)
                s, t = self.line(kind)
                if s[:1] in ' \t': s, t = 'w' + s, 'w' + t
                out.append((' ' * r.choice([0, 0, 0, 1, 2, 5]), s, t))
        return out

    def text(self, prefix, single=False):
        """(source lines, output lines) of a text block preceded in its line by `prefix`"""
        r = self.rng
        kind = r.choice('||/!')
        gap = ' '
        ls = self.lines(kind, single)
        if kind != '!' and r.random() < .08 and prefix == '' and ls[0][1][0] not in ' \t': gap = ''
        src, out = [], ''
        col = len(prefix) + 2
        for k, l in enumerate(ls):
            if l is None:
                src.append('')
                out += '\n'
                continue
            e, s, t = l
            if kind == '|': t = html(t)
            if k == 0: src.append(prefix + kind + gap + s)
            else:
                src.append(' ' * (col - 1 + len(gap) - (0 if gap else 0)) + e + s if gap else ' ' * (col - 1) + e + s)
                out += '\n' + e
            out += t
        self.stats.add(kind + (' long' if len(ls) > 1 else ''))
        return src, out.split('\n')

    def blocks(self, depth):
        src, out = [], []
        for k in range(self.rng.choice([1, 1, 2, 3])):
            if src:
                m = self.rng.choice([0, 0, 0, 1, 2, 3])
                src += [''] * m
                out += [''] * m
            s, o = self.block(depth)
            src += s
            out += o
        return src, out

    def indent(self, src, out, unit):
        return [unit + s if s else s for s in src], [unit + o if o else o for o in out]

    def block(self, depth):
        r = self.rng
        self.budget -= 1
        x = r.random()
        if depth > 3 or self.budget <= 0 or x < .4: return self.text('')
        unit = r.choice(['  ', '  ', '    ', ' ', '\t'])
        if x < .55:
            n = r.choice(['p', 'div', 'b'])
            a, av = r.choice([('', ''), (' title="x  y"', ' title="x  y"'), (' .c', ' class="c"')])
            s, o = self.text(n + a + ' ')
            return s, element('<%s%s>' % (n, av), o, '</%s>' % n)
        if x < .65:
            s, o = self.text('ul: ', True)
            if len(o) > 1: s, o = ['ul: | t'], ['t']
            bs, bo = self.indent(*self.blocks(depth + 1), unit)
            return s + bs, element('<ul>', o + bo, '</ul>')
        if x < .75:
            bs, bo = self.indent(*self.blocks(depth + 1), unit)
            return ['section : div'] + bs, ['<section><div>'] + bo + ['</div></section>']
        if x < .8:
            pre = r.choice(['if 1 ', 'try ', 'for q in [1] '])
            if pre.startswith('if'): pre = 'if (1) '
            if pre.startswith('for'): pre = 'for q in (1,) '
            return self.text(pre)
        if x < .85:
            self.control += 1
            bs, bo = self.blocks(depth + 1)
            self.control -= 1
            k = r.choice([1, 2, 3])
            return ['for q in range(%d)' % k] + self.indent(bs, [], unit)[0], bo * k
        if x < .9 and not self.control:
            self.uid += 1
            bs, bo = self.blocks(depth + 1)
            n = 'H%d' % self.uid
            if r.random() < .5: return ['%%%s' % n] + self.indent(bs, [], unit)[0] + [n], bo
            pre = r.choice([0, 1])
            d = ['%%%s @b' % n] + (['  p', '    @ b'] if pre else ['  @ b'])
            s = d + [n] + self.indent(bs, [], unit)[0]
            return s, (['<p>'] + self.indent([], bo, '  ')[1] + ['</p>']) if pre else bo
        if x < .95:
            s, o = self.text('. ')
            return s, o
        bs, bo = self.indent(*self.blocks(depth + 1), unit)
        return ['.'] + bs, [''] + bo


@check.monitor('texts', 4000, 120000, rule='random text in |, / and ! blocks, inline bodies, headlines, long texts at every column and nesting, with all special characters (written by their escapes) and multi-line values: the output is predicted line by line; non-trivial: distinct script with a special character')
def texts(rng, i, rec):
    g = TextGen(rng, rng.choice([3, 8, 14]), rng.random() < .6)
    src, out = [], []
    for _ in range(rng.randint(1, 4)):
        s, o = g.block(0)
        src += s
        out += o
    script = '\n'.join(src)
    expected = '\n'.join(out)
    if all(c in script for c in '\u2768\u2769\u276a\u276b'): return rec.stat('skipped')
    if g.vals: script = 'context %s\n' % ', '.join('$' + n for n in g.vals) + script
    r = run_real(script, context=g.vals)
    rec.event()
    for s in g.stats: rec.stat(s)
    rec.stat('values', len(g.vals))
    rec.stat('characters', len(expected))
    if any(c in script for c in '$<>&\\"\''): rec.sig(script)
    rec.show(script)
    if r.exc is not None: return rec.violation('exception', repr(r), script)
    if r.out != expected: rec.violation('text', 'expected %r\n     got %r\nvalues %r' % (expected, r.out, g.vals), script)


@check.monitor('values', 3000, 80000, rule='a hostile multi-line value embedded at any depth, alone or between text, in plain or markup text, as a whole or from within a hypertag, loop or body: the output is predicted from the value; non-trivial: distinct value with a newline or markup')
def embedded(rng, i, rec):
    v = values.text(rng, control=rng.random() < .2) if rng.random() < .8 else '\n'.join(rng.choice(['', ' ', '  x', 'y  ', '\tz', '<&>']) for _ in range(rng.randint(1, 5)))
    kind = rng.choice('|/')
    a, b = rng.choice(['', '', 'A', '<', 'a ']), rng.choice(['', '', 'Z', ' z', '&'])
    how = rng.choice(['{v}', '$v', '{v}', "{'' v}", '{[v][0]}', '{"{v}"}', '{v + ""}', '{f(v)}'])
    if how == '$v' and b[:1] and (b[0].isalnum()): b = ''
    text = a + how + b
    t = a + v + b
    if kind == '|': t = html(t)
    src = [(0, kind + ' ' + text)]
    out = t.split('\n')
    head = []
    depth = rng.randint(0, 4)
    plain = False
    for d in range(depth):
        k = rng.choice(['p', 'p', 'inline', 'if', 'for', 'hyper', 'body', 'null', 'try', 'chain'])
        if k == 'inline' and (d or len(src) > 1): k = 'p'
        if k in ('hyper', 'body') and not (d + 1 == depth or plain): k = 'null'
        if k in ('if', 'for', 'try'): plain = False
        ind = [(n + 2, s) for n, s in src]
        shift = ['  ' + o if o else o for o in out]
        if k == 'p': src, out = [(0, 'div')] + ind, ['<div>'] + shift + ['</div>']
        elif k == 'chain': src, out = [(0, 'ul : li')] + ind, ['<ul><li>'] + shift + ['</li></ul>']
        elif k == 'inline': src, out = [(0, 'b ' + src[0][1])], element('<b>', out, '</b>')
        elif k == 'if': src = [(0, 'if 1')] + ind
        elif k == 'try': src = [(0, 'try')] + ind
        elif k == 'null': src, out = [(0, '.')] + ind, [''] + shift
        elif k == 'for':
            n = rng.randint(1, 2)
            src, out = [(0, 'for i%d in range(%d)' % (d, n))] + ind, out * n
        elif k == 'hyper': src = [(0, '%%H%d' % d)] + ind + [(0, 'H%d' % d)]
        else: src, out = [(0, '%%B%d @b' % d), (2, 'p'), (4, '@ b'), (0, 'B%d' % d)] + ind, ['<p>'] + shift + ['</p>']
        if rng.random() < .2:
            src = src + [(0, '| q')]
            out = out + ['q']
    script = 'context $v, $f\n' + '\n'.join(' ' * n + s for n, s in src)
    r = run_real(script, context=dict(v=v, f=lambda x: x))
    rec.event()
    rec.stat('depth %d' % depth)
    if '\n' in v or '<' in v: rec.sig(v, script)
    rec.show('%s\n%r' % (script, v))
    if r.exc is not None: return rec.violation('exception', '%r, value %r' % (r, v), script)
    expected = '\n'.join(out)
    if r.out != expected: rec.violation('value', 'value %r\nexpected %r\n     got %r' % (v, expected, r.out), script)


@check.monitor('escapes', 1500, 40000, rule='every sequence of $, {, } and other characters, written with $$, {{ and }}, in |, / blocks and string literals, and as it is in ! blocks, gives exactly itself; non-trivial: distinct sequence with 2+ special characters')
def escapes(rng, i, rec):
    s = ''.join(rng.choice(['$', '{', '}', '$', '{', '}', 'a', ' ', '.', '"', "'", '\\', '[', '(', ':', '?', '!', 'é', '<', '1', '_', '|', '%', '#', '--']) for _ in range(rng.randint(1, 10))).strip()
    if not s: s = '$'
    kind = rng.choice(['|', '/', '!', 'p |', 'p: |', 'p /', 'p !', 'if (1) |', 'str', 'attr'])
    t = s
    rec.event()
    if kind in ('str', 'attr'):
        q = rng.choice('"\'')
        lit = q + ''.join(X.quote(c, q) for c in s) + q
        script = '/ {%s}' % lit if kind == 'str' else '$x = %s\n/ {x}' % lit
        expected = t
    else:
        script = kind + ' ' + (s if '!' in kind else esc(s))
        if kind.endswith('|'): t = html(t)
        expected = '<p>%s</p>' % t if kind[0] == 'p' and kind != 'p: |' else '<p>%s\n</p>' % t if kind == 'p: |' else t
        if kind == 'p: |': expected = '<p>%s</p>' % t
    r = run_real(script)
    rec.stat(kind)
    if sum(c in '${}' for c in s) > 1: rec.sig(s, kind)
    rec.show(script)
    if r.exc is not None or r.out != expected: rec.violation('escapes', 'expected %r\n     got %r' % (expected, r), script)

regress.probes(check)
