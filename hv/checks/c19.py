"""Fuzzing: every script renders or raises a documented error, in bounded time."""
import builtins, re, signal, time, traceback
from hv.core import Check
from hv import gen as G, doc as D, expr as X, htmltok, noisy
from hv.difftest import run_real, write
from hv.checks.c17 import uni

check = Check('C19', ['exceptions of Python operations written in a script (calls, operators, indexing, member access) are legitimate results',
                      'scripts that may compute something huge by themselves (while, **, <<, long repetitions) are excluded from the limit of time',
                      'a deeply nested script may end with RecursionError (see C23)'])

TOKENS = ['p', 'div', 'H1', 'x', 'x1', '%', '$', '@', ':', '|', '/', '!', '.', '#', '?', '<', '...', '{', '}', '{{', '}}', '$$', '(', ')', '[', ']', ',', '=', '+=', '==', '!=', '"', "'", 'r"', '\\', '\\x4', '\\u12', '\\U00110000', '\\N{x}', '\\777', '\\',
          'if', 'elif', 'else', 'for', 'in', 'try', 'pass', 'from', 'import', 'context', 'as', 'not', 'and', 'or', 'is', 'None', 'True', '1', '0', '2.5', '1e999', '1e', '0x1', '07', ' ', ' ', ' ', '  ', '\n', '\n', '\n  ', '\n\t', '\n    ', '--', '#', '*', '+', '-', '//', '%H', '%H a', '@b', '$x = 1', 'break', 'continue',
          '|', '^', '&', '~', ';', '`', '❨', '❩', '\x00', '\x0b', '\xa0', '\u2028', 'ż', '😀', 'class', 'id=', 'a=1', '.c', '#i', '<>', '&lt;', '\r', '...', '{x}', '$x', 'inline', 'upper', 'merge_spaces', 'comment', 'doctype', 'unique', 'dedent', '[0]', '.x', '()', '(1)', '*,', 'lambda', 'yield', 'True:', 'range']

def script_of(rng, errors=0.0):
    g = G.DocGen(rng, dict(budget=rng.choice([4, 8, 16]), exprdepth=2, hostile=.3, margins=.2, comments=.15, mods=.15, errors=errors, texttail=.3))
    blocks = g.document()
    for _ in range(5):
        try:
            if rng.random() < .3: return noisy.write(blocks, rng)
            return write(blocks, rng.random())
        except ValueError: pass
    return 'p'

def mutate(rng, s):
    """A random change at the level of characters, tokens, lines or indentation."""
    x = rng.random()
    if not s: return rng.choice(TOKENS)
    k = rng.randrange(len(s))
    if x < .15: return s[:k] + s[k + rng.choice([1, 1, 1, 2, 5]):]
    if x < .3: return s[:k] + rng.choice(TOKENS) + s[k:]
    if x < .4: return s[:k] + rng.choice(TOKENS) + s[k + 1:]
    if x < .45:
        j = min(len(s), k + rng.randint(1, 30))
        return s[:j] + s[k:j] + s[j:]
    if x < .5: return s[:k] + uni(rng, rng.random() < .05, 2) + s[k:]
    if x < .55: return s[:k]
    # words
    if x < .7:
        t = re.findall(r'\w+|\s+|[^\w\s]', s)
        i, j = rng.randrange(len(t)), rng.randrange(len(t))
        y = rng.random()
        if y < .3: t[i], t[j] = t[j], t[i]
        elif y < .6: t[i] = t[j]
        elif y < .8: del t[i]
        else: t.insert(i, rng.choice(TOKENS))
        return ''.join(t)
    # lines
    l = s.split('\n')
    i, j = rng.randrange(len(l)), rng.randrange(len(l))
    y = rng.random()
    if y < .2: l[i], l[j] = l[j], l[i]
    elif y < .35: del l[i]
    elif y < .5: l.insert(i, l[j])
    elif y < .6: l[i] = ' ' * rng.randint(0, 6) + l[i].lstrip()
    elif y < .7: l[i:j] = [rng.choice(['  ', '\t', ' ']) + z for z in l[i:j]]
    elif y < .8: l[i:j] = [z[1:] if z[:1] in ' \t' else z for z in l[i:j]]
    elif y < .9: l[i] = l[i] + ' ' + l[j].lstrip()
    else: l.insert(i, rng.choice(['', 'else', '  else', 'p', '| x', '%H a', '@ x', '$x = 1', 'try', 'if x', 'for x in [1]', 'pass', 'context $x', 'from . import $x', '?', '? p', '< p', '... p', '-- c', '.', ': p', '!', '/']))
    return '\n'.join(l)

def light(s):
    """The script without operations that may take very long or much memory."""
    for _ in range(3): s = re.sub(r'\*(\s*)\*', r'*\1', s)
    s = s.replace('while', 'if').replace('<<', '<').replace('pow', 'abs')
    s = re.sub(r'\d{5,}', '77', s)
    return re.sub(r'([\d.][eE][+-]?)(\d)\d+', r'\1\2', s)

INTERNAL = re.compile(r"NODES|\bx(block|expr|tag|attr|document|node|text|line|factor|tail|core|struct|body|import|def|embed)\w*\b|HypertagAST|Grammar|parsimonious|RegexNode|ObjDict|ValueSlot|\bSlot\b|\bState\b|translate\(|evaluate\(|_render\(|analyse\(|setup\(|compactify|set_indent|NoneType' object has no attribute")
OWN = {'SyntaxErrorEx', 'ValueErrorEx', 'TypeErrorEx', 'NameErrorEx', 'UnboundLocalEx', 'UndefinedTagEx', 'NotATagEx', 'NoneStringEx', 'ImportErrorEx', 'ModuleNotFoundEx', 'ParseErrorEx', 'FalseValueEx', 'VoidTagEx', 'AttrsErrorEx'}
FORBIDDEN = ('AssertionError', 'NotImplementedError', 'UnboundLocalError', 'NameError', 'RecursionError', 'SystemError', 'IncompleteParseError', 'ParseError', 'VisitationError', 'SyntaxError', 'ImportError', 'ModuleNotFoundError', 'error', 'StopIteration')

def own(ex):
    from hypertag.core.errors import HError
    return isinstance(ex, HError) or type(ex) is IndentationError

def unjustified(ex, script, dead=False):
    """Reason why the exception can't be a result of an operation written in the script, or None."""
    name = type(ex).__name__
    if own(ex): return None
    if dead: return 'exception in a part that is not executed'
    if name == 'AssertionError' and str(ex).startswith(('expected length >= ', 'expected a string')) and re.search('crop|truncate', script): return None     # refused arguments of crop()
    if name in FORBIDDEN: return 'internal failure'
    if type(ex).__module__ != 'builtins' and not isinstance(ex, (ArithmeticError, ValueError)): return 'undocumented class'
    msg = str(ex)
    if INTERNAL.search(msg): return 'internal failure'
    if name == 'AttributeError':
        m = re.search(r"has no attribute '?(\w+)'?", msg)
        if not m or not re.search(r'\.[ \t]*%s\b' % re.escape(m[1]), script): return 'internal failure'
    if name == 'KeyError' and '[' not in script and 'pop' not in script: return 'internal failure'
    if name == 'IndexError' and '[' not in script and 'pop' not in script: return 'internal failure'
    tb = traceback.extract_tb(ex.__traceback__)
    if any('parsimonious' in f.filename for f in tb): return 'failure of the parser'
    return None

class Slow(BaseException): pass

def execute(rec, script, kind, dead=False, limit=15, **ctx):
    t = time.process_time()
    r = run_real(script, context=ctx)
    t = time.process_time() - t
    rec.event()
    rec.stat(kind + ' ' + ('ok' if r.exc is None else type(r.exc).__name__))
    rec.stat('accepted' if r.exc is None else 'refused')
    if t > limit: rec.violation('slow', '%.1f s of CPU time, script of %d characters' % (t, len(script)), script)
    if r.exc is not None:
        why = unjustified(r.exc, script, dead)
        if why: rec.violation(why, '%s: %s\n%s' % (type(r.exc).__name__, r.exc, ''.join(traceback.format_tb(r.exc.__traceback__)[-3:])), ascii(script) if not script.isascii() else script)
    elif not set('/!') & set(script) and not re.search(r'comment|doctype|custom', script, re.I):
        if not isinstance(r.out, str): return rec.violation('output is not a string', repr(r.out), script)
        check_html(rec, script, r.out)
    return r

def check_html(rec, script, out):
    if re.search(r'(?i)\.\{|#\{|class|=', script) and False: return
    try: toks = htmltok.tokens(out)
    except htmltok.BadHTML as ex: return rec.violation('malformed output', '%s\n%a' % (ex, out), ascii(script))
    stack = []
    for t in toks:
        if t[0] == 'start' and not t[3]: stack.append(t[1])
        elif t[0] == 'end':
            if not stack or stack.pop() != t[1]: return rec.violation('unbalanced output', '%a' % out, ascii(script))
    if stack: rec.violation('unbalanced output', '%a' % out, ascii(script))
    rec.stat('html checked')


@check.monitor('mutants', 2800, 100000, rule='random valid documents with 1-6 random changes of characters, tokens, lines and indentation: output or a justified exception; accepted ones without raw blocks are well-formed HTML; non-trivial: distinct script')
def mutants(rng, i, rec):
    s = script_of(rng, rng.choice([0, 0, .05]))
    if rng.random() < .15:
        t = script_of(rng)
        a, b = s.split('\n'), t.split('\n')
        s = '\n'.join(a[:rng.randint(0, len(a))] + b[rng.randint(0, len(b)):])
    for _ in range(rng.choice([1, 1, 2, 3, 6])): s = mutate(rng, s)
    s = light(s)
    rec.sig(s)
    rec.show(ascii(s))
    execute(rec, s, 'mutant', x=5, n1='a', s2=[1])

@check.monitor('dead', 2000, 70000, rule='the same, placed in a hypertag that is never used: nothing is executed, so only errors of the library may come out; non-trivial: distinct script')
def dead(rng, i, rec):
    s = script_of(rng)
    for _ in range(rng.choice([1, 2, 3, 6])): s = mutate(rng, s)
    s = '%H9z\n  p\n' + '\n'.join('  ' + l for l in s.split('\n'))
    rec.sig(s)
    rec.show(ascii(s))
    execute(rec, s, 'dead', True)

@check.monitor('tokens', 4500, 150000, rule='random sequences of tokens of the language: output or a justified exception; non-trivial: distinct script')
def tokens(rng, i, rec):
    style = rng.random()
    if style < .5: s = ''.join(rng.choice(TOKENS) for _ in range(rng.randint(1, 14)))
    elif style < .8: s = ' '.join(rng.choice(TOKENS) for _ in range(rng.randint(1, 9)))
    else:
        # an almost correct line
        e = X.Gen(rng, hostile=.4).gen('any', 2)
        try: s = X.Ser(rng).ser(e)
        except ValueError: return
        for _ in range(rng.choice([0, 1, 2])): s = mutate(rng, s)
        s = rng.choice(['| {%s}', '$x = %s', 'p a={%s}', 'if %s', 'for x in %s', '@ %s', '$ %s', 'H %s', '%%H a=%s', 'p .{%s}', 'p %s', '| $%s', 'p a=%s b', '$x, y = %s', '$%s = 1', 'for %s in x', 'from %s import $x', 'context %s', 'p | {%s}!']) % s
    s = light(s)
    rec.sig(s)
    rec.show(ascii(s))
    execute(rec, s, 'tokens', x=5)

@check.monitor('random', 1500, rule='random Unicode text as a script; non-trivial: distinct script')
def random_(rng, i, rec):
    s = ''
    for _ in range(rng.randint(1, 6)): s += rng.choice(['', '', ' ', '  ', '\t']) + uni(rng, i % 40 == 0, rng.choice([2, 6, 20]), True) + rng.choice(['', '\n', '\n', '\n\n'])
    s = light(s)
    rec.sig(s)
    execute(rec, s, 'random')

@check.monitor('truncated', 800, 30000, rule='a valid document cut after any of its lines renders without an exception; non-trivial: distinct script')
def truncated(rng, i, rec):
    s = script_of(rng)
    if 'while' in s: return
    a = run_real(s)
    if a.exc is not None: return
    lines = s.split('\n')
    for k in {rng.randint(0, len(lines)) for _ in range(3)}:
        t = '\n'.join(lines[:k])
        b = run_real(t)
        rec.event()
        rec.sig(t)
        if b.exc is not None: rec.violation('truncated script fails', repr(b), t)


class Hostile(Exception):
    """Raised by methods of objects passed in contexts."""

def fail(*a, **k): raise Hostile('planned')

def thing(rng):
    """An object some of whose special methods fail or return nonsense."""
    names = ['__str__', '__bool__', '__iter__', '__len__', '__eq__', '__hash__', '__getattr__', '__getitem__', '__call__', '__add__', '__radd__', '__lt__', '__contains__', '__neg__', '__format__', '__repr__', '__index__', '__next__']
    d = {}
    for n in rng.sample(names, rng.randint(1, 6)):
        d[n] = fail if rng.random() < .7 or n in ('__getitem__', '__next__') else (lambda v: lambda *a, **k: v)(rng.choice([None, 5, 'x', (), object]))
    return type('Thing', (), d)()

def hostile_value(rng):
    import sys as m
    from hypertag import DOM, Markup, TagFunction
    def gen(): yield 1; yield 'x'
    def bad(): yield 1; fail()
    loop = [1]; loop.append(loop)
    return rng.choice([None, NotImplemented, ..., object(), object, int, len, fail, gen(), bad(), m, DOM(), DOM.text('x'), DOM.Text('x'), DOM.Node(), DOM.Root(), DOM, Markup('p'), Markup, TagFunction(fail), b'x', float('nan'), float('inf'), 1j, loop,
                       {}, {1: 2}, set(), frozenset([1]), (), [], '', 'x', '\n', '\x00', True, False, 0, -1, range(3), slice(1), iter([1, 2]), [None], (1, 2), Hostile, Hostile('x'), memoryview(b'ab'), type, property(), staticmethod(len), '\ud800'] + [thing(rng)] * 8)

USES = ['| $V', '| {V} {V}', '/ {V}', '! $V', '| {V?}', 'try\n  | {V!}\nelse | e', 'p title=V', 'p class=V .a', 'p .{V} #{V}', 'p {V}', 'T V', 'T a=V', 'U V | x', 'H V', 'H | $V', 'for a in V\n  | $a', 'for a, b in V\n  | $a', '$x = V\np\n  | $x', '$x, y = V', '$x = 1\n$x += V',
        '@ V', 'p @ V', 'H\n  @ V', 'if V\n  p\nelif not V\n  b', '| {V + 1} {"a" V}', '| {1 if V else 2}', '| {V and 1} {V or 2}', '| {V < 3 < V}', '| {V in [1]} {1 in V}', '| {V[0]}', '| {V[1:2]}', '| {V()}', '| {V(1, a=2)}', '| {3 : V}', '| {"x" : V(1)}', '| {-V}', '| {V | V} {V & 1} {V ^ 1}', '| {[V, (V,)]}', '| {{V: V}}', '| {"{V}"}', '$ V',
        '| {%T(V)}', '| {%U(V, V)}', '| {%H(V, V)}', '| {crop(V)} {V : upper}', 'upper | $V', 'custom V', 'custom V | x', 'comment V', 'doctype V', 'br V', 'br | $V', 'dedent V | x', '.\n  | $V', '$w = V\nwhile w\n  $w = 0\n  p', 'try\n  | $V\nelse\n  | $V\nelse\n  p', '? | $V', '| {V == V} {V is V} {V != 1}', '| {V ** 2} {V // 1} {V % 3}', '| {V * 2}', 'T | $V', 'T : U : p | $V']

@check.monitor('contexts', 2500, 80000, rule='values with failing or nonsensical special methods, and objects of any class, passed as variables and tags in contexts and used in every way: output, the planned exception, a documented exception or a TypeError/ValueError of an operation on the value; an object that is not a tag gives NotATagEx where it is used as a tag; non-trivial: distinct script and class of value')
def contexts(rng, i, rec):
    from hypertag import HyperHTML, Tag, TagFunction, Markup
    tag = rng.random() < .4
    v = hostile_value(rng)
    name = type(v).__name__
    real = [Markup('em'), TagFunction(lambda body, *a, **k: body)]
    t, u = (v, rng.choice(real)) if tag else (real[0], real[1])
    uses = rng.sample(USES, rng.randint(1, 3))
    if 'TypeError' in name: return
    script = 'context $V, %T, %U\n%H @b\n  p\n    @ b\n%G a=5\n  i title=a\n' + '\n'.join(u if rng.random() < .7 else 'div\n  ' + u.replace('\n', '\n  ') for u in uses)
    if rng.random() < .2: script = script.replace('H V', 'G V')
    if name == 'Thing' and 'while' in script: return
    rec.sig(script, name, tag)
    rec.show('%s\n%s as %s' % (script, name, 'T' if tag else 'V'))
    try:
        out, exc = HyperHTML().render(script, __tags__={'T': t, 'U': u}, V=3 if tag else v), None
        if not isinstance(out, str): rec.violation('output is not a string', repr(type(out)), script)
    except Exception as ex: exc = ex
    rec.event()
    rec.stat('ok' if exc is None else type(exc).__name__)
    info = lambda: '%s: %s, %s as %s\n%s' % (type(exc).__name__, exc, name, 'T' if tag else 'V', ''.join(traceback.format_tb(exc.__traceback__)[-3:])) if exc is not None else name
    if tag and not isinstance(v, Tag) and not re.search('%[TU]\\(', script) and re.search(r'(?m)^ *T', script) and len(uses) == 1 and not re.match('(if|for|while|try|\\?)', uses[0]):
        rec.stat('used as a tag')
        if type(exc).__name__ != 'NotATagEx': return rec.violation('not a tag accepted', info(), script)
    if exc is None or own(exc) or isinstance(exc, Hostile): return
    if isinstance(exc, (TypeError, ValueError, ArithmeticError, IndexError, UnicodeError)) and not isinstance(exc, NotImplementedError):
        if not INTERNAL.search(str(exc)): return
    if isinstance(exc, KeyError) and '[' in script: return
    if isinstance(exc, AssertionError) and 'expected a string' in str(exc): return             # refused by crop()
    rec.violation('internal failure', info(), script)

REP = ['(', '[', '{', '((', '{{', '{ {', '"', "'", '$', '%', '@', '|', '! ', '/ ', 'p ', 'p : ', 'p\n', ' ', '\n', '\t', '.c', '#', 'a=1 ', 'a= ', '-', '--', 'not ', '1 + ', '1 ** ', '1, ', 'x.', 'x : ', 'x if ', 'if 1\n', 'else\n', 'for x in ', 'a.b:', '< ', '... ', '? ', '?', '0', '1.', 'é', '\\', '\\x', '\\u1', '{x}', '{x}{', '}', ')', '1 < ', '"" ', "r'", '$x = ', '$x, ', '%H ', '@b ', ': ', ' :', 'a_', 'from x', 'a-b:c.', '&', '\n  |', '\n\n ', '1 if 1 else ', '[0]', '()', '(1)', ', ']

@check.monitor('repetition', 500, rule='a token or two repeated up to 300 times (10 times if they nest) in various places: answered in bounded time; non-trivial: distinct script')
def repetition(rng, i, rec):
    a = rng.choice(REP) + (rng.choice(REP) if rng.random() < .3 else '')
    n = rng.choice([10, 30, 100, 300])
    if set(a) & set('([{') or 'not' in a or 'if' in a or 'else' in a or ':' in a: n = min(n, 10)
    s = rng.choice(['%s', 'p %s', '| {%s}', '| %s', '$x = %s', 'p a=%s', '%%H %s', 'for %s in x', 'if %s', '| "%s', 'p "%s"', '@ %s', 'p\n  %s', '| {"%s"}', "| {'%s", 'p %s\n  b', '| {%s\np', '%s | x', 'p a={%s} | x']) % (a * n)
    if '**' in s or '<<' in s or 'while' in s: return
    rec.sig(s)
    rec.show(s[:200])
    execute(rec, s, 'rep', x=5)

@check.monitor('long', 24, 800, rule='documents of up to 2300 lines with a mutation in one of the lines: answered in bounded time with an output or a justified exception; non-trivial: distinct script')
def long(rng, i, rec):
    n = rng.choice([130, 260, 520, 1100, 1100, 2300])
    lines = []
    simple = rng.random() < .6
    while len(lines) < n:
        if simple:
            lines += rng.choice([['p | filler', '', '  b'], ['| text'], ['div', '  | x', '', 'p .c'], ['-- comment', '/ <b>x</b>']]) * 30
            continue
        s = script_of(rng)
        if 'while' in s: continue
        k = rng.choice([1, 3, 10])
        try: ok = run_real(s, context={}).exc is None
        except ValueError: ok = False
        if ok: lines += s.split('\n') * k
        else: lines += ['p | filler', '', '  b'] * rng.randint(1, 20)
    lines = lines[:n]
    k = rng.choice([0, 1, n // 2, n - 1, n - 2, rng.randrange(n)])
    if rng.random() < .7: lines[k] = rng.choice(['p a=', '| {1 +}', '%', 'for in 3', '| {', 'p {', '\xa0', '. }', '$x = (', '   %H', '\t \tp'])
    else: lines[k] = mutate(rng, lines[k])
    s = light('\n'.join(lines))
    rec.sig(s)
    execute(rec, s, 'long', limit=30, x=5)

from hv import regress
regress.probes(check)
