"""Standard functions and tags, names available in scripts."""
import collections, builtins, itertools, re
from html import unescape
from hv.core import Check
from hv import gen as G, stdmodel as M
from hv.difftest import run_real, run_model, write, agree

check = Check('C15', ['whitespace characters U+001C-001F are left out: Python itself treats them in different ways',
                      'lines of only whitespace are ignored when results of dedent(full=False) are compared'])

SP = [' ', ' ', '  ', '\n', '\n', '\t', '\n\n', '\n  ', '\n\t', '\r\n', '\r', '\x0b', '\x0c', '\x85', '\xa0', '\u2028', '\u3000', ' \n ', '\n \n']
WORDS = ['a', 'b', 'Ab', 'word', 'longerword', 'zażółć', 'Straße', 'ŁÓDŹ', 'İ', 'ǆ', 'ﬁ', 'e\u0301', '😀', '&', '<b>', '&#10;', '"q"', "it's", '...', '1', '0', '-', '.', 'same', 'same', 'ς', 'ΣΑΣ']


def text(r, n=None, sp=SP):
    n = r.choice([0, 1, 1, 2, 3, 5, 9, 20]) if n is None else n
    s = ''.join(r.choice(WORDS) + (r.choice(sp) if r.random() < .85 else '') for _ in range(n))
    if r.random() < .3: s = r.choice(sp) + s
    if r.random() < .3: s += r.choice(sp)
    return s


def text_call(r):
    """(name, string, positional arguments, keyword arguments)"""
    name = r.choice(['upper', 'lower', 'merge', 'inline', 'unique', 'unique', 'dedent', 'dedent', 'crop', 'crop', 'crop', 'truncate', 'doctype'])
    a, k = [], {}
    s = text(r)
    def opt(key, value):
        if not k and r.random() < .5: a.append(value)
        else: k[key] = value
    if name == 'unique' and r.random() < .6: opt('strip', r.choice([True, False, False, 0, 1]))
    if name == 'dedent' and r.random() < .7: opt('full', r.choice([True, False, False]))
    if name == 'doctype' and r.random() < .7: opt('value', r.choice(['html', 'x y', '']))
    if name in ('crop', 'truncate'):
        if r.random() < .6: s = text(r, r.choice([1, 3, 6, 12]), [' ', ' ', '  ', '\n'])
        n = len(s)
        if r.random() < .9: opt('length', max(0, r.choice([n, n - 1, n + 1, n - 2, n // 2, 3, 4, 2, 10, r.randint(0, n + 5)])))
        end = r.choice(['...', '...', '…', '', '[more]', '. '])
        if r.random() < .5: opt('end', end)
        if r.random() < .4: opt('killwords', r.random() < .6) if not k else k.update(killwords=r.random() < .6)
        if r.random() < .5: k['maxdrop'] = r.choice([0, 1, 2, 3, 5, 10, 100])
        if r.random() < .4: k['leeway'] = r.choice([0, 1, 2, 5, 30])
    return name, s, a, k


def outcome(f, *a, **k):
    try: return f(*a, **k)
    except Exception as ex: return type(ex)


def norm(name, a, k, v):
    if name == 'dedent' and isinstance(v, str) and not (k.get('full', a[0] if a else True)):
        return '\n'.join(l if l.strip() else '' for l in v.split('\n'))
    return v


def good_args(name, s, a, k):
    import inspect
    try: inspect.signature(getattr(M, 'crop' if name == 'truncate' else name)).bind(s, *a, **k)
    except TypeError: return False
    if name in ('crop', 'truncate'):
        b = inspect.signature(M.crop).bind(s, *a, **k).arguments
        if not isinstance(b.get('length', 5), int) or not isinstance(b.get('end', ''), str): return False
    return True


def call(r):
    while True:
        name, s, a, k = text_call(r)
        if good_args(name, s, a, k): return name, s, a, k


def model(name): return getattr(M, 'crop' if name == 'truncate' else name)


@check.monitor('direct', 30000, rule='text functions exported by hypertag.builtins called directly with random strings and parameters; the result or class of exception must be the documented one, also: crop is never longer than allowed, merge, inline, unique (with strip) and dedent are idempotent; non-trivial: distinct function and arguments')
def direct(rng, i, rec):
    import hypertag.builtins as B
    name, s, a, k = call(rng)
    f = getattr(B, name)
    got, want = outcome(f, s, *a, **k), outcome(model(name), s, *a, **k)
    rec.event()
    rec.stat(name)
    rec.sig(name, s, a, sorted(k.items()))
    if norm(name, a, k, got) != norm(name, a, k, want): return rec.violation('result of %s' % name, '%s(%r, *%r, **%r)\nexpected %r\ngot      %r' % (name, s, a, k, want, got))
    if isinstance(got, str) and (name in ('merge', 'dedent', 'inline', 'crop') or name == 'unique' and (k.get('strip', a[0] if a else True))):
        if outcome(f, got, *a, **k) != got and not (name == 'crop' and k.get('leeway') or name == 'dedent' and norm(name, a, k, '\n \nx') == '\n\nx'):
            return rec.violation('%s is not idempotent' % name, '%r %r %r -> %r -> %r' % (s, a, k, got, outcome(f, got, *a, **k)))


class Paged:
    """A collection whose length is not the number of items it yields, like the number of pages."""
    def __init__(self, items, n): self.items, self.n = items, n
    def __len__(self): return self.n
    def __iter__(self): return iter(self.items)
    def __repr__(self): return 'Paged%r' % ((self.items, self.n),)

class Indexed:
    """Iterable through __getitem__ only."""
    def __init__(self, items): self.items = items
    def __getitem__(self, i): return self.items[i]
    def __repr__(self): return 'Indexed%r' % (self.items,)


def seqs(r):
    items = [r.choice([1, 2, 2, 'a', 'a', None, None, 0, '', True, 1.0, (1,), [1], float('nan')]) for _ in range(r.choice([0, 1, 2, 3, 5, 8]))]
    kind = r.choice(['list', 'tuple', 'iter', 'gen', 'str', 'dict', 'range', 'list', 'paged', 'indexed', 'deque', 'values'])
    if kind == 'paged': n = r.choice([0, 1, 2, 3, 7]); return lambda: Paged(list(items), n)
    if kind == 'indexed': return lambda: Indexed(list(items))
    if kind == 'deque': return lambda: collections.deque(items)
    if kind == 'values': return lambda: dict(enumerate(items)).values()
    if kind == 'list': return lambda: list(items)
    if kind == 'tuple': return lambda: tuple(items)
    if kind == 'iter': return lambda: iter(items)
    if kind == 'gen': return lambda: (x for x in items)
    if kind == 'str': t = ''.join(r.choice('aab') for _ in items); return lambda: t
    if kind == 'dict': d = {str(i): 1 for i in range(len(items))}; return lambda: d
    return lambda: range(len(items))


@check.monitor('sequences', 8000, rule='cycle() and changes() called with random sequences, iterators and parameters (first 60 items of infinite results); non-trivial: distinct arguments')
def sequences(rng, i, rec):
    import hypertag.builtins as B
    rec.event()
    take = lambda x: repr(list(itertools.islice(x, 60)))
    if rng.random() < .5:
        mk = [seqs(rng) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
        k = rng.choice([{}, {}, dict(stop='first'), dict(stop='longest'), dict(stop=False), dict(other=1)])
        if k.get('stop') == 'longest' and not mk: k = {}
        desc = repr([[repr(x) for x in m()] for m in mk]) + repr(k)
        got = outcome(lambda: take(B.cycle(*[m() for m in mk], **k)))
        want = outcome(lambda: take(M.cycle(*[m() for m in mk], **k)))
        name = 'cycle'
    else:
        m = seqs(rng)
        k = rng.choice([{}, {}, dict(first=False), dict(first=None), dict(first='x')])
        items = list(m())
        desc = repr(items) + repr(k)
        got = outcome(lambda: take(B.changes(m(), **k)))
        want = repr([(v, k.get('first', True) if j == 0 else v != items[j - 1]) for j, v in enumerate(items)])
        name = 'changes'
    rec.sig(name, desc)
    rec.stat(name)
    if got != want: rec.violation(name, '%s %s\nexpected %s\ngot      %s' % (name, desc, want, got))


def esc(s): return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')

def lit(v):
    return repr(v)

def args_text(a, k, sep=', '):
    return sep.join([lit(v) for v in a] + ['%s=%s' % (n, lit(v)) for n, v in k.items()])


@check.monitor('forms', 6000, rule='the same call written as a function, as a filter with and without parentheses, chained with other filters, and as a tag around the text, rendered in scripts; the text must be f(x), escaped, or f(escaped x) for a tag; non-trivial: distinct call')
def forms(rng, i, rec):
    name, s, a, k = call(rng)
    f = model(name)
    want = outcome(f, s, *a, **k)
    A = args_text(a, k)
    A = ', ' + A if A else ''
    kind = rng.choice(['fun', 'filter', 'tag', 'chain', 'attr', 'verb'])
    second = rng.choice(['upper', 'lower', 'merge', 'len', 'str'])
    g = {'len': len, 'str': str}.get(second) or model(second)
    if kind in ('tag',) and name in ('crop', 'truncate'): kind = 'fun'
    if kind == 'fun': script, want = '| {%s(x%s)}' % (name, A), want if isinstance(want, type) else esc(want)
    elif kind == 'verb': script = '/ {%s(x%s)}' % (name, A)
    elif kind == 'filter':
        script = '| {x%s: %s%s}' % (rng.choice(['', ' ']), name, '(%s)' % args_text(a, k) if A or rng.random() < .3 else '')
        want = want if isinstance(want, type) else esc(want)
    elif kind == 'chain':
        script = '| {x : %s%s : %s}' % (name, '(%s)' % args_text(a, k) if A else '', second)
        want = want if isinstance(want, type) else esc(str(g(want)))
    elif kind == 'attr': script = 'p title={%s(x%s)}' % (name, A)
    else:
        script = '%s%s | {x}' % (name, ' ' + args_text(a, k, ' ') if A else '')
        want = outcome(f, esc(s), *a, **k)
    script = 'context $x\n' + script
    r = run_real(script, context=dict(x=s))
    rec.event()
    rec.stat(kind)
    rec.sig(script, s)
    if isinstance(want, type):
        if r.exc is None or not isinstance(r.exc, want): rec.violation('form %s' % kind, 'x = %r\nexpected %s\ngot %r' % (s, want.__name__, r), script)
        return
    if kind == 'attr' and r.exc is None:
        m = re.fullmatch(r'<p title=("[^"]*"|\'[^\']*\')></p>', r.out, re.S)
        r.out = m and unescape(m.group(1)[1:-1]).replace('\r\n', '\n').replace('\r', '\n')
        want = want if isinstance(want, type) else want.replace('\r\n', '\n').replace('\r', '\n')
    if norm(name, a, k, r.out) != norm(name, a, k, want): rec.violation('form %s' % kind, 'x = %r\nexpected %r\ngot      %r' % (s, want, r), script)


@check.monitor('tags', 900, rule='random documents full of standard tags (functions around any body, custom, comment, void tags) compared with the reference interpreter; non-trivial: distinct script with 1+ standard tag')
def tags(rng, i, rec):
    g = G.DocGen(rng, dict(budget=16, stdtags=.55, voids=.15, tag=8, hostile=.3, exprdepth=1, errors=.01))
    blocks = g.document()
    try:
        script = write(blocks, rng.random())
        m, _ = run_model(blocks)
    except (ValueError, OverflowError): return
    r = run_real(script)
    rec.event()
    n = len(re.findall(r'\b(upper|lower|merge|inline|unique|dedent|comment|custom)\b', script))
    rec.stat('uses', n)
    if n: rec.sig(script)
    diff = agree(m, r, log=False)
    rec.show(script)
    if diff: rec.violation('document', diff, script)


ALL = [(n, v) for v, l in ((True, M.VOID), (False, M.NONVOID)) for n in l]

@check.monitor('html', 560, 2000, rule='every HTML tag in lower and upper case: with no body, a headline, an outline, attributes, in a chain, imported under its own or another name; mixed case and unknown names are refused; non-trivial: distinct name and form')
def html(rng, i, rec):
    from hypertag.core import errors as E
    name, void = ALL[i // 2 % len(ALL)]
    if i % 2: name = name.upper()
    rec.event()
    form = rng.choice(['empty', 'head', 'outline', 'attrs', 'chain', 'import', 'as', 'case', 'prefix'])
    rec.stat(form)
    rec.sig(name, form)
    end = lambda body, at='': '<%s%s />' % (name, at) if void else '<%s%s>%s</%s>' % (name, at, body, name)
    err = None
    script = want = ''
    if form == 'empty': script, want = name, end('')
    elif form == 'head': script, want = '%s | t & u' % name, end('t &amp; u')
    elif form == 'outline': script, want = '%s\n  | t' % name, end('\n  t\n')
    elif form == 'attrs': script, want = '%s title="v w" data-x=5 hidden=True' % name, end('', ' title="v w" data-x="5" hidden')
    elif form == 'chain': script, want = 'div : %s' % name, '<div>%s</div>' % end('')
    elif form == 'import': script, want = 'from hypertag.html import %%%s\n%s' % (name, name), end('')
    elif form == 'as': script, want = 'from hypertag.html import %%%s as other_9\nother_9' % name, end('')
    elif form == 'case':
        x = ''.join(c.upper() if j % 2 else c.lower() for j, c in enumerate(name))
        if x in (name.lower(), name.upper()): return
        script, err = x, E.UndefinedTagEx
    else: script, err = name + 'zq', E.UndefinedTagEx
    if void and form in ('head', 'outline'): err = E.VoidTagEx
    r = run_real(script)
    if err:
        if not isinstance(r.exc, err): rec.violation('HTML tag', 'expected %s, got %r' % (err.__name__, r), script)
    elif r.out.replace(' />', '>').replace('/>', '>') != want.replace(' />', '>') if r.exc is None else True:
        rec.violation('HTML tag', 'expected %r\ngot      %r' % (want, r), script)


WORDS_RESERVED = ('True', 'False', 'None')

@check.monitor('names', 300, 600, rule='every public name of the Python module builtins used in a script denotes the very object of Python, and every standard function the one exported by hypertag.builtins, as a variable, filter or imported symbol, also after other names were shadowed; non-trivial: distinct name and form')
def names(rng, i, rec):
    import hypertag.builtins as B
    std = ['upper', 'lower', 'merge', 'inline', 'unique', 'dedent', 'crop', 'truncate', 'cycle', 'changes', 'doctype']
    pool = [n for n in dir(builtins) if not n.startswith('_')] + std
    name = pool[i % len(pool)]
    mod = 'hypertag.builtins' if name in std else 'builtins'
    want = getattr(B if name in std else builtins, name)
    seen = []
    see = lambda x: seen.append(x) or ''
    form = rng.choice(['var', 'arg', 'import', 'as', 'module', 'inner', 'imported']) if name not in WORDS_RESERVED else 'var'
    other = rng.choice([n for n in pool if n != name and n not in WORDS_RESERVED])
    script = {
        'var': '$ see_(%s)' % name,
        'arg': '| {%s : see_}' % name,
        'import': 'from %s import $%s\n$ see_(%s)' % (mod, name, name),
        'as': 'from %s import $%s as v9\n$ see_(v9)' % (mod, name),
        'module': 'from %s import *\n$ see_(%s)' % (mod, name),
        'inner': '$%s = 5\n%%H\n  $ see_(%s)\nH' % (other, name),
        'imported': 'context $see_\ndiv\n  if True\n    $%s = 1\n  $ see_(%s)' % (other, name),
    }[form]
    ctx = dict(see_=see)
    if not script.startswith('context'): script = 'context $see_\n' + script
    r = run_real(script, context=ctx)
    rec.event()
    rec.stat(form)
    rec.sig(name, form)
    if r.exc is not None: return rec.violation('name %s' % name, repr(r), script)
    if len(seen) != 1 or seen[0] is not want: rec.violation('name %s' % name, 'denotes %r' % (seen,), script)
