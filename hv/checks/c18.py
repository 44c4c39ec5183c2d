"""Insignificant variations of the source."""
import re
from hv.core import Check
from hv import doc as D, expr as X, gen as G, noisy
from hv.difftest import run_real, run_model, agree, write

check = Check('C18', ['a comment is a block: blank lines above it and above the next block add up', 'trailing blank lines of a document are its bottom margin and are kept'])

PROFILE = dict(texttail=0, stdtags=0, hostile=.25, margins=.3, comments=0, text=9, hyper=6, head=.4, inline_ctl=.25, assign=7)

def reunit(blocks, rng):
    """Different indentation of all bodies."""
    for b in D.walk_blocks(blocks):
        units = [' ', '  ', '   ', '    ', '\t', '\t\t', ' \t', '      ']
        if hasattr(b, 'unit'): b.unit = rng.choice(units)
        for x in bodies(b): x.unit = rng.choice(units)

def bodies(b):
    if isinstance(b, D.If): return [x for _, x in b.clauses if x] + ([b.else_] if b.else_ else [])
    if isinstance(b, (D.For, D.While)): return [x for x in (b.body, b.else_) if x]
    if isinstance(b, D.Try): return [x for x in b.branches if x]
    return []

def flat(out): return '\n'.join(l.lstrip(' \t') for l in out.split('\n'))

def same(rec, a, b, s1, s2, units=False):
    if (a.exc is None) != (b.exc is None) or (a.exc is not None and type(a.exc) is not type(b.exc)):
        return rec.violation('outcome depends on the form', '%r\n  vs\n%r\n--- other form:\n%s' % (a, b, s1), s2)
    if a.exc is None and (flat(a.out) != flat(b.out) if units else a.out != b.out):
        return rec.violation('output depends on the form', '%r\n  vs\n%r\n--- other form:\n%s' % (a.out, b.out, s1), s2)

def pair(rng, rec, units, profile=PROFILE):
    g = G.DocGen(rng, profile)
    blocks = g.document()
    try:
        s1 = write(blocks, rng.random(), vary=0)
        if units: reunit(blocks, rng)
        s2 = noisy.write(blocks, rng)
    except ValueError: return rec.stat('skipped')
    a, b = run_real(s1), run_real(s2)
    rec.event(2)
    rec.stat('ok' if a.exc is None else 'exc')
    if s1 != s2: rec.sig(s1, s2)
    rec.show(s2)
    same(rec, a, b, s1, s2, units)

@check.monitor('forms', 1200, 40000, rule='the same random document written plainly and with random spacing, comments, quotes, escapes, parentheses, trailing commas and blank lines with whitespace; outputs must be equal; non-trivial: the sources differ')
def forms(rng, i, rec):
    pair(rng, rec, False)

@check.monitor('units', 700, 25000, rule='the same, with a different width and kind of indentation of each body; outputs must be equal up to leading whitespace of lines; non-trivial: the sources differ')
def units(rng, i, rec):
    pair(rng, rec, True)

@check.monitor('failing', 350, 12000, rule='the same with documents whose expressions raise exceptions; both forms raise the same class; non-trivial: the sources differ')
def failing(rng, i, rec):
    pair(rng, rec, False, dict(PROFILE, errors=.08))

@check.monitor('noisy', 900, 35000, rule='documents with multi-line text, written with all variations, compared with the reference interpreter; non-trivial: 3+ lines')
def noisy_(rng, i, rec):
    g = G.DocGen(rng, dict(PROFILE, texttail=.4, mods=.1))
    blocks = g.document()
    try: script = noisy.write(blocks, rng)
    except ValueError: return rec.stat('skipped')
    try: m, it = run_model(blocks)
    except OverflowError: return
    r = run_real(script)
    rec.event()
    if script.count('\n') > 1: rec.sig(script)
    rec.show(script)
    d = agree(m, r)
    if d: rec.violation('output', d, script)


def crlf(rng, s): return s.replace('\n', '\r\n')
def trailing(rng, s): return '\n'.join(l + rng.choice(['', ' ', '\t', '   ', ' \t ', '\x0c', '\xa0']) for l in s.split('\n'))
def blanks(rng, s): return '\n'.join(l if l else rng.choice(['', ' ', '\t\t', '            ', '\r']) for l in s.split('\n'))
def comment_first(rng, s): return rng.choice(['-- %s\n', '#%s\n', '--%s\n  tail {\n\n     $ tail\n']) % rng.choice(noisy.COMMENTS) + s
def comment_last(rng, s): return s + '\n-- x'
def shift(rng, s): return s

@check.monitor('text', 1200, 40000, rule='textual changes of a script (line ends, trailing whitespace, whitespace in blank lines, comments before and after), also of scripts that fail; same output or class of exception; non-trivial: the sources differ')
def text(rng, i, rec):
    g = G.DocGen(rng, dict(PROFILE, texttail=.4, errors=rng.choice([0, 0, .05])))
    try: s1 = write(g.document(), rng.random())
    except ValueError: return
    s2 = s1
    fs = rng.sample([crlf, trailing, blanks, comment_first, comment_last], rng.choice([1, 1, 2, 3]))
    for f in fs: s2 = f(rng, s2)
    for f in fs: rec.stat(f.__name__)
    a, b = run_real(s1), run_real(s2)
    rec.event(2)
    if s1 != s2: rec.sig(s1, s2)
    rec.show(ascii(s2))
    same(rec, a, b, s1, s2)

@check.monitor('tabs', 400, 15000, rule='every space of indentation replaced with a tab, or k spaces: output equals the original with the same replacement in indentation of lines; non-trivial: 1+ indented line')
def tabs(rng, i, rec):
    g = G.DocGen(rng, dict(PROFILE, comments=.2, mods=.1))
    blocks = g.document()
    for b in D.walk_blocks(blocks):
        if hasattr(b, 'unit'): b.unit = '  '
        for x in bodies(b): x.unit = '  '
    try: s1 = write(blocks, rng.random())
    except ValueError: return
    to = rng.choice(['\t', '  ', '   ', '\t\t'])
    conv = lambda s: re.sub(r'(?m)^ +', lambda m: to * len(m.group()), s)
    s2 = conv(s1)
    a, b = run_real(s1), run_real(s2)
    rec.event(2)
    if s1 != s2: rec.sig(s1)
    if a.exc is None:
        # text that begins with spaces is not indentation; such documents are not compared exactly
        if b.exc is not None: return same(rec, a, b, s1, s2)
        if re.search(r'(?m)^ *((p|div|b|li)[^|/!\n]*)?[|/!]  ', s1): return same(rec, a, b, s1, s2, True)
        if flat(a.out) != flat(b.out): return same(rec, a, b, s1, s2, True)
    else: same(rec, a, b, s1, s2)


@check.monitor('expressions', 2500, 80000, rule='the same random expression written in two ways is passed to a probe: equal value and type or class of exception; non-trivial: the sources differ')
def expressions(rng, i, rec):
    gen = X.Gen(rng, lambda: {'int': ['n'], 'str': ['s'], 'list': ['l'], 'dict': ['d'], 'any': ['n', 's', 'l'], 'bool': ['t']}, hostile=.4, errors=rng.choice([0, 0, .1]))
    e = gen.gen(rng.choice(['int', 'num', 'str', 'bool', 'list', 'strlist', 'dict', 'any']), rng.randint(1, 4))
    got = []
    ctx = dict(n=7, s='a<b', l=[1, 2, 3], d={'a': 1, 'k': 2}, t=True, f=got.append)
    try:
        f1 = X.Ser(rng, 0).ser(e)
        f2 = noisy.NoisySer(rng, rng.choice([.3, .6, .9])).ser(e)
    except ValueError: return
    form = rng.choice(['$ f(%s)', '$x9 = %s\n$ f(x9)', '| {f(%s) or 1}', '| {(%s) : f}?', 'if f(%s)\n  | x', 'p title={f(%s) or ""}'])
    if '{' in form and '?' in form: form = '$ f(%s)'
    out = []
    for s in (f1, f2):
        script = 'context $n, $s, $l, $d, $t, $f\n' + form % s
        r = run_real(script, context=ctx)
        out.append((script, type(r.exc).__name__ if r.exc else None, [(type(v).__name__, repr(v)) for v in got]))
        del got[:]
    rec.event(2)
    if f1 != f2: rec.sig(f1, f2)
    rec.show('%s\n%s' % (f1, f2))
    if out[0][1:] != out[1][1:] and ' at 0x' not in str(out[0]): rec.violation('value depends on the form', '%s\n%s' % out[0][1:] + '\n%s\n%s\n--- other form:\n%s' % (out[1][1:] + (out[0][0],)), out[1][0])

from hv import regress
regress.probes(check)
