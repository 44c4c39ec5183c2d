"""Unicode text and internal markers."""
import contextlib, html, os, re, shutil, subprocess, sys
from hv.core import Check
from hv import values, htmltok, expr as X, gen as G
from hv.difftest import diff_case, run_real
from hv.checks import c16
from hv.checks.c01 import place, forms, segment

check = Check('C17', ['trailing whitespace of a line of a script, of any kind, is insignificant', 'only spaces and tabs make up indentation and only \\n ends a line of a script given as a string',
                      'names of variables, tags and shortcuts written literally are limited to ASCII'])

MARKERS = '❨❩❪❫'                                            # characters that the parser uses by default
NEXT = '❬❭❮❯❰❱❲❳❴❵'                                         # ... and the ones it tries next

POOLS = [
    ''.join(map(chr, list(range(1, 9)) + list(range(11, 32)) + [127])),                         # control characters, without \t and \n
    ''.join(map(chr, range(0x80, 0xa0))),
    '\xa0\u1680\u2000\u2003\u2007\u2009\u200a\u202f\u205f\u3000',                               # spaces
    '\u2028\u2029\x85\x0b\x0c\x1c\x1d\x1e\x1f\r',                                               # line boundaries of str.splitlines
    '\u200b\u200c\u200d\u2060\ufeff\u00ad\u061c\u200e\u202e\u2066',                             # format characters
    '\u0301\u0308\u0345\u20dd\ufe0f\U000e0100',                                                 # combining, variation selectors
    'ąćęłńóśźżĄĆßéñøİıſK\u03c2\u03a3',                                                          # letters (also with unusual case mapping)
    '中文字한글ひらが\u05d0\u0627\u0e01\u0905',
    '٣१೬²½Ⅷ①',                                                                               # digits and numerals
    '＜＞＆＂＇｛｝＄％｜：！＃＠．／',                                                       # fullwidth forms of special characters
    '“”‘’«»‹›′″–—…•§©®™',
    '😀🏳️\u200d🌈👩\u200d💻𝔘𐍈\U0010fffd',
    '\ue000\uf8ff\ufffd\ufffe\uffff\ufdd0\U0001ffff\U0010ffff',                                 # private use, noncharacters
    '\ud800\udbff\udc00\udfff',                                                                 # lone surrogates
    '<>&"\'=-;#|:%@?!/\\.,[]()`~^*+_ \tabcXYZ019',
]

def uni(r, markers=False, maxlen=8, braces=False):
    out = []
    for _ in range(r.randint(1, maxlen)):
        if markers and r.random() < .4: out.append(r.choice(MARKERS + NEXT[:3] if r.random() < .8 else NEXT)); continue
        x = r.random()
        if x < .08: out.append(chr(r.choice([r.randint(0xa0, 0x2fff), r.randint(0x3000, 0xd7ff), r.randint(0x10000, 0x10ffff)])))
        elif x < .12 and braces: out.append(r.choice(['{', '}', '$', '{{', '$$', '{x}']))
        else: out.append(r.choice(r.choice(POOLS)))
    s = ''.join(out)
    if not markers: s = ''.join(c for c in s if c not in MARKERS)
    return s or 'ż'

def escape(s): return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
def esc(s): return s.replace('{', '{{').replace('}', '}}').replace('$', '$$')
def kinds(s):
    return sorted({k for k, p in enumerate(POOLS) for c in s if c in p} | ({99} if set(s) & set(MARKERS) else set()))

def judge(rec, script, s, kind, r):
    if r.exc is not None: return rec.violation('exception', repr(r) + ' for %r' % s, script)
    seg = segment(r.out)
    want = escape(s) if kind == '|' else s
    if seg != want: rec.violation('text differs', 'expected %a\n     got %a\n  output %a' % (want, seg, r.out), script)


@check.monitor('values', 4500, rule='a value made of characters of all kinds (controls, spaces, line separators, format, combining, astral, surrogates, internal markers) is embedded at a random place; it must come out exactly; non-trivial: distinct set of kinds of characters and place')
def values_(rng, i, rec):
    s = uni(rng, rng.random() < .3, braces=True)
    if i % 50 == 7: s += '\0'
    kind = rng.choice('|/')
    script = 'context $x\n' + place(rng, kind, rng.choice(['{x}', '{ x }', "{'' x}", '{"$x"}', '{x : str}', '{[x][0]}', '{x[:]}', '$x{""}']), '\r' in s and False, 'w')
    r = run_real(script, context={'x': s})
    rec.event()
    rec.sig(kinds(s), script)
    rec.show('%s   x=%a' % (script, s))
    judge(rec, script, s, kind, r)


def literal_case(rng, rec, markers):
    s = uni(rng, markers, braces=True)
    form = rng.randint(0, 6)
    if form == 0: kind, e = '|', esc(s)
    elif form == 1: kind, e = '/', esc(s)
    elif form == 2: kind, e = '!', s
    else:
        # a string literal in an expression
        q = rng.choice('"\'')
        s = s.replace(q, '')
        kind = rng.choice('|/')
        if form == 3:
            s = re.sub('[{}$]', '', s)
            e = '{r%s%s%s}' % (q, s, q)
        else:
            s = s.replace('\\', '')
            e = rng.choice(['{%s}', '{%s : str}', '{[%s][0]}', '{{"k": %s}["k"]}'.replace('{{', '{ {'), '{dict(a = %s)["a"]}', '{%s or 1}' if s else '{%s}', '{str(%s)}', '{%s if 1 else 2}']) % (q + esc(s) + q)
    script = place(rng, kind, e, False, 'w')
    if rng.random() < .3:
        c = lambda: uni(rng, markers).strip() or 'x'
        script = rng.choice(['-- ' + c(), '# ' + c(), '--\n  %s\n  %s' % (c(), c()), '$z = 1  -- ' + c()]) + '\n' + script
    r = run_real(script)
    rec.event()
    rec.sig(kinds(s), form, script)
    rec.show(ascii(script))
    judge(rec, script, s, kind, r)

@check.monitor('literals', 4500, rule='the same characters written literally in blocks of text, string literals and comments; non-trivial: distinct script')
def literals(rng, i, rec):
    literal_case(rng, rec, False)

@check.monitor('markers', 350, rule='the same with the characters that the parser uses internally for indentation (and the ones it tries next) in the script; non-trivial: distinct script')
def markers(rng, i, rec):
    literal_case(rng, rec, True)


@check.monitor('attributes', 2600, rule='names of attributes and tags in any alphabet, and attribute values of all kinds of characters (literal, by variable, shortcut); read back with a tokenizer; non-trivial: distinct script')
def attributes(rng, i, rec):
    markers = i % 40 == 0
    s = uni(rng, rng.random() < .3 if not markers else True)
    name = rng.choice('abzXęż中ſKé\u0370\u2c00\U00010000') + ''.join(rng.choice('abz09-._éż中ſK·\u0301\u203f\U00010330') for _ in range(rng.randint(0, 5))) + 'z'
    name = name.replace('..', '.')
    lit = s.replace('"', '').replace('\\', '')
    if not markers: lit = ''.join(c for c in lit if c not in MARKERS)
    form = rng.randint(0, 7)
    tag = rng.choice(['p', 'custom "%s"' % rng.choice(['x-ż', '中', 'é']), 'a'])
    want = s
    if form == 0: at = '%s=$x' % name
    elif form == 1: at = '%s={x}' % name
    elif form == 2: at, want = '%s="%s"' % (name, esc(lit)), lit
    elif form == 3: at, name = '.{x}', 'class'
    elif form == 4: at, name = '#$x', 'id'
    elif form == 5: at, want = '%s=%s"%s"' % (name, 'r' if not set(lit) & set('{}$') else '', lit), lit
    elif form == 6: at, name, want = '.a .{x}', 'class', 'a ' + s
    else: at = '%s={[x][0]}' % name
    script = 'context $x\n' + rng.choice(['%s %s', '%s b=1 %s', 'b : %s %s | txt', 'div\n  %s %s\n    | txt', '%%H x\n  %s %s\nH {x}']) % (tag, at)
    r = run_real(script, context={'x': s})
    rec.event()
    rec.sig(script, kinds(s))
    rec.show(ascii(script) + '   x=%a' % s)
    if r.exc is not None: return rec.violation('exception', repr(r) + ' for x=%a' % s, script)
    found = [v for t in htmltok.tokens(r.out) if t[0] == 'start' for n, v in t[2] if n == name]
    if [f and htmltok.decode(f) for f in found] != [want]: rec.violation('attribute differs', '%a: expected %a\n     got %a\n  output %a' % (name, want, found, r.out), script)


@check.monitor('lines', 3000, rule='multi-line text whose lines begin, end with or consist of unusual whitespace and line separators: only \\n ends a line, only spaces and tabs are indentation; predicted directly; non-trivial: distinct script')
def lines(rng, i, rec):
    sp = POOLS[2] + re.sub('[\r\x1c-\x1f]', '', POOLS[3]) + '\u200b\ufeff\x08\x7f'
    def line():
        s = ''.join(rng.choice(sp) if rng.random() < .5 else rng.choice(['a', 'ż', 'p', ' ', '\t', '|', '-']) for _ in range(rng.randint(1, 6)))
        return s.rstrip()
    kind = rng.choice('|/!')
    ls = [line() for _ in range(rng.randint(1, 5))]
    ls = [l.lstrip(' \t') for l in ls]
    ls = [l for l in ls if l] or ['x']
    junk = lambda: rng.choice(['', '', ' ', '\xa0', '\u2003 ', '\t', '\x0c', '\u2028'])         # insignificant at the end
    outer = rng.choice(['', '', 'p', 'div : b', '%H @b\n  @ b\nH'])
    ind = rng.choice(['  ', '\t', '    ']) if outer else ''
    script = '%s%s 1%s' % (ind, kind, junk())
    for l in ls: script += rng.choice(['', '', '', '\n' + junk()]) + '\n' + ind + '  ' + l + junk()
    if outer: script = outer + '\n' + script
    body = ['1']
    for l in script.split('\n')[1 + outer.count('\n') + bool(outer):]: body.append((ind + l.strip() if kind != '|' else ind + escape(l.strip())) if l.strip() else '')
    body[0] = ind + body[0]
    # leading whitespace other than indentation is a part of the line
    k = 0
    for j in range(1, len(body)):
        if body[j]:
            body[j] = ind + (ls[k] if kind != '|' else escape(ls[k]))
            k += 1
    want = '\n'.join(body)
    want = {'p': '<p>\n%s\n</p>', 'div : b': '<div><b>\n%s\n</b></div>'}.get(outer, '%s') % want
    if outer.startswith('%H'): want = want.replace('\n' + ind, '\n')[len(ind):]
    r = run_real(script)
    rec.event()
    rec.sig(script)
    rec.show(ascii(script))
    if r.exc is not None: return rec.violation('exception', repr(r), ascii(script))
    if r.out != want: rec.violation('lines differ', 'expected %a\n     got %a' % (want, r.out), ascii(script))

@contextlib.contextmanager
def words(rng, markers):
    """Replaces the vocabulary of generators of documents."""
    old = X.WORDS[:], X.HOSTILE[:]
    def w():
        s = uni(rng, markers, 3).replace('\t', ' ')
        return re.sub('[\\s\x1c-\x1f{}$"\'\\\\?!.(\\[]', '', s) or 'ż'
    def h():
        return re.sub('[\\n\\t{}$"\'\\\\\r\x1c-\x1f]', '', uni(rng, markers, 3)) or '\xa0'
    X.WORDS[:] = ['a', 'x1'] + [w() for _ in range(9)]
    X.HOSTILE[:] = [h() for _ in range(12)] + old[1][:30:3] + ['\xa0', '\u2028', '\x85', '\x0c']
    try: yield
    finally: X.WORDS[:], X.HOSTILE[:] = old

PROFILE = dict(hostile=.4, comments=.3, margins=.2, text=12, texttail=.45, head=.4)

@check.monitor('documents', 2400, rule='random documents with a vocabulary of random Unicode words in text, literals and comments, compared with the reference interpreter; non-trivial: output with non-ASCII characters')
def documents(rng, i, rec):
    with words(rng, False): diff_case(rng, rec, PROFILE, lambda stats, script: not script.isascii())

@check.monitor('marker_documents', 180, rule='the same with internal marker characters among the words; non-trivial: the script contains a marker')
def marker_documents(rng, i, rec):
    with words(rng, True): diff_case(rng, rec, dict(PROFILE, budget=14), lambda stats, script: set(MARKERS) & set(script))


def no_markers(rec, r, script):
    """Characters of the message come from the script (or are ASCII)."""
    seen = [str(r.exc)] + [str(a) for a in getattr(r.exc, 'args', ())]
    for msg in seen:
        bad = {c for c in msg if ord(c) > 127} - set(script)
        if bad: return rec.violation('internal characters in a message', '%a in %a' % (''.join(sorted(bad)), msg), script)

def error_case(rng, rec, markers):
    old = c16.FILL[:]
    c16.FILL[:] = [re.sub('[\\n\\t{}$"\'\\\\\r]', '', uni(rng, markers, 4)) + rng.choice(['', '.']) for _ in range(12)] + ['a', '{{', '{"ż"}']
    try:
        with words(rng, markers):
            if rng.random() < .2: return c16.syntax.__wrapped__(rng, 0, rec) if hasattr(c16.syntax, '__wrapped__') else c16.syntax(rng, 0, rec)
            static = rng.random() < .6
            lines, cls = c16.snippet(rng, rng.choice(c16.STATIC if static else c16.RUNTIME))
            for _ in range(6):
                script = c16.plant(rng, lines, static)
                if script: break
            else: return rec.stat('skipped')
    finally: c16.FILL[:] = old
    script, line, col = c16.split(script)
    r = run_real(script)
    rec.event()
    rec.sig(script)
    rec.show(ascii(script))
    if c16.verify(rec, r, cls, script, line, col): return
    if r.exc is not None: no_markers(rec, r, script)

@check.monitor('errors', 1500, rule='mistakes planted in documents with Unicode text: class, line, column and excerpt are exact, and the message contains no character that is not in the script; non-trivial: distinct script')
def errors(rng, i, rec):
    error_case(rng, rec, False)

@check.monitor('marker_errors', 180, rule='the same with internal marker characters in the script')
def marker_errors(rng, i, rec):
    error_case(rng, rec, True)


@check.monitor('messages', 1500, rule='randomly damaged scripts: no message of an error contains characters that are not in the script; non-trivial: error with a message')
def messages(rng, i, rec):
    g = G.DocGen(rng, dict(budget=rng.choice([6, 14]), exprdepth=1, hostile=.3, margins=.3, errors=.1))
    from hv.difftest import write
    try: script = write(g.document(), rng.random())
    except ValueError: return
    if 'while' in script: return
    s = list(script)
    for _ in range(rng.choice([1, 2, 4])):
        k = rng.randrange(len(s))
        x = rng.random()
        if x < .5: del s[k:k + rng.choice([1, 1, 3, 10])]
        elif x < .8: s.insert(k, rng.choice('{}$%@:|!/?\n \t()[]"\'=.,<'))
        else: s[k:k + 1] = rng.choice(['\n', '\n  ', ' ', 'zq'])
        if not s: return
    script = ''.join(s)
    r = run_real(script)
    rec.event()
    if r.exc is not None:
        rec.stat(type(r.exc).__name__)
        rec.sig(script)
        no_markers(rec, r, script)


UTF8 = sys.getfilesystemencoding().lower().startswith('utf')

@check.monitor('files', 400, rule='modules with any Unicode text and names of files are imported; their values are exact; non-trivial: distinct path and text')
def files(rng, i, rec):
    d = os.path.join(rec.tmp, 'uni%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    w = lambda: ''.join(rng.choice('aźć中é😀x-' if UTF8 else 'abcx-Z09_') for _ in range(rng.randint(1, 4))).strip('-') or 'q'
    folder, name = w(), w()
    os.makedirs(os.path.join(d, folder))
    s = re.sub('[\ud800-\udfff"\\\\\r]', '', uni(rng, i % 30 == 0)) + 'ż'
    t = re.sub('[\ud800-\udfff\r]', '', uni(rng)) + 'ż'
    with open(os.path.join(d, folder, name + '.hy'), 'w', encoding='utf-8', newline='') as f: f.write('$x = "%s"\n%%H\n  p | .%s' % (esc(s), esc(t)))
    script = 'from .%s.%s import $x, %%H\n/ $x\nH' % (folder, name)
    r = run_real(script, file=os.path.join(d, 'main.hy'))
    rec.event()
    rec.sig(folder, name, s, t)
    want = '%s\n<p>.%s</p>' % (s, escape(t))
    if r.out != want: rec.violation('imported text differs', 'expected %a\n     got %a' % (want, r), script)


LOCALE = r'''
import sys
from hypertag import HyperHTML
utf = sys.getfilesystemencoding().lower().startswith('utf')
if utf:
    import os
    os.makedirs(sys.argv[1] + '/ą')
    with open(sys.argv[1] + '/ą/中.hy', 'w', encoding='utf-8') as f: f.write('$z = "ź"')
other = 'from .ą.中 import $z\n' if utf else '$z = "ź"\n'
out = HyperHTML().render(other + 'from .m import $x, %H\n| $x$z\nH', sys.argv[1] + '/main.hy')
print(ascii(out))
'''

@check.monitor('locale', 6, 40, rule='scripts are read from files as UTF-8 whatever the locale of the process is; non-trivial: distinct text')
def locale_(rng, i, rec):
    d = os.path.join(rec.tmp, 'loc%d' % i)
    os.makedirs(d, exist_ok=True)
    s = ''.join(rng.choice('ąż中😀é') for _ in range(5))
    with open(d + '/m.hy', 'w', encoding='utf-8') as f: f.write('$x = "%s"\n%%H\n  p title="%s" | %s' % (s, s, s))
    env = dict(os.environ, PYTHONPATH=os.environ.get('HV_REPO', '/repo') + '/src', PYTHONDONTWRITEBYTECODE='1')
    for k in ('LANG', 'LC_ALL', 'LC_CTYPE', 'PYTHONUTF8', 'PYTHONIOENCODING'): env.pop(k, None)
    env.update([dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0'), dict(LC_ALL='C.UTF-8'), dict(LC_ALL='C')][i % 3])
    with open(d + '/main.py', 'w', encoding='utf-8') as f: f.write(LOCALE)
    p = subprocess.run([sys.executable, '-B', d + '/main.py', d], env=env, capture_output=True, text=True, timeout=300)
    rec.event()
    rec.sig(s, i % 3)
    want = ascii('%sź\n<p title="%s">%s</p>' % (s, s, s))
    if p.returncode or p.stdout.strip() != want: rec.violation('text read from a file depends on the locale', 'expected %s\n     got %s%s' % (want, p.stdout, p.stderr[-600:]), None)

from hv import regress
regress.probes(check)
