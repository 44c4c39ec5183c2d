"""The Django backend: templates, contexts, requests, filters."""
import os, random, shutil, subprocess, sys, warnings
from hv.core import Check
from hv import doc as D, gen as G, values, regress
from hv.difftest import run_real, run_model, agree, write, Outcome

check = Check('C22', ['filters that depend on the current time or on random numbers are only checked for identity', 'Django settings are configured once per process'])

_ready = None

def django(rec):
    """Configures Django in this process; returns the folder of templates of an installed application."""
    global _ready
    if _ready and _ready[0] == os.getpid(): return _ready[1]
    root = os.path.join(rec.tmp, 'dj%d' % os.getpid())
    name = 'hvapp%d' % os.getpid()
    folder = os.path.join(root, name, 'hypertag')
    os.makedirs(folder)
    open(os.path.join(root, name, '__init__.py'), 'w').close()
    sys.path.insert(0, root)
    from django.conf import settings
    import django as dj
    if not settings.configured:
        settings.configure(INSTALLED_APPS=[name], SECRET_KEY='x' * 50, USE_TZ=True, USE_I18N=False, ALLOWED_HOSTS=['*'])
        dj.setup()
    _ready = (os.getpid(), folder)
    return folder

def engine(dirs, app=False):
    from hypertag.django.backend import Hypertag
    return Hypertag({'NAME': 'hypertag', 'DIRS': dirs, 'APP_DIRS': app, 'OPTIONS': {}})

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8', newline='') as f: f.write(text)

PROFILE = dict(budget=10, hostile=.3, tag=14, hyper=3, texttail=.1)
NAMES = ['a.hy', 'b.hy', 'sub/a.hy', 'sub/deep/c.hy', 'index.html', 'x', 'b c.hy']
CTX = [('str', 'q"<'), ('int', 7), ('list', [1, 2, 3]), ('str', 'żółć\n x'), ('bool', True), ('list', [])]

def template(rng, ctx, lib=None):
    """(script, abstract blocks | None); ctx: {name: (type, value)} declared by the script."""
    g = G.DocGen(rng, dict(PROFILE, errors=rng.choice([0, 0, .05])), ctx)
    blocks = g.document()
    blocks = [b for b in blocks if not isinstance(b, D.Context)]
    if ctx: blocks = [D.Context(items=[('$' + n, None) for n in ctx])] + blocks
    return write(blocks, rng.random()), blocks

def text_of(value): return value if isinstance(value, str) else repr(value)

@check.monitor('templates', 700, 15000, rule='a random tree of template folders (also of an installed application): templates are obtained by name or from a string and rendered in random order, repeatedly, with various contexts and requests; the outcome equals direct rendering of the right script (and the reference interpreter), the contexts are not modified; non-trivial: distinct script')
def templates(rng, i, rec):
    app = django(rec)
    from hypertag import HyperHTML
    from django.template import TemplateDoesNotExist
    from django.test import RequestFactory
    root = os.path.join(rec.tmp, 'c22-%d' % os.getpid(), str(i))
    dirs = [os.path.join(root, d) for d in ['one', 'two', 'three'][:rng.randint(1, 3)]]
    for d in dirs: os.makedirs(d)
    use_app = rng.random() < .4
    e = engine(dirs, use_app)
    files = {}
    try:
        places = dirs + ([app] if use_app else [])
        ctxs = {}
        for _ in range(rng.randint(1, 5)):
            d, n = rng.choice(places), rng.choice(NAMES)
            ctx = {'c%d' % k: rng.choice(CTX) for k in range(rng.randint(0, 2))}
            try: s, blocks = template(rng, ctx)
            except ValueError: continue
            if rng.random() < .25:
                put(os.path.join(d, os.path.dirname(n), 'lib_.hy'), '%%Lib t\n  p.lib | $t\n$value = %d' % rng.randint(1, 999))
                s = s + '\nfrom %s import %%Lib as LL, $value as vv_\nLL {vv_}' % rng.choice(['.lib_', 'lib_'])
                blocks = None
            elif rng.random() < .08:
                s, blocks = rng.choice(['p\n  | {', 'p a=', '| {undefined_}', 'nosuchtag', '| {1/0}', 'context $missing_\n| $missing_']), None
            elif rng.random() < .08: s, blocks = s + '\n| {str(__file__)[-12:]} {str(__package__)}', None
            put(os.path.join(d, n), s)
            files[d, n] = (s, blocks, ctx)
            rec.sig(s)
        got = {}
        for _ in range(rng.randint(3, 8)):
            request = None
            x = rng.random()
            if x < .8 or not files:
                n = rng.choice(NAMES + ['../x', 'sub/../a.hy', '/a.hy', ''])
                found = next(((d, n) for d in places if (d, n) in files), None)
                if n == 'sub/../a.hy' and os.path.isdir(places[0] + '/sub'): continue
                if n in ('', '/a.hy'): continue
                if n == 'sub/../a.hy': continue
                try: t = got[n] if n in got and rng.random() < .4 else e.get_template(n)
                except TemplateDoesNotExist as ex:
                    rec.event()
                    rec.stat('missing')
                    if found: return rec.violation('template not found', '%r exists' % (found,), n)
                    if ex.backend is not e: return rec.violation('backend of TemplateDoesNotExist', repr(ex.backend), n)
                    tried = [str(o.name) for o, _ in ex.tried]
                    if n[:2] != '..' and tried != [os.path.join(d, n) for d in places]: return rec.violation('tried locations', '%r instead of %r' % (tried, [os.path.join(d, n) for d in places]), n)
                    continue
                if not found: return rec.violation('missing template', 'TemplateDoesNotExist was expected', n)
                got[n] = t
                s, blocks, ctx = files[found]
                file = os.path.join(*found)
            else:
                s, blocks, ctx = rng.choice(list(files.values()))
                if 'lib_' in s: continue
                t, file = e.from_string(s), None
            data = {n: v for n, (_, v) in ctx.items()}
            if data and rng.random() < .1: del data[rng.choice(list(data))]
            if rng.random() < .3: data['unused'] = object()
            if rng.random() < .3: data['p'] = 'not a tag'
            if rng.random() < .12: data['__file__'] = rng.choice([os.path.join(d, rng.choice(NAMES)) for d in places] + [None])        # the context decides
            if rng.random() < .05: data['__package__'] = 'pk.sub'
            before = dict(data)
            texts = {k: text_of(v) for k, v in data.items()}
            if rng.random() < .3: request = RequestFactory().get('/x')
            arg = None if not data and rng.random() < .5 else data
            try: r = Outcome(t.render(arg, request) if rng.random() < .5 or request else t.render(arg))
            except Exception as ex: r = Outcome(None, ex)
            rec.event()
            rec.stat('ok' if r.exc is None else r.error)
            direct = dict({'__file__': file}, **before)
            try: w = Outcome(HyperHTML().render(s, **direct))
            except Exception as ex: w = Outcome(None, ex)
            rec.show(s)
            what = 'template %r\n' % file
            if r.error != w.error or r.out != w.out or w.exc is not None and str(w.exc) != str(r.exc) and ' at 0x' not in str(w.exc): return rec.violation('rendering', what + 'expected %r\n     got %r' % (w, r), s)
            if list(data) != list(before) or any(data[k] is not before[k] or text_of(data[k]) != texts[k] for k in data): return rec.violation('context modified', '%r -> %r' % (before, data), s)
            if blocks and all(n in before for n in ctx):
                try: m, it = run_model(blocks, context={n: before[n] for n in ctx})
                except OverflowError: continue
                df = agree(m, r, False)
                if df: return rec.violation('rendering (reference interpreter)', what + df, s)
    finally:
        shutil.rmtree(root, ignore_errors=True)
        for x in os.listdir(app):
            p = os.path.join(app, x)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)


@check.monitor('requests', 500, 10000, rule='templates that use the request and the CSRF helpers: the request itself, a token that belongs to it, and a hidden input with such a token, only if a request is given and without changes of the context; non-trivial: distinct script')
def requests(rng, i, rec):
    django(rec)
    from django.test import RequestFactory
    from django.middleware import csrf
    e = engine([])
    f = RequestFactory()
    seen = []
    def look(*a):
        seen.append(a)
        return ''
    declared = rng.sample(['request', 'csrf_token', 'csrf_input', 'x', 'y'], rng.randint(0, 5))
    data = {'x': rng.choice([5, 'a<b']), 'y': [1], 'look': look}
    own = rng.sample(['request', 'csrf_token', 'csrf_input'], rng.choice([0, 0, 1, 2, 3]))        # names of the backend that are also in the caller's context
    for n in own: data[n] = rng.choice(['mine', None, '', 0, ['mine']])
    lines = ['context ' + ', '.join('$' + n for n in declared + ['look'])]
    for n in declared:
        lines.append(rng.choice(['| <%s>{look("%s", %s)}', 'p\n  div | {look("%s", %s) or ""}', '$ look("%s", %s)']).replace('<%s>', '') % (n, n))
    if 'csrf_token' in declared: lines.append('input name="csrf" value={csrf_token}')
    if 'csrf_input' in declared: lines.append('form\n  / $csrf_input')
    if 'x' not in declared: lines.append('try\n  | $x\nelse | none' if False else '$x = 3\n| x{x}')
    script = '\n'.join(lines)
    rec.show(script)
    t = e.from_string(script)
    for _ in range(rng.randint(1, 3)):
        del seen[:]
        request = f.get('/a?b=%d' % rng.randint(0, 9)) if rng.random() < .75 else None
        before = dict(data)
        try: out, exc = t.render(data, request), None
        except Exception as ex: out, exc = None, ex
        rec.event()
        rec.sig(script, request is None)
        if data != before or list(data) != list(before): return rec.violation('context modified', '%r -> %r' % (before, data), script)
        need = [n for n in declared if n in ('request', 'csrf_token', 'csrf_input') and n not in own]
        if request is None and need:
            rec.stat('refused')
            if exc is None: return rec.violation('names of a request without a request', '%r' % out, script)
            continue
        if request is None and any(data[n] is None for n in own if n in declared) and type(exc).__name__ == 'NoneStringEx': continue
        if exc is not None: return rec.violation('exception', repr(exc), script)
        rec.stat('ok')
        if own: rec.stat('own names')
        got = dict(seen)
        if sorted(got) != sorted(declared): return rec.violation('values', '%r' % got, script)
        if request is None:
            if any(got[n] is not data[n] for n in own if n in got): return rec.violation('own values without a request', '%r' % got, script)
            continue
        if 'request' in got and got['request'] is not request: return rec.violation('request', repr(got['request']), script)
        for n in ('x', 'y'):
            if n in got and got[n] is not data[n]: return rec.violation('value', '%r' % got[n], script)
        if 'x' not in declared and 'x3' not in out: return rec.violation('undeclared name of the context', out, script)
        if 'csrf_token' in declared:
            import re
            tok = re.search(r'name="csrf" value="(\w+)"', out)
            if not tok or len(tok[1]) != 64 or csrf._unmask_cipher_token(tok[1]) != csrf._unmask_cipher_token(str(request.META['CSRF_COOKIE']) if len(request.META['CSRF_COOKIE']) == 64 else tok[1]): return rec.violation('token', out, script)
            if len(request.META['CSRF_COOKIE']) == 32 and csrf._unmask_cipher_token(tok[1]) != request.META['CSRF_COOKIE']: return rec.violation('token of another request', out, script)
        if 'csrf_input' in declared:
            import re
            m = re.search(r'<form>\n  <input type="hidden" name="csrfmiddlewaretoken" value="(\w{64})">\n</form>', out)
            if not m or len(request.META['CSRF_COOKIE']) == 32 and csrf._unmask_cipher_token(m[1]) != request.META['CSRF_COOKIE']: return rec.violation('input', out, script)


VOLATILE = {'random', 'naturaltime', 'naturalday', 'timesince', 'timeuntil', 'pprint'}

def any_value(rng):
    import datetime, decimal
    return rng.choice([lambda: values.text(rng), lambda: rng.choice(['', 'a b c', 'Hello World', '<b>x</b> & y', 'one,two', '1234567', '3.14159', 'http://a.com?q=1&r=2', "l'été", 'line1\nline2\n\nline3', 'True', ' x ']),
                       lambda: rng.randint(-1000, 10 ** rng.randint(1, 12)), lambda: rng.choice([0, 1, 2, -1, 1.5, 1e10, 12.0, 0.1]), lambda: rng.choice([None, True, False]), lambda: [rng.randint(0, 9) for _ in range(rng.randint(0, 4))],
                       lambda: [{'a': rng.randint(0, 9), 'b': 'x'} for _ in range(rng.randint(0, 4))], lambda: {'k': 1, 'a': 'b<'}, lambda: datetime.datetime(rng.randint(1990, 2040), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), 5, 7), lambda: datetime.date(2020, 2, 29),
                       lambda: decimal.Decimal('12.345'), lambda: (1, 'a', ['x', 'y']), lambda: datetime.time(13, 5)])()

def any_arg(rng):
    return rng.choice([0, 1, 2, 3, 10, -1, ' ', ',', ', ', 'a', 'b', 'yes,no', 'yes,no,maybe', ':2', '1:', 'Y-m-d', 'H:i', 'es', 'y,ies', '%03d', 'x', '', 1.5, '2', '2gu', '"', 'e'])

def result(fun):
    try: v = fun()
    except Exception as ex: return ('exc', type(ex).__name__)
    try: return (type(v).__name__, repr(v) if not hasattr(v, '__next__') else list(v))
    except Exception as ex: return ('repr', type(ex).__name__)

@check.monitor('filters', 5000, 120000, rule='a random Django filter imported into a script and applied to random values with and without an argument, as a filter or as a function: value, type and exception as those of the filter registered in Django; its text is escaped in a plain block and left alone in a markup block; non-trivial: distinct filter, value and argument')
def filters(rng, i, rec):
    django(rec)
    from django.template.defaultfilters import register as r1
    from django.contrib.humanize.templatetags.humanize import register as r2
    table = dict(r2.filters)
    table.update(r1.filters)
    name = sorted(table)[rng.randrange(len(table))]
    fun = table[name]
    v = any_value(rng)
    with_arg = rng.random() < .6
    arg = any_arg(rng)
    got = []
    new = rng.choice([None, None, 'ff_'])
    imp = 'from hypertag.django.filters import $%s%s\n' % (name, ' as ' + new if new else '')
    n = new or name
    args = ['a'] if with_arg else []
    call = rng.choice(['v : %s%s' % (n, '(a)' if with_arg else rng.choice(['', '()'])), '%s(%s)' % (n, ', '.join(['v'] + args))])
    script = 'context $v, $a, $f\n' + imp + '$x_ = %s\n$ f(x_)' % call
    if name in ('random',) or name in VOLATILE:
        script = 'context $v, $a, $f\n' + imp + '$ f(%s)' % n
        r = run_real(script, context=dict(v=v, a=arg, f=got.append))
        rec.event()
        if r.exc is not None or got[0] is not fun: rec.violation('filter', '%r %r' % (r, got), script)
        return
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = run_real(script, context=dict(v=v, a=arg, f=got.append))
        want = result(lambda: fun(v, *([arg] if with_arg else [])))
        have = ('exc', r.error) if r.exc is not None else result(lambda: got[0])
    rec.event()
    rec.stat(name)
    rec.sig(name, repr(v), with_arg and repr(arg))
    rec.show('%s   v=%r a=%r' % (script, v, arg))
    if have != want and ' at 0x' not in str(want): return rec.violation('filter', 'v=%r a=%r\nexpected %r\n     got %r' % (v, arg, want, have), script)
    if want[0] not in ('exc', 'repr', 'NoneType', 'generator') and not hasattr(got[0], '__next__'):
        s = str(got[0])
        esc = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
        for mark, w in (('|', esc), ('/', s)):
            script = 'context $v, $a\n' + imp + '%s {%s}' % (mark, call)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                o = run_real(script, context=dict(v=v, a=arg))
            if o.out != w: return rec.violation('text of a filter', 'v=%r a=%r\nexpected %r\n     got %r' % (v, arg, w, o), script)


PLAIN = '''
import sys
sys.path.insert(0, sys.argv[1])
from hypertag import HyperHTML
import hypertag.django.filters as m
from django.template.defaultfilters import register as r1
from django.contrib.humanize.templatetags.humanize import register as r2
for n, f in list(r1.filters.items()): assert getattr(m, n) is f, n
for n, f in list(r2.filters.items()): assert getattr(m, n) is r1.filters.get(n, f), n
names = sorted(set(r1.filters) | set(r2.filters))
out = HyperHTML().render('from hypertag.django.filters import ' + ', '.join('$' + n for n in names) + '\\n' + %r)
print(ascii(out))
'''
SNIPPETS = [("| {'Hello World' : slugify} {3 : ordinal} {'a' : upper} {[1,2] : join('-')}", 'hello-world 3rd A 1-2'), ("p title={1234567 : intcomma} | {5 : add(4)}{'<' : force_escape}", '<p title="1,234,567">9&amp;lt;</p>'), ("/ {'a b' : urlencode}{None : default('x')}", 'a%20bx')]

@check.monitor('standalone', 3, 12, rule='in a fresh process without any Django configuration, all filters of Django are members of the module and work in a script; non-trivial: distinct script')
def standalone(rng, i, rec):
    s, want = SNIPPETS[i % 3]
    rec.event()
    rec.sig(s)
    p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', PLAIN % s, os.environ.get('HV_REPO', '/repo') + '/src'], capture_output=True, text=True, timeout=150, cwd=rec.tmp)
    if p.stdout.strip() != ascii(want): rec.violation('standalone', 'expected %r\n     got %s %s' % (want, p.stdout, p.stderr[-1500:]), s)

regress.probes(check)
