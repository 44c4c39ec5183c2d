"""try/else, ?blocks and ? ! qualifiers: a failure is contained and leaves no trace."""
from hv.core import Check
from hv import regress, doc as D, gen as G, expr as X
from hv.difftest import diff_case, run_real, run_model, agree, compare, shrunk, write

check = Check('C08', ['values assigned to variables inside a failed branch are not inspected'])

PROFILE = dict(try_=10, short=6, if_=3, for_=4, while_=1, tag=12, text=10, def_=4, hyper=6, fails=.5, probes=True, exprdepth=2, errors=.02, budget=28, maxdepth=6, hostile=.05, embedexpr=.6, margins=.15, mods=.05)

@check.monitor('documents', 1400, rule='random documents with nested try/else and ?blocks whose branches fail at random places, sometimes deep inside tags, hypertags and loops; non-trivial: a branch other than the first was chosen')
def documents(rng, i, rec):
    diff_case(rng, rec, PROFILE, lambda stats, script: any(k[0] == 'try' and k[1] != 0 for k in stats))


class Planned(Exception): pass
class PlannedBase(BaseException): pass

EXCEPTIONS = [Planned, Planned, KeyError, ValueError, TypeError, AttributeError, NameError, StopIteration, AssertionError, RecursionError, MemoryError, OSError, UnicodeError, ZeroDivisionError, RuntimeError, LookupError, SyntaxError, ImportError, PlannedBase, GeneratorExit, KeyboardInterrupt]

FAULTY = dict(PROFILE, fails=.1, errors=0, probes=True, exprdepth=3, embedexpr=1)

@check.monitor('faults', 380, rule='fault injection: an exception of a random class (also StopIteration, GeneratorExit, KeyboardInterrupt) is raised by the k-th call of a probe function, for up to 6 points k of a document; the innermost enclosing try must contain it if and only if it is an Exception; output and events must be those predicted; non-trivial: every injected fault')
def faults(rng, i, rec):
    g = G.DocGen(rng, FAULTY)
    blocks = g.document()
    seed = rng.random()
    d, script, m, it, r = compare(blocks, seed, probes=True)
    if m is None: return rec.stat('skipped')
    if d: return rec.violation('output', d, script)
    n = sum(1 for e in m.log if e[0] == 'P')
    rec.event(len(m.log) + 1)
    if not n: return rec.stat('no probes')
    points = list(range(1, n + 1))
    rng.shuffle(points)
    for k in points[:6]:
        exc = rng.choice(EXCEPTIONS)
        real = lambda s, context=None, probes=False: run_real(s, context=context, probes=probes, fault=(k, exc))
        model = lambda bs, context=None, probes=False: run_model(bs, context=context, probes=probes, fault=(k, exc))
        d, script, m, it, r = compare(blocks, seed, probes=True, real=real, model=model)
        if m is None: continue
        rec.event(len(m.log) + 1)
        rec.sig(script, k, exc.__name__)
        rec.stat(('contained ' if m.exc is None else 'propagated ') + ('Exception' if issubclass(exc, Exception) else 'BaseException'))
        rec.show('%s   %s raised by the call no. %d' % (script, exc.__name__, k))
        if d: return rec.violation('fault', '%s raised by the call no. %d of P: %s' % (exc.__name__, k, d), script)


@check.monitor('no-trace', 800, rule='metamorphic: a failing branch with random content, put before a good branch at a random place of a document, must not change the output; non-trivial: the document has 3+ lines of output')
def no_trace(rng, i, rec):
    p = dict(G.DEFAULT, texttail=0, budget=18, try_=3, short=2, def_=2, hyper=4, hostile=.1, margins=.15, errors=0)
    g = G.DocGen(rng, p)
    blocks = g.document()
    tries = [b for b in D.walk_blocks(blocks) if isinstance(b, D.Try)]
    if not tries: 
        spots = [blocks] + [s for b in D.walk_blocks(blocks) if not isinstance(b, D.Def) for s in D.sub_bodies(b) if isinstance(s, list)]
        s = rng.choice(spots)
        t = D.Try(branches=[D.Body(blocks=[D.Tag(chain=[('i', [])], text=D.Text(kind='|', lines=[('', ['good'])]))])])
        s.insert(rng.randint(1, len(s)) if s else 0, t)
        tries = [t]
    from hv.shrink import texts
    def cut(bs):
        for b in D.walk_blocks(bs):
            for t in texts(b): t.lines = t.lines[:1]            # a tail of text is relative to the column of its headline
    cut(blocks)
    seed = rng.random()
    try: a = run_real(write(blocks, seed, vary=0))
    except ValueError: return
    try:
        if run_model(blocks)[0].exc is not None: return
    except OverflowError: return
    # add a branch that fails; the content is closed (only literals) and fails at a random place
    g2 = G.DocGen(rng, dict(p, budget=6, assign=0, def_=0, hyper=0, maxdepth=3))
    t = rng.choice(tries)
    g2.uid = 5000
    bad = g2.document()
    g3 = G.DocGen(rng, dict(p, budget=4, assign=0, def_=0, hyper=0, maxdepth=3))
    g3.control[-1] += 1
    g3.uid = 9000
    bad.insert(rng.randint(0, len(bad)), g3.failing_block(1))
    if bad: bad[0].margin = 0
    if any(isinstance(b, (D.Def, D.Context)) for b in D.walk_blocks(bad)): return
    cut(bad)
    t.branches = [D.Body(blocks=bad)] + list(t.branches)
    try: script = write(blocks, seed, vary=0)
    except ValueError: return
    b = run_real(script)
    rec.event(2)
    rec.show(script)
    if a.out and a.out.count('\n') > 1: rec.sig(script)
    if (a.out, a.error) != (b.out, b.error): rec.violation('trace of a failed branch', 'without the branch %r\n     with it %r' % (a, b), script)


FALSE = [0, '', [], (), {}, 0.0, False, None, b'', set()]

@check.monitor('qualifiers', 2400, rule='x? and x! in text, strings, attributes and expressions, for values that are truthy, falsy, undefined keys or raise: ? gives an empty string instead of a false value or an exception, ! refuses a false value; non-trivial: every case')
def qualifiers(rng, i, rec):
    q = rng.choice('??!')
    kind = rng.choice(['true', 'true', 'false', 'raise'])
    calls = []
    val = rng.choice(['v<', 7, [1], 'z', -1.5, ('a',)]) if kind == 'true' else rng.choice(FALSE)
    def f(*a):
        calls.append(1)
        if kind == 'raise': raise rng.choice([KeyError, TypeError, ValueError, StopIteration, AssertionError])('planned')
        return val
    class O: 
        @property
        def a(self): return f()
        def __getitem__(self, k): return f()
        def __call__(self): return f()
    atom = rng.choice(['o()', 'o.a', 'o[1]', 'o["k"]', 'o.a', '(1 and o.a)', '[o.a][0]', '(o.a)', 'd[o.a]' if kind == 'raise' else 'o.a', 'v' if kind != 'raise' else 'o.a'])
    want = None
    s = str(val)
    esc = s.replace('<', '&lt;')
    ok = kind == 'true'
    form = rng.randint(0, 8)
    err = None
    if q == '!' and kind == 'false': err = 'FalseValueEx'
    if q == '!' and kind == 'raise': err = 'any'
    res = s if ok else ''
    simple = atom[0] in 'ov' or atom[0] == 'd'
    if form <= 1:
        x = '{%s%s}' % (atom, q)
        script, want = '| a%sb' % x, 'a%sb' % (res.replace('<', '&lt;'))
    elif form == 2: script, want = '| a{%s}%s' % (atom, q) + 'b', 'a%sb' % res.replace('<', '&lt;')
    elif form == 3 and simple: script, want = '| a$%s%s b' % (atom, q), 'a%s b' % res.replace('<', '&lt;')
    elif form == 4: script, want = "| {'<%s>'}" % ('{%s}%s' % (atom, q)), '&lt;%s&gt;' % res.replace('<', '&lt;')
    elif form == 5: script, want = 'p title={%s%s}' % (atom, q), '<p title="%s"></p>' % res.replace('<', '&lt;') if not (ok and type(val) is bool) else None
    elif form == 6: script, want = '/ {(%s%s) "x"}' % (atom, q), res + 'x'
    elif form == 7: script, want = 'if %s%s\n  | yes\nelse\n  | no' % (atom, q) if atom[0] in 'ov' else 'if (%s%s)\n  | yes\nelse\n  | no' % (atom, q), 'yes' if ok else 'no'
    else: script, want = '| {%s%s or "dflt"}' % (atom, q), (s if ok else 'dflt').replace('<', '&lt;')
    if want is None: return
    pre = 'context $o, $v, $d\n'
    rescue = rng.random() < .3
    if rescue: script = 'try\n  %s\nelse\n  | rescued' % script.replace('\n', '\n  ')
    r = run_real(pre + script, context=dict(o=O(), v=val, d={}))
    rec.event(1 + len(calls))
    rec.sig(script, kind, s)
    rec.show('%s   %s %r' % (script, kind, val))
    if err:
        if rescue:
            if r.out != 'rescued': rec.violation('qualifier', 'expected the failure to be contained, got %r; value: %s %r' % (r, kind, val), script)
        elif r.exc is None or err != 'any' and err != r.error: rec.violation('qualifier', 'expected exception %s, got %r; value: %s %r' % (err, r, kind, val), script)
    elif r.out != want: rec.violation('qualifier', 'expected %r\n     got %r; value: %s %r' % (want, r, kind, val), script)

regress.probes(check)
