"""Independence of renderings: sequences, repetitions, nested renderings, threads, processes."""
import json, os, random, subprocess, sys, threading
from hv.core import Check, ROOT
from hv import gen as G, sched as S
from hv.difftest import run_real, run_model, write, agree

check = Check('C14', ['threads run one at a time under a random deterministic scheduler that switches at probe calls or at lines of the library; in addition they run freely with a tiny switch interval',
                      'data races below the level of Python bytecodes are excluded by the interpreter'])

MODULES = {
    'shared.hy': '%Card @b title\n  div .card\n    h1 | {title}\n    @ b\n$names = ["x", "y"]\n$base = 10',
    'outer.hy': 'from .shared import %Card as Inner, $base\n%Box @b n\n  Inner "n{n + base}"\n    @ b\n$top = base * 2',
    'mutable.hy': '%Acc n\n  $l = [1, 2]\n  $d = {"a": [0]}\n  $ l.append(n)\n  $ d["a"].append(n)\n  $ d.update(b = n)\n  $s = {1}\n  $ s.add(n)\n  | {l} {d} {len(s)}\n%Def n a=[] b={dict(k = [1])}\n  $ a.append(n)\n  $ b["k"].append(n)\n  | {a} {b["k"]}',
    'bad.hy': '$q = 1\n| {nothing}',
    'sub/deep.hy': 'from ..outer import %Box, $top\n$deep = top + 1\n%Deep @b\n  Box deep\n    @ b',
}

ODD = [chr(0x2766 + n) for n in range(14)]          # the parser uses some of these for its own purposes

def odd(chars, k, tab):
    i = '\t' if tab else '  '
    t = ''.join(chars)
    return 'p\n%sb "%s"\n%s%s| %s%d\n%s/ %s' % (i, t, i, i, t, k, i, t) if k % 2 else 'p\n%si title="%s"\n%s%s| %s%d\n%s/ %s' % (i, t, i, i, t, k, i, t), {}, 'TypeErrorEx' if k % 2 else '<p>\n%s<i title="%s">\n%s%s%s%d\n%s</i>\n%s%s\n</p>' % (i, t, i, i, t, k, i, i, t)

# (script, context, expected output or name of exception)
def sensitive(r):
    k = r.randint(0, 99)
    return r.choice([
        lambda: ('$l = [1]\n$ l.append(%d)\n| {l}' % k, {}, '[1, %d]' % k),
        lambda: ('%%H a=[]\n  $ a.append(%d)\n  | {a}\nH\nH' % k, {}, '[%d]\n[%d]' % (k, k)),
        lambda: ('%%H @b x={ {} }\n  $ x.update(k=%d)\n  | {len(x)}{x["k"]}\n  @ b\nH | t' % k, {}, '1%d\nt' % k),
        lambda: ('context $x\n%%H a={x}\n  | {a}%d\nH\nH 3' % k, dict(x='<%d>' % k), '&lt;%d&gt;%d\n3%d' % (k, k, k)),
        lambda: ('$len = %d\n$str = "s"\n| {len}{str}' % k, {}, '%ds' % k),
        lambda: ('%%p @b\n  i .own%d\n    @ b\np | x' % k, {}, '<i class="own%d">\n  x\n</i>' % k),
        lambda: ('| {len("abc")}{str(%d)}' % k, {}, '3%d' % k),
        lambda: ('p\n  | {1 // 0}', {}, 'ZeroDivisionError'),
        lambda: ('div\n  p\n    ul\n      | {no_such%d}' % k, {}, 'NameErrorEx'),
        lambda: ('div\n    p\n  b', {}, 'SyntaxErrorEx'),
        lambda: ('div\n\tp\n  b', {}, 'IndentationError'),
        lambda: ('div\n  try\n    p\n      | a{%d}\n      | {1/0}\n  else\n    | e%d' % (k, k), {}, '<div>\n  e%d\n</div>' % k),
        lambda: ('div\n  ?p : b {1/0}\n  | z%d' % k, {}, '<div>\n  z%d\n</div>' % k),
        lambda: ('context $x\n$x += [%d]\n| {x}' % k, dict(x=(lambda: [1])), '[1, %d]' % k),
        lambda: ('for i, c in cycle(range(4), ["a", "b"])\n  | {i}{c}%d' % k, {}, '\n'.join('%d%s%d' % (i, 'ab'[i % 2], k) for i in range(4))),
        lambda: ('$g = changes([%d, %d, 2])\nfor v, c in g\n  | {v}{c}' % (k, k), {}, '%dTrue\n%dFalse\n2%s' % (k, k, k != 2)),
        lambda: ('from .outer import *\nBox 1 | t%d\n| {top}' % k, {}, '<div class="card">\n  <h1>n11</h1>\n  t%d\n</div>\n20' % k),
        lambda: ('from .sub.deep import %%Deep, $deep\np\n  Deep : b | %d\n| {deep}' % k, {}, '<p>\n  <div class="card">\n    <h1>n31</h1>\n    <b>%d</b>\n  </div>\n</p>\n21' % k),
        lambda: ('from .shared import $names, $base as b%d\n$base = 1\n| {b%d}' % (k, k), {}, '10'),
        lambda: ('from .mutable import %%Acc, %%Def\nAcc %d\nDef %d' % (k + 5, k), {}, "[1, 2, %d] {'a': [0, %d], 'b': %d} 2\n[%d] [1, %d]" % (k + 5, k + 5, k + 5, k, k)),
        lambda: ('from .bad import $q\n| {q}', {}, 'NameErrorEx'),
        lambda: ('from .missing%d import $q' % k, {}, 'ModuleNotFoundEx'),
        lambda: ('from .shared import $base\n%%H @b\n  p | {__file__[-7:]}%d\n  @ b\nH | {__file__[-8:]}{str(__package__)}' % k, {}, '<p>main.hy%d</p>\n/main.hyNone' % k),
        lambda: ('context $nothing%d' % k, {}, 'ImportErrorEx'),
        lambda: ('custom "el-%d" a=1 | {"x" : upper}' % k, {}, '<el-%d a="1">X</el-%d>' % (k, k)),
        lambda: ('br | x%d' % k, {}, 'VoidTagEx'),
        lambda: odd(r.sample(ODD, r.randint(1, 8)), k, False),
        lambda: odd(r.sample(ODD, r.randint(1, 8)), k, True),
        lambda: ('p %d' % k, {}, 'TypeErrorEx'),
        lambda: ('%%H @b\n  @ b\n  p\n    @ b\nH\n  i | %d' % k, {}, '<i>%d</i>\n<p>\n  <i>%d</i>\n</p>' % (k, k)),
    ])()


class Item:
    """A rendering with a known outcome."""
    def __init__(self, rng, probes=None, simple=.5, budget=14):
        while True:
            if rng.random() < simple:
                self.script, ctx, self.want = sensitive(rng)
                self.make = lambda ctx=ctx: {k: v() if callable(v) else v for k, v in ctx.items()}
                self.model = None
                return
            g = G.DocGen(rng, dict(budget=budget, probes=probes is not None, try_=4, def_=4, hyper=5, errors=.02, exprdepth=2, hostile=.1))
            blocks = g.document()
            try:
                self.script = write(blocks, rng.random())
                m, _ = run_model(blocks, probes=probes is not None)
            except (ValueError, OverflowError): continue
            if ' at 0x' in str(m.out) or ' at 0x' in str(m.exc): continue
            self.model = m
            self.make = dict
            return

    def check(self, r):
        """Description of a difference or None."""
        if self.model is not None: return agree(self.model, r, log=False)
        if r.exc is not None:
            if self.want not in [c.__name__ for c in type(r.exc).__mro__]: return 'expected %r, got %r' % (self.want, r)
        elif r.out != self.want: return 'expected %r, got %r' % (self.want, r)
        return None

    def run(self, rt, folder):
        kw = self.make()
        return run_real(self.script, context=kw, runtime=rt, file=os.path.join(folder, 'main.hy'))


def folder(rec):
    d = os.path.join(rec.tmp, 'iso%d' % os.getpid())
    if not os.path.exists(d):
        for name, text in MODULES.items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f: f.write(text)
    return d


@check.monitor('sequence', 260, rule='a random sequence of renderings (also failing ones, with imports, shadowed built-ins, mutable defaults) by one or two runtimes, with repetitions; every result must be the predicted one whatever was rendered before; non-trivial: every sequence')
def sequence(rng, i, rec):
    from hypertag import HyperHTML
    d = folder(rec)
    items = [Item(rng, simple=.65) for _ in range(rng.randint(3, 8))]
    rts = [HyperHTML() for _ in range(rng.randint(1, 2))]
    order = [rng.choice(items) for _ in range(rng.randint(6, 14))]
    done = []
    for it in order:
        r = it.run(rng.choice(rts) if rng.random() < .9 else HyperHTML(), d)
        rec.event()
        diff = it.check(r)
        done.append(it.script)
        if diff: return rec.violation('result depends on earlier renderings', '%s\nafter:\n%s' % (diff, '\n-----\n'.join(done[-6:-1])), it.script)
    rec.sig(*done)
    rec.show('\n-----\n'.join(done[:4]))


@check.monitor('repeat', 240, rule='the same script rendered 4 times, by the same and by new runtimes and with other renderings in between: the same text or the same exception with the same message; non-trivial: every script')
def repeat(rng, i, rec):
    from hypertag import HyperHTML
    d = folder(rec)
    it = Item(rng, simple=.4, budget=24)
    other = Item(rng)
    rt = HyperHTML()
    seen = []
    for k in range(4):
        r = it.run(rt if k != 2 else HyperHTML(), d)
        rec.event()
        seen.append((r.out, r.error, str(r.exc)))
        if k == 0:
            diff = it.check(r)
            if diff: return rec.violation('result', diff, it.script)
        elif seen[-1] != seen[0]: return rec.violation('a repeated rendering differs', 'first %r\nnow   %r' % (seen[0], seen[-1]), it.script)
        if rng.random() < .5: other.run(rt, d)
    rec.sig(it.script)


@check.monitor('nested', 300, rule='functions called from inside a script start other renderings (same runtime, other runtimes, failing ones, the same script); outer and inner results must be the predicted ones; non-trivial: 1+ inner rendering')
def nested(rng, i, rec):
    from hypertag import HyperHTML
    d = folder(rec)
    rt = HyperHTML()
    outer = Item(rng, probes=True, simple=0)
    inner = [Item(rng, simple=.7) for _ in range(3)]
    count = [0]
    bad = []
    def probe():
        if count[0] >= 6 or rng.random() < .3: return
        count[0] += 1
        it = rng.choice(inner)
        diff = it.check(it.run(rt if rng.random() < .7 else HyperHTML(), d))
        if diff: bad.append((diff, it.script))
    r = run_wrapped(outer, rt, d, probe)
    rec.event(1 + count[0])
    if count[0]: rec.sig(outer.script)
    rec.show(outer.script)
    if bad: return rec.violation('inner rendering', bad[0][0] + '\nstarted from:\n' + outer.script, bad[0][1])
    diff = outer.check(r)
    if diff: rec.violation('outer rendering', diff, outer.script)


def run_wrapped(item, rt, d, probe):
    """Run an item whose probes call probe() first."""
    from hv import stdmodel
    rec = stdmodel.Recorder(None)
    def wrap(f):
        def g(*a, **k):
            probe()
            return f(*a, **k)
        return g
    kw = item.make()
    kw.update({n: wrap(f) if callable(f) and not isinstance(f, type) else f for n, f in rec.probes().items()})
    return run_real(item.script, context=kw, runtime=rt, file=os.path.join(d, 'main.hy'))


def report(rec, s, jobs, results, mode):
    if s is not None and s.hung: return rec.violation('threads are blocked', '%s: no end after 120 s' % mode, '\n-----\n'.join(it.script for l in jobs for it in l))
    for k, res in enumerate(results):
        if isinstance(res, BaseException): raise res
        for it, r in zip(jobs[k], res):
            diff = it.check(r)
            if diff: return rec.violation('result in a thread (%s)' % mode, '%s\nother threads:\n%s' % (diff, '\n-----\n'.join(x.script for j, l in enumerate(jobs) if j != k for x in l)), it.script)


@check.monitor('interleaved', 200, rule='2-4 threads render documents with one shared runtime (or their own); control moves to a random thread at every call of a user function; every result must be the predicted one; non-trivial: a distinct interleaving with 2+ switches')
def interleaved(rng, i, rec):
    from hypertag import HyperHTML
    d = folder(rec)
    n = rng.randint(2, 4)
    shared = HyperHTML()
    rts = [shared if rng.random() < .7 else HyperHTML() for _ in range(n)]
    same = Item(rng, probes=True, simple=0) if rng.random() < .3 else None
    jobs = [[same if same and rng.random() < .8 else Item(rng, probes=True, simple=.2) for _ in range(rng.randint(1, 3))] for _ in range(n)]
    s = S.Sched(random.Random(rng.random()), n, .8)
    results = s.run([lambda k=k: [run_wrapped(it, rts[k], d, s.point) for it in jobs[k]] for k in range(n)])
    rec.event(sum(map(len, jobs)) + s.steps)
    rec.stat('switches', s.steps)
    if s.steps > n + 1: rec.sig(tuple(s.trace), jobs[0][0].script)
    rec.show('\n-----\n'.join(l[0].script for l in jobs))
    report(rec, s, jobs, results, 'switches at calls')


@check.monitor('lines', 64, rule='2-3 threads render small scripts with a shared fresh runtime (also importing the same modules); control moves to a random thread at random lines of the library; every result must be the predicted one; non-trivial: a distinct interleaving with 2+ switches')
def lines(rng, i, rec):
    import hypertag
    from hypertag import HyperHTML
    d = folder(rec)
    root = os.path.dirname(os.path.realpath(hypertag.__file__)) + os.sep
    n = rng.choice([2, 2, 3])
    rt = HyperHTML()
    if rng.random() < .3: rt.import_builtins()
    jobs = [[Item(rng, simple=.8, budget=5)] for _ in range(n)]
    if rng.random() < .5: jobs = [[rng.choice(jobs)[0]] for _ in range(n)]
    s = S.Sched(random.Random(rng.random()), n, rng.choice([.003, .02, .1]))
    results = s.run([lambda k=k: S.traced(s, lambda: [it.run(rt, d) for it in jobs[k]], root) for k in range(n)])
    rec.event(n + s.steps)
    rec.stat('switches', s.steps)
    rec.stat('points', s.points)
    if s.steps > n + 1: rec.sig(tuple(s.trace), jobs[0][0].script)
    rec.show('\n-----\n'.join(l[0].script for l in jobs))
    report(rec, s, jobs, results, 'switches at lines of the library')


@check.monitor('free', 40, rule='3-6 threads render free running with a switch interval of 20 microseconds, starting together with a fresh shared runtime; non-trivial: every case')
def free(rng, i, rec):
    from hypertag import HyperHTML
    d = folder(rec)
    n = rng.randint(3, 6)
    rt = HyperHTML()
    jobs = [[Item(rng, simple=.7) for _ in range(3)] for _ in range(n)]
    results = [None] * n
    barrier = threading.Barrier(n)
    def body(k):
        barrier.wait()
        try: results[k] = [it.run(rt, d) for it in jobs[k]]
        except BaseException as ex: results[k] = ex
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-5)
    try:
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
        for t in ts: t.start()
        for t in ts: t.join(120)
        if any(t.is_alive() for t in ts): return rec.violation('threads are blocked', 'no end after 120 s', '\n-----\n'.join(it.script for l in jobs for it in l))
    finally: sys.setswitchinterval(old)
    rec.event(sum(map(len, jobs)))
    rec.sig(*[it.script for l in jobs for it in l])
    report(rec, None, jobs, results, 'free running')


CHILD = '''
import sys, json
sys.path[:0] = [%r, %r]
import hypertag
from hypertag import HyperHTML
jobs = json.load(sys.stdin)
out = []
rt = HyperHTML()
for script, file in jobs:
    try: r = [rt.render(script, file), None, None]
    except Exception as ex: r = [None, type(ex).__name__, str(ex)]
    out.append(r)
json.dump(out, sys.stdout)
'''

@check.monitor('processes', 8, 60, rule='25 scripts rendered in two fresh processes (different hash seeds, reversed order) and in this one, where thousands of others were rendered before: the same texts, and the same exceptions with the same messages; non-trivial: every script')
def processes(rng, i, rec):
    from hypertag import HyperHTML
    d = folder(rec)
    items = []
    while len(items) < 25:
        it = Item(rng, simple=.4)
        if not it.make() : items.append(it)
    jobs = [[it.script, os.path.join(d, 'main.hy')] for it in items]
    repo = os.environ.get('HV_REPO', '/repo') + '/src'
    outs = []
    for seed, order in (('0', 1), (str(rng.randint(1, 10 ** 6)), -1)):
        p = subprocess.run([sys.executable, '-B', '-c', CHILD % (repo, ROOT)], input=json.dumps(jobs[::order]), capture_output=True, text=True, encoding='utf-8', env=dict(os.environ, PYTHONHASHSEED=seed, PYTHONIOENCODING='utf-8'), timeout=300)
        if p.returncode: return rec.violation('process failed', p.stderr[-2000:])
        outs.append(json.loads(p.stdout)[::order])
    rt = HyperHTML()
    for k, it in enumerate(items):
        r = it.run(rt, d)
        rec.event(3)
        rec.sig(it.script)
        here = [r.out, r.error, None if r.exc is None else str(r.exc)]
        diff = it.check(r)
        if diff: return rec.violation('result', diff, it.script)
        if not here == outs[0][k] == outs[1][k]: return rec.violation('result differs between processes', 'here      %r\nprocess 1 %r\nprocess 2 %r' % (here, outs[0][k], outs[1][k]), it.script)
