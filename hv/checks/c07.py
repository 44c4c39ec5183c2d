"""Control blocks: if/elif/else, for/else, while/else."""
from hv.core import Check
from hv import regress, doc as D
from hv.difftest import diff_case, run_real

check = Check('C07', ['"else" of a loop is executed if and only if there were no iterations, as documented (unlike in Python)'])

PROFILE = dict(if_=9, for_=9, while_=5, try_=1, text=10, tag=9, assign=6, def_=3, hyper=4, probes=True, exprdepth=2, budget=30, maxdepth=6, inline_ctl=.3, hostile=.05, attrs=.2, embedexpr=.7, margins=.1, mods=.03, texttail=.1)

@check.monitor('documents', 2400, rule='random documents of nested control blocks, with probes in conditions and iterables; events and the output are compared with the reference interpreter; non-trivial: 2+ control blocks executed')
def documents(rng, i, rec):
    diff_case(rng, rec, PROFILE, lambda stats, script: sum(stats.get(('block', k), 0) for k in ('If', 'For', 'While')) > 1)


class It:
    """Iterable whose use is logged."""
    def __init__(self, items, log, fail=None, hint=False):
        self.items, self.log, self.fail = items, log, fail
    def __iter__(self):
        self.log.append('iter')
        return It2(self)

class It2:
    def __init__(self, it): self.it, self.k = it, 0
    def __iter__(self): return self
    def __next__(self):
        k, self.k = self.k, self.k + 1
        self.it.log.append('next %d' % k)
        if self.it.fail == k: raise ZeroDivisionError('planned')
        if k >= len(self.it.items): raise StopIteration
        return self.it.items[k]

class Seq:
    """Old-style sequence."""
    def __init__(self, items): self.items = items
    def __getitem__(self, k): return self.items[k]

class NoLen(list):
    def __bool__(self): return False


def wrap(rng, body):
    """Put the lines of a script in some construct which doesn't change what they do."""
    x = rng.randint(0, 6)
    ind = lambda s, n: '\n'.join(' ' * n + l for l in s.split('\n'))
    if x == 1: return 'p\n' + ind(body, 2), '<p>\n%s\n</p>'
    if x == 2: return 'if True\n' + ind(body, 4), '%s'
    if x == 3: return 'try\n' + ind(body, 1), '%s'
    if x == 4: return '%H\n' + ind(body, 2) + '\nH', '%s'
    if x == 5: return 'for zz in [1]\n' + ind(body, 2), '%s'
    if x == 6: return '%H @b\n  @ b\nH\n' + ind(body, 2), '%s'
    return body, '%s'


@check.monitor('iterables', 4000, rule='"for" over iterables of every kind (lists, dicts and views, strings, ranges, generators, iterators, old-style sequences, falsy non-empty lists, ones that fail half-way): the body is executed once per item in order, "else" iff there were no items, the iterator is not pulled more than needed; non-trivial: 2+ items')
def iterables(rng, i, rec):
    n = rng.choice([0, 0, 1, 2, 3, 5])
    items = [rng.choice(['a', 'b', 'c', 1, 2, None, 0, '']) for _ in range(n)]
    log = []
    fail = rng.randint(0, n) if rng.random() < .12 else None
    kind = rng.choice(['list', 'tuple', 'gen', 'iter', 'It', 'It', 'Seq', 'NoLen', 'dict', 'items', 'str', 'range', 'map', 'set', 'dom', 'enumerate', 'reversed', 'bytes', 'bad'])
    if fail is not None: kind = 'It'
    if kind == 'list': v = items
    elif kind == 'tuple': v = tuple(items)
    elif kind == 'gen': v = (x for x in items)
    elif kind == 'iter': v = iter(items)
    elif kind == 'It': v = It(items, log, fail)
    elif kind == 'Seq': v = Seq(items)
    elif kind == 'NoLen': v = NoLen(items)
    elif kind == 'dict': v = {('k%d' % j): x for j, x in enumerate(items)}; items = list(v)
    elif kind == 'items': v = {('k%d' % j): x for j, x in enumerate(items)}.items(); items = list(v)
    elif kind == 'str': v = 'xyzw<&'[:n]; items = list(v)
    elif kind == 'range': v = range(n); items = list(v)
    elif kind == 'map': items = list(range(n)); v = map(int, list(items))
    elif kind == 'set': v = {5} if n else set(); items = list(v)
    elif kind == 'enumerate': v = enumerate(items); items = list(enumerate(items))
    elif kind == 'reversed': v = reversed(items); items = items[::-1]
    elif kind == 'bytes': v = bytes(range(n)); items = list(v)
    elif kind == 'dom':
        from hypertag import DOM
        items = [DOM.Node(tag=None, body='t') for _ in range(min(n, 2))] if False else []
        v = DOM()
    else: v = rng.choice([5, None, 2.5, True])
    else_ = rng.random() < .6
    seen = []
    body = 'for x in it\n  $ P(x)\n  i | t'
    if rng.random() < .2: body = 'for x in it | t{P(x)}'
    inline = '|' in body.split('\n')[0]
    if else_: body += '\nelse\n  $ Q()\n  b | none'
    done = []
    tail = rng.random() < .5
    wrapped, fmt = wrap(rng, body)
    script = 'context $it, $P, $Q\n' + wrapped
    r = run_real(script, context=dict(it=v, P=lambda x: seen.append(x) or '', Q=lambda: done.append(1) or ''))
    rec.event(len(seen) + len(log) + len(done) + 1)
    rec.stat(kind)
    if len(items) > 1: rec.sig(wrapped, kind, repr(items), fail)
    rec.show('%s   it: %s' % (script, kind))
    info = ' (it: %s of %r)' % (kind, items)
    protected = wrapped.startswith('try')
    if kind == 'bad':
        if r.exc is None and not protected or seen or done: rec.violation('not iterable', '%r %r%s' % (r, seen, info), script)
        return
    if fail is not None:
        if r.exc is None and not protected: return rec.violation('exception was lost', repr(r) + info, script)
        if r.exc is not None and not isinstance(r.exc, ZeroDivisionError): return rec.violation('other exception', repr(r) + info, script)
        if seen != items[:fail] or done: rec.violation('items', 'seen %r, else %r%s, fails at %d' % (seen, done, info, fail), script)
        return
    if r.exc is not None: return rec.violation('exception', repr(r) + info, script)
    if len(seen) != len(items) or any(a is not b and a != b for a, b in zip(seen, items)): return rec.violation('items', 'seen %r%s' % (seen, info), script)
    if len(done) != (1 if else_ and not items else 0): return rec.violation('else', 'executed %d times%s' % (len(done), info), script)
    if kind == 'It' and (log.count('iter') != 1 or log[1:] != ['next %d' % k for k in range(len(items) + 1)]): return rec.violation('iterator was used differently', '%r%s' % (log, info), script)
    one = 't' if inline else '<i>t</i>'
    want = '\n'.join([one] * len(items)) if items else '<b>none</b>' if else_ else ''
    if fmt != '%s':
        want = '\n'.join('  ' + l for l in want.split('\n')) if want else None
        want = fmt % want if want is not None else None
    else: want = want
    if inline and len(items) > 1:
        # layout of inlined bodies is the subject of another property
        if r.out.count('t') != len(items): rec.violation('output', '%r%s' % (r.out, info), script)
    elif want is not None and r.out != want: rec.violation('output', 'expected %r\n     got %r%s' % (want, r.out, info), script)


class Truth:
    def __init__(self, k, value, log, kind):
        self.k, self.value, self.log = k, value, log
        self.__class__ = {'bool': TB, 'len': TL, 'fail': TF}[kind]
class TB(Truth):
    def __bool__(self):
        self.log.append(self.k)
        return self.value
class TL(Truth):
    def __len__(self):
        self.log.append(self.k)
        return 1 if self.value else 0
class TF(Truth):
    def __bool__(self):
        self.log.append(self.k)
        raise ZeroDivisionError('planned')

TRUE = [1, 'a', [0], (None,), {'k': 0}, 2.5, True, object, '0', ' ', -1, b'x', lambda: 0]
FALSE = [0, '', [], (), {}, 0.0, False, None, b'', set(), range(0)]

@check.monitor('conditions', 4000, rule='if/elif/else chains over values of any type, also ones whose truth value is computed by a method (logged) or raises: exactly the first clause whose condition is true is rendered, later conditions are not tested; non-trivial: 2+ clauses')
def conditions(rng, i, rec):
    n = rng.choice([1, 1, 2, 3, 4])
    log, evals, conds, vals = [], [], {}, []
    for k in range(n):
        v = rng.random() < .45
        x = rng.random()
        if x < .6: obj = rng.choice(TRUE if v else FALSE)
        elif x < .95: obj = Truth(k, v, log, rng.choice(['bool', 'len']))
        else: obj, v = Truth(k, v, log, 'fail'), 'fail'
        conds['c%d' % k] = obj
        vals.append(v)
    else_ = rng.random() < .5
    lines = []
    for k in range(n):
        c = rng.choice(['c%d', 'c%d', '(c%d)', 'E(%d, c%d)', '$c%d'])
        c = c % ((k,) * c.count('%'))
        word = 'if' if k == 0 else 'elif'
        x = rng.random()
        if x < .4: lines += ['%s %s' % (word, c), '  i | b%d' % k, '  $R(%d)' % k]
        elif x < .5: lines += ['%s %s:' % (word, c), '  $R(%d)' % k, '  i | b%d' % k]
        elif x < .75: lines += ['%s %s | <i>b%d</i>{R(%d)}' % (word, c, k, k) if False else '%s %s / <i>b%d</i>{R(%d)}' % (word, c, k, k)]
        else: lines += ['%s %s' % (word, c), '  if 1', '    i | b%d' % k, '  $ R(%d)' % k]
    if else_: lines += rng.choice([['else', '  i | b99', '  $R(99)'], ['else / <i>b99</i>{R(99)}']])
    runs = []
    def E(k, v):
        evals.append(k)
        return v
    def R(k):
        runs.append(k)
        return ''
    wrapped, fmt = wrap(rng, '\n'.join(lines))
    script = 'context $E, $R, ' + ', '.join('$' + c for c in conds) + '\n' + wrapped
    r = run_real(script, context=dict(conds, E=E, R=R))
    first = next((k for k, v in enumerate(vals) if v), None)
    rec.event(1 + len(log) + len(evals) + len(runs))
    if n > 1: rec.sig(wrapped, repr([type(c).__name__ for c in conds.values()]), vals)
    rec.show('%s   %r' % (script, vals))
    info = '  truth values: %r' % vals
    limit = first if first is not None else n - 1
    if [k for k in log if k > limit] or [k for k in evals if k > limit]: return rec.violation('a condition after the chosen clause was evaluated', '%r %r %s' % (log, evals, info), script)
    if evals != sorted(set(evals)): return rec.violation('conditions evaluated out of order or repeatedly', '%r%s' % (evals, info), script)
    if first is not None and vals[first] == 'fail':
        if runs: rec.violation('clause executed', '%r%s' % (runs, info), script)
        if r.exc is None and not wrapped.startswith('try'): rec.violation('exception was lost', repr(r) + info, script)
        return
    if r.exc is not None: return rec.violation('exception', repr(r) + info, script)
    exp = [first] if first is not None else [99] if else_ else []
    if runs != exp: return rec.violation('wrong clause', 'expected %r, executed %r%s' % (exp, runs, info), script)
    if r.out.count('<i>') != len(exp) or exp and '<i>b%d</i>' % exp[0] not in r.out: rec.violation('output', '%r%s' % (r.out, info), script)


@check.monitor('while', 1500, rule='"while" with a condition from a scripted sequence of truth values: the body is executed once per true value, in order, the condition is not tested again after it was false; "else" iff there were no iterations; non-trivial: every case')
def while_(rng, i, rec):
    n = rng.choice([0, 0, 1, 2, 3, 7, 40])
    seq = [rng.choice([True, 1, 'x', [0]]) for _ in range(n)] + [rng.choice(FALSE)]
    events = []
    pos = [0]
    def C():
        k = pos[0]
        pos[0] += 1
        events.append('C%d' % k)
        return seq[k]
    def B(x=0):
        events.append('B')
        return ''
    def L():
        events.append('L')
        return ''
    else_ = rng.random() < .5
    body = rng.choice(['while C()\n  $B()\n  i | t', 'while (C()) / <i>t</i>{B()}', 'while C():\n  p\n    i | t\n  $ B()', 'while 1 and C()\n  $x = B()\n  i | t'])
    if else_: body += rng.choice(['\nelse\n  $ L()\n  b | e', '\nelse / <b>e</b>{L()}'])
    wrapped, fmt = wrap(rng, body)
    script = 'context $C, $B, $L\n' + wrapped
    r = run_real(script, context=dict(C=C, B=B, L=L))
    rec.event(len(events))
    rec.sig(wrapped, n, repr(seq[-1]))
    rec.show(script)
    want = []
    for k in range(n): want += ['C%d' % k, 'B']
    want.append('C%d' % n)
    if else_ and not n: want.append('L')
    if r.exc is not None: return rec.violation('exception', repr(r), script)
    if events != want: return rec.violation('events differ', 'expected %r\n     got %r' % (want, events), script)
    if r.out.count('<i>t</i>') != n or r.out.count('<b>e</b>') != (1 if else_ and not n else 0): rec.violation('output', repr(r), script)

regress.probes(check)
