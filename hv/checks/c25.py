"""Every expression is evaluated exactly when and as many times as written."""
from hv.core import Check
from hv import doc as D, expr as X, gen as G, regress
from hv.difftest import diff_case, run_real, Outcome

check = Check('C25', ['user functions of the workload log their calls and have no other effects', 'whether operands are converted (str, bool) exactly once is decided against the same expression evaluated by Python'])


# ---------------------------------------------------------------------------------------------------------------------
#  traces of random documents, compared with the reference interpreter

@check.monitor('traces', 2000, 80000, rule='random documents with probe calls in expressions of every kind: the sequence of probe events equals the one of the reference interpreter; non-trivial: 3+ events, distinct script')
def traces(rng, i, rec):
    p = dict(probes=True, budget=rng.choice([10, 18, 26]), hyper=10, def_=5, embed=6, chain=.4, attrs=.7, head=.4, for_=5, while_=2, short=2, try_=4, errors=rng.choice([0, 0, .06]), embedexpr=.5, mods=.05, margins=.1, texttail=.15)
    r = diff_case(rng, rec, p, feature=None)
    if r: rec.stat('events', len(r[4].log))


# ---------------------------------------------------------------------------------------------------------------------
#  scripts generated together with their traces

class Tracer:
    """Generates a script and the sequence of identifiers of probes its execution calls. Every probe P(n, v) occurs once in the script."""
    def __init__(self, rng, budget=14):
        self.rng = rng
        self.n = 0
        self.uid = 0
        self.budget = budget
        self.hypers = [[]]          # stack of lists of hypertags in scope: (name, has body, [(param, default trace | None)], function: body trace -> trace)
        self.body = None            # name of the body attribute of the enclosing definition

    def fresh(self, p):
        self.uid += 1
        return p + str(self.uid)

    def P(self, v='1'):
        self.n += 1
        return 'P(%d,%s)' % (self.n, v), [self.n]

    def e(self, d=2):
        """(source, trace, value) of an expression, value is True-like or False-like (1 or 0)."""
        r = self.rng
        v = r.choice([0, 1])
        if d == 0 or r.random() < .35:
            s, t = self.P(str(v))
            return s, t, v
        k = r.randint(0, 10)
        a, ta, va = self.e(d - 1)
        b, tb, vb = self.e(d - 1)
        if k == 0: return '(%s and %s)' % (a, b), ta + (tb if va else []), va and vb
        if k == 1: return '(%s or %s)' % (a, b), ta + ([] if va else tb), va or vb
        if k == 2: return '(not %s)' % a, ta, 0 if va else 1
        if k == 3:
            c, tc, vc = self.e(d - 1)
            return '(%s if %s else %s)' % (a, c, b), tc + (ta if vc else tb), va if vc else vb
        if k == 4: return '(not (%s if %s))' % (a, b), tb + (ta if vb else []), 0 if vb and va else 1
        if k == 5: return '(%s | %s)' % (a, b), ta + tb, va | vb
        if k == 6: return '[%s, %s][0]' % (a, b), ta + tb, va
        if k == 7:
            c, tc, vc = self.e(d - 1)
            s, t = '(%s <= %s <= %s)' % (a, b, c), ta + tb
            return s, t + (tc if va <= vb else []), 1 if va <= vb <= vc else 0
        if k == 8: return 'min(%s, %s)' % (a, b), ta + tb, min(va, vb)
        if k == 9: return 'sorted(reverse=%s, [%s])[0]' % (a, b), ta + tb, vb          # a named argument may come first
        return "dict(k=%s, l=%s)['k']" % (a, b), ta + tb, va

    def text(self, single=False):
        """(text source lines, trace)"""
        r = self.rng
        lines, t = [], []
        for _ in range(1 if single else r.choice([1, 1, 1, 2, 3])):
            line = 'w'
            for _ in range(r.choice([0, 1, 1, 2])):
                s, tt, _ = self.e()
                line += ' {%s}' % s + r.choice([' z', ''])
                t += tt
            lines.append(line)
        return lines, t

    def attrs(self):
        r = self.rng
        out, t, used = '', [], set()
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            if x < .2:
                s, tt = self.P("'c'")
                out += ' .{%s}' % s
            else:
                name = r.choice(['title', 'href', 'data-x', 'class'])
                s, tt = self.P("'v'")
                out += ' %s={%s}' % (name, s) if r.random() < .5 else ' %s=%s' % (name, s)
            t += tt
        return out, t

    def hyper_call(self):
        r = self.rng
        name, bodied, params, fun = r.choice([h for l in self.hypers for h in l])
        out, t, default = name, [], []
        positional = True
        given = {}
        for p, d in params:
            if positional and r.random() < .5:
                s, tt = self.P()
                out += ' {%s}' % s
                t += tt
                given[p] = 1
            else: positional = False
        for p, d in params:
            if p not in given and (d is None or r.random() < .5):
                s, tt = self.P()
                out += ' %s={%s}' % (p, s)
                t += tt
                given[p] = 1
        for p, d in params:
            if p not in given: default += d
        return out, t + default, bodied, fun

    def block(self, depth):
        """(lines, trace)"""
        r = self.rng
        self.budget -= 1
        kinds = ['text'] * 4 + ['assign', 'expr'] + (['tag'] * 6 + ['if', 'if', 'for', 'for', 'while', 'try', 'try', 'short', 'null'] + (['hyper'] * 6 if any(self.hypers) else []) if depth < 4 and self.budget > 0 else [])
        if depth < 3 and self.budget > 0 and not self.incontrol: kinds += ['def'] * 3
        if self.body: kinds += ['embed'] * 4
        return getattr(self, 'b_' + r.choice(kinds))(depth)

    incontrol = 0

    def blocks(self, depth, control=False):
        lines, t = [], []
        self.incontrol += control
        self.hypers.append([])
        for _ in range(self.rng.choice([1, 1, 2, 3])):
            if lines and self.rng.random() < .15: lines.append('')
            l, tt = self.block(depth + 1)
            lines += l
            t += tt
        self.hypers.pop()
        self.incontrol -= control
        return ['  ' + l if l else l for l in lines], t

    def b_text(self, depth):
        lines, t = self.text()
        return ['%s %s' % (self.rng.choice('|/'), lines[0])] + ['  ' + l for l in lines[1:]], t

    def b_assign(self, depth):
        r = self.rng
        s, t, _ = self.e()
        if r.random() < .3:
            s2, t2, _ = self.e()
            return ['$%s, %s = %s, %s' % (self.fresh('a'), self.fresh('a'), s, s2)], t + t2
        return ['$%s = %s' % (self.fresh('a'), s)], t

    def b_expr(self, depth):
        s, t, _ = self.e()
        return ['$ ' + s], t

    def b_embed(self, depth):
        b = self.body
        return [self.rng.choice(['@ %s' % b, '@ %s' % b, '| {len(%s) * 0}' % b, '@ %s[:1]' % b, "@ %s.select('p')" % b, "| {merge(%s.render())}" % b, 'p : i @ %s' % b, 'p title={merge(%s.render())} @ %s' % (b, b), 'if %s | y' % b, '. @ %s' % b])], []

    def b_tag(self, depth):
        r = self.rng
        line, t = '', []
        for k in range(r.choice([1, 1, 1, 2, 3])):
            a, ta = self.attrs()
            line += (' : ' if k else '') + r.choice(['p', 'div', 'b', 'ul']) + a
            t = ta + t
        return self.struct(line, t, depth)

    def struct(self, line, t, depth, allow=True):
        r = self.rng
        x = r.random()
        if not allow or x < .1: return [line], t
        if x < .45:
            l, tt = self.text()
            return ['%s %s %s' % (line, r.choice('|/'), l[0])] + ['  ' + z for z in l[1:]], tt + t
        if x < .6:
            l, tt = self.text(True)
            b, tb = self.blocks(depth)
            return ['%s: %s %s' % (line, r.choice('|/'), l[0])] + b, tt + tb + t
        b, tb = self.blocks(depth)
        return [line] + b, tb + t

    def b_null(self, depth):
        b, t = self.blocks(depth)
        return ['.'] + b, t

    def b_if(self, depth):
        r = self.rng
        lines, t, done = [], [], False
        for k in range(r.choice([1, 1, 2, 3])):
            c, tc, vc = self.e()
            b, tb = self.blocks(depth, True)
            lines += ['%s %s' % ('elif' if k else 'if', c)] + b
            if not done:
                t += tc
                if vc: t, done = t + tb, True
        if r.random() < .5:
            b, tb = self.blocks(depth, True)
            lines += ['else'] + b
            if not done: t = t + tb
        return lines, t

    def b_for(self, depth):
        r = self.rng
        n = r.choice([0, 1, 2, 3])
        s, t = self.P(str([1] * n))
        b, tb = self.blocks(depth, True)
        lines = ['for %s in %s' % (self.fresh('v'), s)] + b
        t = t + tb * n
        if r.random() < .5:
            b, tb = self.blocks(depth, True)
            lines += ['else'] + b
            if not n: t = t + tb
        return lines, t

    def b_while(self, depth):
        r = self.rng
        n = r.choice([0, 1, 2, 3])
        v = self.fresh('v')
        s, t = self.P(v + ' > 0')
        b, tb = self.blocks(depth, True)
        lines = ['$%s = %d' % (v, n), 'while ' + s] + b + ['  $%s -= 1' % v]
        t = (t + tb) * n + t
        if r.random() < .5:
            b, tb = self.blocks(depth, True)
            lines += ['else'] + b
            if not n: t = t + tb
        return lines, t

    def b_try(self, depth):
        r = self.rng
        lines, t, done = [], [], False
        for k in range(r.choice([1, 2, 2, 3])):
            b, tb = self.blocks(depth, True)
            fails = r.random() < .6
            lines += ['else' if k else 'try'] + b
            if fails:
                s, ts = self.P('0')
                lines += ['  ' + r.choice(['$ 1/%s', '| {1/%s}', 'p title={1/%s} | x', '$%s = 1/%%s' % self.fresh('a')]) % s]
                tb = tb + ts
                if r.random() < .5: lines += self.blocks(depth, True)[0]        # not executed
            if not done: t = t + tb
            done = done or not fails
        return lines, t

    def b_short(self, depth):
        s, t, v = self.e()
        if self.rng.random() < .5:
            s2, t2 = self.P('0')
            s3, t3 = self.P()
            return ['?p title={%s} | {%s} {1/%s} {%s}' % (s3, s, s2, s3.replace(',', ',0*'))], t + t2
        return ['?p : b | {%s}' % s], t

    def b_def(self, depth):
        r = self.rng
        name = self.fresh('H')
        body = self.fresh('body') if r.random() < .6 else None
        line = '%' + name + (' @' + body if body else '')
        params = []
        for _ in range(r.choice([0, 1, 1, 2])):
            p = self.fresh('q')
            d = None
            line += ' ' + p
            if r.random() < .5:
                s, d = self.P()
                line += '={%s}' % s
            params.append((p, d))
        saved, self.body = self.body, body or self.body
        lines, t = self.struct(line, [], depth)
        self.body = saved
        self.hypers[-1].append((name, bool(body), params, lambda: t))
        return lines, []

    def b_hyper(self, depth):
        r = self.rng
        line, t, bodied, fun = self.hyper_call()
        mine = t + fun()
        if bodied and r.random() < .3:
            a, ta = self.attrs()
            return self.struct(line + ' : p' + a, ta + mine, depth)
        if r.random() < .3:
            a, ta = self.attrs()
            return self.struct('div%s : %s' % (a, line), mine + ta, depth, bodied)
        return self.struct(line, mine, depth, bodied)


@check.monitor('predicted', 1400, 80000, rule='scripts generated together with the sequence of probes they must call - tags, chains, attributes, texts, headlines, conditions, short-circuit expressions, loops, try blocks, hypertags with defaults, bodies embedded many times or never: rendering calls exactly these, in this order; a second rendering does it again; translate() does all of it, rendering of the DOM nothing; non-trivial: distinct script')
def predicted(rng, i, rec):
    from hypertag import HyperHTML
    t = Tracer(rng, rng.choice([6, 12, 20]))
    lines, trace = ['context $P'], []
    while t.budget > 0 or len(lines) < 2:
        l, tt = t.block(0)
        lines += l
        trace += tt
    if len(trace) > 3000: return rec.stat('long')
    script = '\n'.join(lines)
    log = []
    def P(n, v):
        log.append(n)
        return v
    rt = HyperHTML()
    try: out = rt.render(script, P=P)
    except Exception as ex: return rec.violation('exception', repr(ex), script)
    rec.event(1 + len(log))
    rec.stat('probes', t.n)
    rec.stat('events', len(log))
    rec.stat('never evaluated', t.n - len(set(trace)))
    rec.stat('evaluated repeatedly', len(set(n for n in trace if trace.count(n) > 1)) if len(trace) < 300 else 1)
    rec.sig(script)
    rec.show(script)
    if log != trace: return rec.violation('events', 'expected %r\n     got %r' % (trace, log), script)
    for way in rng.sample(['again', 'translate'], 1):
        del log[:]
        if way == 'again': o = rt.render(script, P=P)
        elif way == 'translate':
            root = rt.translate(script, P=P).dom
            if log != trace: return rec.violation('events of translate()', 'expected %r\n     got %r' % (trace, log), script)
            o = root.render()
            root.render(), root.copy().render(), root.tree()
        rec.event(len(log))
        if log != trace or o != out: return rec.violation('events, ' + way, 'expected %r\n     got %r' % (trace, log), script)


# ---------------------------------------------------------------------------------------------------------------------
#  objects whose special methods have side effects

class Spy:
    """Logs every operation on itself; results of operations are other spies, deterministic."""
    def __init__(self, log, name, truth=True, items=()):
        self.__dict__.update(_log=log, _name=name, _truth=truth, _items=items)

    def _new(self, op, *args):
        n = '%s(%s)' % (op, ','.join([self._name] + [a._name if isinstance(a, Spy) else repr(a) if isinstance(a, (int, str, tuple)) else '?' for a in args]))
        self._log.append(n)
        k = sum(n.encode()) * 31 + len(n)
        return Spy(self._log, n if len(n) < 30 else 'v%d' % (k % 10007), k % 3 != 0)

    def __str__(self):
        self._log.append('str(%s)' % self._name)
        return '<%s>' % self._name
    def __repr__(self):
        self._log.append('repr(%s)' % self._name)
        return '<%s>' % self._name
    def __bool__(self):
        self._log.append('bool(%s)' % self._name)
        return self._truth
    def __iter__(self):
        self._log.append('iter(%s)' % self._name)
        for k, x in enumerate(self._items):
            self._log.append('next(%s,%d)' % (self._name, k))
            yield x
        self._log.append('stop(%s)' % self._name)
    def __hash__(self): return 5
    def __getattr__(self, a):
        if a[:1] == '_': raise AttributeError(a)
        return self._new('attr', a)
    def __getitem__(self, k):
        if isinstance(k, slice): return self._new('slice', (k.start, k.stop, k.step) if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)) else k.start)
        return self._new('item', k)
    def __call__(self, *args, **kw): return self._new('call', *(list(args) + [x for kv in kw.items() for x in kv]))
    def __contains__(self, x):
        self._new('contains', x)
        return sum(repr(x if isinstance(x, int) else x._name if isinstance(x, Spy) else 0).encode()) % 2 == 0

def _binary():
    for op in 'add sub mul truediv floordiv mod pow lshift rshift and xor or'.split():
        def f(self, other, op=op): return self._new(op, other)
        def g(self, other, op=op): return self._new('r' + op, other)
        setattr(Spy, '__%s__' % op, f)
        setattr(Spy, '__r%s__' % op, g)
    for op in 'lt le gt ge eq ne'.split():
        def f(self, other, op=op): return self._new(op, other)
        setattr(Spy, '__%s__' % op, f)
    for op in 'neg pos invert'.split():
        def f(self, op=op): return self._new(op)
        setattr(Spy, '__%s__' % op, f)
_binary()


class PyGen:
    """Expressions whose source means the same in Hypertag and in Python."""
    def __init__(self, rng, names):
        self.rng = rng
        self.names = names

    def e(self, d):
        r = self.rng
        if d <= 0 or r.random() < .12: return r.choice(self.names) if r.random() < .8 else str(r.randint(0, 3))
        k = r.randint(0, 15)
        e = lambda: self.e(d - 1)
        if k <= 2: return '(%s %s %s)' % (e(), r.choice('+ - * / // % << >> & ^ |'.split()), e())
        if k == 3: return '(%s %s %s %s %s)' % (e(), r.choice('+ - * /'.split()), e(), r.choice('+ - * /'.split()), e())
        if k == 4: return '(%s %s %s)' % (e(), r.choice('< <= > >= == !='.split()), e())
        if k == 5: return '(%s %s %s %s %s)' % (e(), r.choice('< <= > >= == !='.split()), e(), r.choice('< <= > >= == !='.split()), e())
        if k == 6: return '(%s %s %s)' % (e(), r.choice(['and', 'or']), e())
        if k == 7: return '(%s %s %s %s %s)' % (e(), r.choice(['and', 'or']), e(), r.choice(['and', 'or']), e())
        if k == 8: return '(not %s)' % e()
        if k == 9: return '(%s if %s else %s)' % (e(), e(), e())
        if k == 10: return '%s.%s' % (r.choice(self.names), r.choice(['x', 'upper', 'y2']))
        if k == 11: return '%s(%s)' % (r.choice(self.names), r.choice(['', '%s' % e(), '%s, k=%s' % (e(), e()), '%s, %s' % (e(), e())]))
        if k == 12: return '%s[%s]' % (r.choice(self.names), r.choice([e(), '%s:%s' % (e(), e()), ':%s' % e(), '1:2']))
        if k == 13: return '%s[%d]' % (r.choice(['[%s, %s]', '(%s, %s)']) % (e(), e()), r.randint(0, 1))
        if k == 14: return '(%s %s %s)' % (e(), r.choice(['in', 'not in']), r.choice(self.names))
        return '(-%s)' % r.choice(self.names)

def once(log):
    """Truth of the same value may be tested again immediately."""
    return [x for k, x in enumerate(log) if not (k and x == log[k - 1] and x.startswith('bool('))]

def spies(names, conf):
    log = []
    d = {}
    for n in names: d[n] = Spy(log, n, conf[n][0], [d[k] for k in conf[n][1] if k in d])
    return log, d

# (template of a script, Python code that performs the same operations)
PLACES = [
    ('| a {%s} b', 'str(%s)'),
    ('p\n  div | {%s}', 'str(%s)'),
    ('p : b\n  / {%s} x', 'str(%s)'),
    ('p title={%s} | z', 'str(%s)'),
    ('p title={%s}', 'str(%s)'),
    ('if %s | x', 'bool(%s)'),
    ('if %s\n  | x\nelif 1\n  | z\nelse\n  | y', 'bool(%s)'),
    ('$ %s', '%s'),
    ('$x = %s', '%s'),
    ('$x = %s\n| $x', 'str(%s)'),
    ('$x = %s\np\n  | {x} $x', '(lambda x: str(x) + str(x))(%s)'),
    ('$x = [%s]\n| {x[0]}', 'str(%s)'),
    ('%%H a\n  | {a}\nH {%s}', 'str(%s)'),
    ('%%H @b a\n  | {a}\n  @ b\n  @ b\nH {%s}\n  | x', 'str(%s)'),
    ('%%H @b\n  @ b\n  p\n    @ b\nH\n  | {%s}', 'str(%s)'),
    ('%%H @b\n  . @ b[:1]\n  @ b[1:]\nH\n  | x\n  | {%s}', 'str(%s)'),
    ('%%H @b\n  | y\nH\n  | {%s}', 'str(%s)'),
    ('%%H @b\n  | y\nH\n  p title={%s}', '%s'),
    ('%%H a={%s}\n  | {a}\nH', 'str(%s)'),
    ('%%H a={%s}\n  | {a}\nH 1', 'None'),
    ('try\n  | {%s}\nelse\n  | x', 'str(%s)'),
    ('?p | {%s}', 'str(%s)'),
    ('| {"<{%s}>"}', 'str(%s)'),
    ('while %s\n  $ 1/0', None),
    ('if 0\n  | {%s}', 'None'),
    ('for q in []\n  | {%s}', 'None'),
    ('%%H\n  | {%s}', 'None'),
    ('for q in [1, 2]\n  | {%s}', '[str(%s) for q in [1, 2]]'),
    ('div\n  ... p | {%s}\n  < p | {%s}', '[str(%s), str(%s)]'),
    ('for q in LIST\n  | {q}', '[str(q) for q in LIST]'),
    ('for q in LIST\n  p id={q} | {q}', '(lambda l: [str(q) for q in l])([(str(q), q)[1] for q in LIST])'),
    ('$a, b = LIST\n| {b}', 'str(list(LIST)[1])'),
    ('unique\n  | {%s}', 'str(%s)'),
    ('upper : p title={%s} | x', 'str(%s)'),
]

@check.monitor('operations', 2400, 80000, rule='objects that log every operation on themselves (conversion to str or bool, iteration, arithmetic, comparison, call, item, attribute) are used in a random expression at one of %d kinds of place: the log equals that of the same expression executed once by Python; non-trivial: distinct script with 2+ operations' % len(PLACES))
def operations(rng, i, rec):
    names = ['s%d' % k for k in range(rng.choice([1, 2, 3, 4]))]
    g = PyGen(rng, names)
    temp, py = rng.choice(PLACES)
    if py is None: temp, py = PLACES[0]
    lists = 'LIST' in temp
    k = temp.replace('%%', '').count('%s')
    # names with the truth values and elements
    conf = {n: (rng.random() < .6, [x for x in names if x < n]) for n in names}
    e = g.e(rng.choice([1, 2, 3]))
    if lists:
        src = names[-1]
        if len(conf[src][1]) != 2 and ', b' in temp: return rec.stat('skipped')
        script, code = temp.replace('LIST', src), py.replace('LIST', src)
        if ', b' in temp: code = 'str(%s)' % 'list(%s)[1]' % src
    else: script, code = temp % ((e,) * k), py % ((e,) * py.count('%s')) if '%s' in py else py
    log1, env1 = spies(names, conf)
    err = None
    try: eval(code, dict(env1))
    except Exception as ex: err = ex
    log2, env2 = spies(names, conf)
    r = run_real('context ' + ', '.join('$' + n for n in names) + '\n' + script, context=env2)
    rec.event(1 + len(log2))
    rec.stat('exc' if err else 'ok')
    if len(log1) > 1: rec.sig(script)
    rec.show(script + '\n' + ' '.join(log2))
    if err is not None:
        swallowed = script.startswith(('try', '?'))
        if not swallowed and (r.exc is None or type(err).__name__ not in [c.__name__ for c in type(r.exc).__mro__]): rec.violation('exception', 'expected %r\n     got %r' % (err, r), script)
        return
    if r.exc is not None: return rec.violation('exception', repr(r), script)
    if once(log1) != once(log2): rec.violation('operations', 'expected %r\n     got %r' % (once(log1), once(log2)), script)


# ---------------------------------------------------------------------------------------------------------------------
#  bodies embedded many times

@check.monitor('embeddings', 700, 20000, rule='a body with probes and logging tags passed through hypertags that embed it k times or drop it: each probe of the body is called once, each logging tag once per place it is rendered at; non-trivial: distinct script with k != 1')
def embeddings(rng, i, rec):
    from hypertag import Tag
    log, calls = [], []
    def P(n, v=''):
        log.append(n)
        return v
    class T(Tag):
        name = 'T'
        def expand(self, body, attrs, kwattrs):
            calls.append((tuple(attrs), body.render().strip()))
            return 'T'
    # chain of hypertags passing the body on: each embeds it k times
    depth = rng.randint(1, 3)
    lines = ['context $P, %T']
    total = 1
    inside = []
    ks = []
    for d in range(depth):
        k = rng.choice([0, 1, 2, 3]) if rng.random() < .8 else 1
        ks.append(k)
    for d in range(depth):
        lines.append('%%H%d @b' % d)
        lines.append("  | {P('h%d')}" % d)
        for _ in range(ks[d]):
            how = rng.choice(['  @ b', '  p\n    @ b', '  @ b[:]', '  . @ b', '  ul : li\n    @ b', "  @ b.skip('nothing')", '  p @ b', '  try\n    @ b', '  for q in [1]\n    @ b', '  if b\n    @ b', '  < p\n    @ b'])
            lines += how.split('\n')
    order = list(range(depth))
    rng.shuffle(order)
    n = rng.randint(1, 3)
    body = []
    want = {}
    for j in range(n):
        body.append("T {P('a%d', %d)} | {P('t%d', 'x')}" % (j, j, j))
        if rng.random() < .5: body.append("| {P('z%d')}" % j)
    if rng.random() < .5 or depth == 1:
        lines.append(' : '.join('H%d' % d for d in order))
        pre = '  '
    else:
        pre = ''
        for d in order:
            lines.append(pre + 'H%d' % d)
            pre += '  '
    lines += [pre + b for b in body]
    script = '\n'.join(lines)
    r = run_real(script, context=dict(P=P), tags=dict(T=T()))
    if r.exc is not None: return rec.violation('exception', repr(r), script)
    rec.event(len(log) + len(calls))
    times = 1
    for k in ks: times *= k
    rec.stat('embedded %s' % ('0' if not times else '1' if times == 1 else '2-5' if times < 6 else '6+'))
    if times != 1: rec.sig(script)
    rec.show(script)
    expected = []
    for b in body:
        ids = [x.split("'")[0] for x in b.split("P('")[1:]]
        expected += ids[::-1]
    expected += ['h%d' % d for d in reversed(order)]
    # a body inside H is translated before the hypertag is expanded, the innermost first
    if log != expected: return rec.violation('probes', 'expected %r\n     got %r' % (expected, log), script)
    want = sorted([((j,), 'x') for j in range(n)] * times)
    if sorted(calls) != want: rec.violation('calls of tags', 'expected %r\n     got %r' % (want, calls), script)

regress.probes(check)
