"""Tags written in Python: what they receive, what happens to what they return."""
import sys, types
from hv.core import Check
from hv import doc as D, expr as X, gen as G, regress, values
from hv.difftest import run_real, run_model, write, agree, Outcome, shrunk
from hv import stdmodel as S

check = Check('C26', ['tags return strings, as their interface says; a tag that changes the nodes or attributes it received changes the DOM'])

NAMES = ['Rec', 'Fun', 'Sub', 'Sel', 'Two', 'Emp', 'Nl', 'Mk']
MODULE = 'hv_c26_tags'


class Failure(Exception):
    """Raised by a tag when planned."""


class Tape:
    """Log of calls of tags during one execution and the plan of failures."""
    def __init__(self, fault=None):
        self.log = []
        self.fault = fault          # number of the call that fails
        self.raised = None

    def call(self, name, attrs, kwattrs):
        self.log.append(('call', name, [show(a) for a in attrs], [(k, show(v)) for k, v in kwattrs.items()]))
        if self.fault is not None and sum(1 for x in self.log if x[0] == 'call') == self.fault:
            self.raised = Failure('planned')
            raise self.raised

    def done(self, name, body):
        self.log.append(('body', name, body))


def show(v):
    """A value as seen by a tag: type and representation, identity for objects."""
    return (type(v).__name__, v.s if isinstance(v, Thing) else repr(v))

class Thing:
    """An object, of which there is one per name."""
    def __init__(self, s): self.s = s
    def __str__(self): return self.s
    def __repr__(self): return self.s


def result(name, attrs, kwattrs, text, pick):
    """Text returned by a tag; pick(): text of the selected part of the body."""
    if name == 'Rec': return '[%s%s]' % (text, len(attrs))
    if name == 'Fun': return '(%s)' % text
    if name == 'Sub': return text
    if name == 'Sel': return '{%s}' % pick()
    if name == 'Two': return text + '+' + text
    if name == 'Emp': return ''
    if name == 'Nl': return '\nA\n  B\n\n' + text + '\n'
    return '<mk %s>%s</mk>' % (' '.join(k for k in kwattrs), text)


def make_tags(tape):
    """Python tags of the workload, for the library."""
    from hypertag import Tag, TagFunction, Markup
    class Rec(Tag):
        def __init__(self, name): self.name = name
        def expand(self, body, attrs, kwattrs):
            tape.call(self.name, attrs, kwattrs)
            text = body.render()
            tape.done(self.name, text)
            return result(self.name, attrs, kwattrs, text, lambda: body.select('p').render())
    tags = {n: Rec(n) for n in NAMES}
    def Fun(body, *attrs, **kwattrs):
        tape.call('Fun', attrs, kwattrs)
        tape.done('Fun', body)
        return result('Fun', attrs, kwattrs, body, None)
    def Sel(body, *attrs, **kwattrs):
        tape.call('Sel', attrs, kwattrs)
        text = body.render()
        tape.done('Sel', text)
        return result('Sel', attrs, kwattrs, text, lambda: body.select('p').render())
    tags['Fun'] = TagFunction(Fun)
    tags['Sel'] = TagFunction(Sel, dom=True)
    class Mk(Markup):
        def expand(self, body, attrs, kwattrs):
            tape.call('Mk', attrs, kwattrs)
            text = body.render()
            tape.done('Mk', text)
            return result('Mk', attrs, kwattrs, text, None)
    tags['Mk'] = Mk('Mk')
    return tags


class MRec:
    """The same for the reference interpreter."""
    def __init__(self, name, tape):
        self.name, self.tape = name, tape
    def expand(self, body, attrs, kwattrs):
        late = self.name == 'Fun'
        if not late: self.tape.call(self.name, attrs, kwattrs)
        text = body.render()
        if late: self.tape.call(self.name, attrs, kwattrs)          # a function is called with the rendered body
        self.tape.done(self.name, text)
        return result(self.name, attrs, kwattrs, text, lambda: body.select('p').render())
    def __call__(self, body=None, *attrs, **kw):
        return self.expand(D.Frag([D.MNode(text=str(body))] if body is not None else []), attrs, kw)


class Gen(G.DocGen):
    """Documents in which python tags are used at all places of regular ones."""
    weird = ['data-x', 'xml:lang', 'on.click', 'if', 'for', 'class', 'id', 'a1', 'X', 'body_', 'self_', 'attrs', 'kwattrs', 'title', 'fun', 'name']

    def regular(self):
        if self.rng.random() < .55: return (self.rng.choice(NAMES), self.any_attrs())
        return G.DocGen.regular(self)

    def any_attrs(self):
        r = self.rng
        out = []
        if r.random() < .25: return out
        for _ in range(r.choice([0, 0, 1, 2, 3])): out.append(('pos', self.value()))
        used = set()
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            if r.random() < .2:
                m = r.choice('.#')
                n = {'.': 'class', '#': 'id'}[m]
                if n in used: continue
                out.append(('short', m, r.choice(['a', 'b-c']) if r.random() < .5 else self.e('str', 1)))
            else:
                n = r.choice(self.weird)
                if n in used:
                    continue
                out.append(('kw', n, self.value()))
            used.add(n)
        # shortcuts must stand before other attributes to be glued to the name of the tag; positional ones before named
        return [a for a in out if a[0] == 'pos'] + [a for a in out if a[0] != 'pos']

    def value(self):
        r = self.rng
        x = r.random()
        if x < .25: return ('var', r.choice(['o1', 'o2', 'o3']))
        if x < .35: return ('const', r.choice([True, False, None]))
        return self.e(r.choice(['str', 'int', 'num', 'any', 'list', 'dict', 'bool', 'strlist']), 1)

    def takes_body(self, name):
        return True if name in NAMES else G.DocGen.takes_body(self, name)


def execute(blocks, script, things, fault, way, vary):
    """(model outcome, model tape, real outcome, real tape)"""
    mt, rt_ = Tape(fault), Tape(fault)
    try: m, it = run_model(blocks, context=things, symbols={'%' + n: MRec(n, mt) for n in NAMES}, probes=True)
    except OverflowError: return None
    tags = make_tags(rt_)
    if way == 'import':
        mod = types.ModuleType(MODULE)
        mod.__tags__ = tags
        sys.modules[MODULE] = mod
        try: r = run_real(script, context=things, probes=True)
        finally: del sys.modules[MODULE]
    else: r = run_real(script, context=things, tags=tags, probes=True)
    return m, mt, r, rt_


PROFILE = dict(probes=True, budget=14, tag=16, hyper=6, def_=4, chain=.5, attrs=.6, head=.3, texttail=.2, margins=.2, mods=.05, stdtags=.1, embed=6, for_=4)

def describe(m, mt, r, rt):
    d = agree(m, r)
    if d: return d
    if m.exc is None or m.error == 'Failure':
        if mt.log != rt.log: return 'expected calls %r\n     got %r' % (mt.log, rt.log)
        if m.error == 'Failure' and r.exc is not rt.raised: return 'a different exception: %r instead of %r' % (r.exc, rt.raised)

@check.monitor('calls', 2400, 60000, rule='random documents with %d kinds of python tags (Tag, TagFunction with and without dom, subclass of Markup), passed by context or imported from a module, in chains, hypertags, loops, with attributes of every type and name: calls, their arguments, bodies and the output equal those of the reference interpreter; in some cases a planned call fails and the same exception arrives; non-trivial: 2+ calls, distinct script' % len(NAMES))
def calls(rng, i, rec):
    things = {n: Thing(n) for n in ('o1', 'o2', 'o3')}
    g = Gen(rng, dict(PROFILE, errors=rng.choice([0, 0, 0, .04])))
    blocks = g.document()
    way = rng.choice(['import', 'context'])
    ctx = [b for b in blocks if isinstance(b, D.Context)]
    items = [('$' + n, None) for n in things] + [x for b in ctx for x in b.items]
    blocks = [D.Context(items=items + [('%' + n, None) for n in NAMES])] + [b for b in blocks if not isinstance(b, D.Context)]
    seed = rng.random()
    fault = rng.randint(1, 6) if rng.random() < .2 else None
    def source(bs):
        s = write(bs, seed)
        if way == 'import':
            first, rest = s.split('\n', 1) if '\n' in s else (s, '')
            s = 'context ' + ', '.join('$' + x for x in ['o1', 'o2', 'o3', 'P', 'boom']) + '\nfrom %s import %s\n' % (MODULE, ', '.join('%' + n for n in NAMES)) + rest
        return s
    try: script = source(blocks)
    except ValueError: return rec.stat('skipped')
    res = execute(blocks, script, things, fault, way, 0)
    if res is None: return rec.stat('skipped')
    m, mt, r, rt = res
    n = sum(1 for x in rt.log if x[0] == 'call')
    rec.event(1 + len(rt.log))
    rec.stat(way)
    rec.stat('ok' if m.exc is None else m.error)
    for x in rt.log:
        if x[0] == 'call': rec.stat(x[1])
    if n > 1: rec.sig(script)
    rec.show(script)
    d = describe(*res)
    if d: rec.violation('tags', d + ('\nfault: %s' % fault if fault else ''), script)


# ---------------------------------------------------------------------------------------------------------------------

@check.monitor('identity', 900, 20000, rule='attributes of a python tag are the very objects given in the script (no copies, no conversions), in order; names of keyword attributes are as written; the body is a DOM whose text is the one written; a tag receives attributes of its own occurrence only; non-trivial: distinct script')
def identity(rng, i, rec):
    from hypertag import Tag, TagFunction, DOM, HyperHTML
    objs = {}
    def obj(k):
        x = rng.random()
        v = rng.choice([lambda: [k], lambda: {'k': k}, lambda: Thing('t%d' % k), lambda: {k}, lambda: lambda: k, lambda: (k, 'x'), lambda: values.SubStr('s%d' % k), lambda: float('nan'), lambda: object, lambda: b'x%d' % k, lambda: ValueError(k), lambda: iter([k]), lambda: 10 ** 30 + k, lambda: None, lambda: True, lambda: False, lambda: 0, lambda: ''])()
        objs['v%d' % k] = v
        return 'v%d' % k
    got = []
    class T(Tag):
        name = 'T'
        def expand(self, body, attrs, kwattrs):
            got.append((body, list(attrs), list(kwattrs.items())))
            return 'r'
    def fun(body, *attrs, **kw):
        got.append((body, list(attrs), list(kw.items())))
        return 'r'
    kinds = {'T': T(), 'F': TagFunction(fun), 'G': TagFunction(fun, dom=True)}
    want = []
    lines = []
    k = 0
    for j in range(rng.randint(1, 4)):
        name = rng.choice(list(kinds))
        pos, kw, line = [], [], name
        for _ in range(rng.randint(0, 3)):
            k += 1
            pos.append(obj(k))
            line += rng.choice([' %s', ' $%s', ' {%s}', ' {$%s}']) % pos[-1]
        names = []
        for _ in range(rng.randint(0, 3)):
            k += 1
            n = values.attr_name(rng)
            if n in names or name != 'T' and n in ('body', 'self'): continue
            names.append(n)
            kw.append((n, obj(k)))
            line += rng.choice([' %s=%s', ' %s=$%s', ' %s={%s}', ' %s = %s']) % kw[-1]
        text = rng.choice([None, 'x', 'a b', 'é <&> "q"'])
        if text is not None: line += ' / ' + text
        lines.append(line)
        want.append((name, pos, kw, text))
    script = 'context %s\n' % ', '.join(['%T', '%F', '%G'] + ['$' + n for n in objs]) + '\n'.join(lines)
    r = run_real(script, context=objs, tags=kinds)
    rec.event(1 + len(got))
    rec.sig(script)
    rec.show(script)
    if r.exc is not None: return rec.violation('exception', repr(r), script)
    if r.out != '\n'.join('r' for _ in lines) or len(got) != len(want): return rec.violation('output', '%r, %d calls' % (r.out, len(got)), script)
    for (name, pos, kw, text), (body, attrs, kwattrs) in zip(want, got):
        if len(attrs) != len(pos) or any(a is not objs[n] for a, n in zip(attrs, pos)): return rec.violation('positional attributes', 'of %s %s: %r' % (name, pos, attrs), script)
        if [n for n, _ in kwattrs] != [n for n, _ in kw] or any(v is not objs[n] for (_, v), (_, n) in zip(kwattrs, kw)): return rec.violation('keyword attributes', 'of %s %s: %r' % (name, kw, kwattrs), script)
        if name == 'F':
            if type(body) is not str or body != (text or ''): return rec.violation('body', 'expected %r, got %r' % (text, body), script)
        else:
            if not isinstance(body, DOM) or body.render() != (text or '') or bool(body) != (text is not None): return rec.violation('body', 'expected DOM of %r, got %r' % (text, body), script)
        rec.stat(name)


TAGS_BAD = [('a string', 'p'), ('a number', 5), ('None', None), ('a list', []), ('a function', len), ('a class', dict), ('a module', sys), ('an object', Thing('t'))]
RETURNS = [('None', None), ('number', 5), ('bytes', b'x'), ('list', ['a']), ('True', True), ('Thing', Thing('q')), ('DOM', 'DOM'), ('tuple', ('a',)), ('dict', {})]

@check.monitor('refusals', 500, 5000, rule='something that is not a tag used as a tag, or a result of a tag that is not a string: an exception, never a document; non-trivial: distinct combination of kind and place')
def refusals(rng, i, rec):
    from hypertag import Tag, TagFunction, DOM
    place = rng.choice(['T', 'T | x', 'p\n  T\n    | y', 'p : T | x', 'T : p | x', 'for i in [1, 2]\n  T | x', '%H @b\n  T @ b\nH | x', 'p | a\nT\np | b', '| a\nT title="x"', 'div\n  ... T | x', 'p\n  i\n    < T', '%H\n  p | a\n  T\nH', 'if 1\n  T', '. : T | x', 'T : T | x'])
    rec.event()
    if rng.random() < .5:
        what, v = rng.choice(TAGS_BAD)
        place = rng.choice([place, '%%s' and place])
        r = run_real('context %T\n' + place, tags={'T': v})
        rec.sig('tag', what, place)
    else:
        what, v = rng.choice(RETURNS)
        def fun(body, *attrs, **kw): return DOM.text('x') if v == 'DOM' else v
        class T(Tag):
            name = 'T'
            def expand(self, body, attrs, kwattrs): return fun(body)
        r = run_real('context %T\n' + place, tags={'T': rng.choice([T(), TagFunction(fun), TagFunction(fun, dom=True)])})
        rec.sig('result', what, place)
    rec.stat(what)
    if r.exc is None: return rec.violation('accepted', '%s: %r' % (what, r), place)
    rec.stat(r.error)


@check.monitor('transparent', 900, 20000, rule='a python tag that returns body.render() is equivalent to the absence of a tag in a chain, and one that returns a markup of its own to a standard tag of that name: the same document; non-trivial: distinct script with a nested block')
def transparent(rng, i, rec):
    from hypertag import Tag, TagFunction, Markup
    class Thru(Tag):
        name = 'Thru'
        def expand(self, body, attrs, kwattrs): return body.render()
    def fun(body): return body
    class Art(Tag):
        name = 'article'
        def expand(self, body, attrs, kwattrs):
            s = body.render()
            return '<article%s>%s%s</article>' % (''.join(' %s="%s"' % kv for kv in kwattrs.items()), s, '\n' if s[:1] == '\n' else '')
    g = G.DocGen(rng, dict(probes=False, budget=12, tag=14, texttail=0, mods=.05, chain=.3, head=.3, for_=3, voids=.02, null=0, embed=4))
    blocks = g.document()
    marks = [b for b in D.walk_blocks(blocks) if isinstance(b, D.Tag) and b.chain[0][0] != '.']
    if not marks: return rec.stat('skipped')
    b = rng.choice(marks)
    if any(n in ('br',) or n.lower() in ('br', 'hr', 'img', 'input', 'link') for n, _ in b.chain): return rec.stat('skipped')
    attr = [('kw', 'k1', ('str', ['v']))] if rng.random() < .5 else []
    if rng.random() < .6: std, mine = None, (rng.choice(['Thru', 'fthru']), [])
    else: std, mine = ('article', attr), (rng.choice(['Art', 'MArt']), attr)
    pos = rng.randint(0, len(b.chain))
    chain = list(b.chain)
    defined = {h.name for h in D.walk_blocks(blocks) if isinstance(h, D.Def)}
    if any(n in defined for n, _ in chain[:pos]): return rec.stat('skipped')       # text has its layout done, unlike nodes: hypertags place them differently
    seed = rng.random()
    tags = {'Thru': Thru(), 'fthru': TagFunction(fun), 'Art': Art(), 'MArt': Markup('article')}
    outs = []
    for t in (std, mine):
        b.chain = chain[:pos] + ([t] if t else []) + chain[pos:]
        try: s = write(blocks, seed)
        except ValueError: return rec.stat('skipped')
        s = 'context %Thru, %fthru, %Art, %MArt\n' + s
        outs.append((s, run_real(s, tags=tags)))
    rec.event(2)
    (s1, a), (s2, c) = outs
    rec.stat(mine[0])
    rec.stat('ok' if a.exc is None else 'exc')
    if '\n  ' in s2: rec.sig(s2)
    rec.show(s2)
    if 'VoidTagEx' in (a.error, c.error): return            # a void hypertag accepts no python tag as its body, not even a transparent one
    if a.exc is not None or c.exc is not None:
        if a.error != c.error: rec.violation('exception', '%r\n%r' % (a, c), s2)
        return
    if a.out != c.out: rec.violation('output', 'with %s: %r\nwith %s: %r' % (std, a.out, mine, c.out), s2)


@check.monitor('functions', 600, 10000, rule='a python tag called in an expression receives a DOM of the given text (an empty one for None), or the text itself if it is a function, and the arguments; its value is what it returned; non-trivial: distinct script')
def functions(rng, i, rec):
    from hypertag import Tag, TagFunction, DOM
    got = []
    ret = rng.choice(['R', 'a\nb', '<x>', ' ', 'é'])
    class T(Tag):
        name = 'T'
        def expand(self, body, attrs, kwattrs):
            got.append((body, list(attrs), dict(kwattrs)))
            return ret
    def fun(body, *attrs, **kw):
        got.append((body, list(attrs), kw))
        return ret
    kinds = {'T': T(), 'F': TagFunction(fun), 'G': TagFunction(fun, dom=True)}
    name = rng.choice(list(kinds))
    v = {k: rng.choice([[1], 'text', Thing('t'), 5, None, {'a': 1}, 'a\nb']) for k in ('b', 'x', 'y')}
    args, want_pos, want_kw = [], [], {}
    if rng.random() < .8:
        args.append('b')
        for n in ('x', 'y'):
            if rng.random() < .4:
                args.append(n)
                want_pos.append(v[n])
    for n in ('x', 'y'):
        if rng.random() < .4:
            args.append('%s=%s' % (n + 'k', n))
            want_kw[n + 'k'] = v[n]
    call = '%%%s(%s)' % (name, ', '.join(args))
    place = rng.choice(['/ {%s}', '/ {f(%s)}', '$z = %s\n/ {z}', '$ f(%s)', 'p\n  / {f(%s)}', '%%H\n  / {f(%s)}\nH', 'for z in [1]\n  / {f(%s)}'])
    seen = []
    def f(z):
        seen.append(z)
        return z
    script = 'context $b, $x, $y, $f, %T, %F, %G\n' + place % call
    r = run_real(script, context=dict(v, f=f), tags=kinds)
    rec.event(1 + len(got))
    rec.sig(script, repr(v))
    rec.show(script)
    if r.exc is not None or len(got) != 1: return rec.violation('call', '%r %d calls' % (r, len(got)), script)
    body, attrs, kw = got[0]
    text = str(v['b']) if 'b' in args and v['b'] is not None else ''
    if name == 'F': ok = type(body) is str and body == text
    else: ok = isinstance(body, DOM) and body.render() == text
    if not ok: rec.violation('body', 'expected %r, got %r' % (text, body), script)
    if len(attrs) != len(want_pos) or any(a is not c for a, c in zip(attrs, want_pos)) or list(kw) != list(want_kw) or any(kw[k] is not want_kw[k] for k in kw): rec.violation('arguments', 'expected %r %r, got %r %r' % (want_pos, want_kw, attrs, kw), script)
    if seen and seen != [ret]: rec.violation('value', 'expected %r, got %r' % ([ret], seen), script)

regress.probes(check)
