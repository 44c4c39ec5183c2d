"""Context of a script: what the caller passes and what the script sees of it."""
import copy, re
from hv.core import Check
from hv import regress, values, doc as D, gen as G
from hv.difftest import diff_case, run_real, run_model, write

check = Check('C12')

VARS = ['a', 'b', 'user', 'items', 'x1', 'n_2', 'len', 'str', 'print', 'crop', 'p', 'div', 'Value', '_u', 'if_x', 'ab', 'Y', 'self', 'builtins', 'variables', 'state', 'script', 'tags']
TAGS = ['T', 'my_tag', 'p', 'div', 'x1', 'upper', 'Box', 'a', 'U2']


class Thing:
    def __init__(self, n): self.n = n
    def __str__(self): return 'Thing%s' % self.n


def make_tag(n):
    from hypertag import Tag
    class Rec(Tag):
        name = 'rec%s' % n
        def expand(self, body, attrs, kwattrs): return '[%s:%s]' % (self.name, body.render())
    return Rec()


def comments(rng):
    return [rng.choice(['# comment', '-- context $zz', '#', '']) for _ in range(rng.choice([0, 0, 1, 2]))]


@check.monitor('names', 4000, rule='random sets of declared, passed and used names ($ and %, some renamed, some shadowing built-ins); declared ones must be the very objects passed, others must be built-ins or undefined, missing ones reported; non-trivial: 2+ names passed')
def names(rng, i, rec):
    vs = rng.sample(VARS, rng.randint(0, 6))
    ts = rng.sample(TAGS, rng.randint(0, 3))
    passed = {'$' + n: rng.choice([Thing(k), [k, Thing(k)], {'k': k}, 'val%d' % k, k, (k,), Thing, None, False, 0, '', [], {}, NotImplemented, ...]) for k, n in enumerate(vs)}
    tags = {'%' + n: make_tag(k) for k, n in enumerate(ts)}
    every = list(passed) + list(tags)
    declared = [s for s in every if rng.random() < .75]
    missing = None
    if rng.random() < .2:
        free = ['$' + n for n in VARS if n not in vs] + ['%' + n for n in TAGS if n not in ts]
        missing = rng.choice(free)
        declared.append(missing)
    rng.shuffle(declared)
    # context blocks
    lines, visible = [], {}
    k = 0
    rest = list(declared)
    got = []
    def sink(*args):
        got.append(args)
        return ''
    items_sink = ['$sink_']
    rest.insert(rng.randint(0, len(rest)), '$sink_')
    while rest:
        n = rng.randint(1, len(rest))
        items, rest = rest[:n], rest[n:]
        out = []
        for s in items:
            name = s[1:]
            if s != '$sink_' and rng.random() < .3:
                name = 'as%d' % k
                k += 1
                out.append('%s as %s' % (s, name))
            else: out.append(s)
            if s != missing and s != '$sink_': visible[s[0] + name] = (passed if s[0] == '$' else tags)[s]
        lines += comments(rng)
        lines.append('context ' + rng.choice([', ', ',', ' , ', ',  ']).join(out))
    # uses
    want, calls = [], []
    uses = list(visible)
    rng.shuffle(uses)
    for s in uses[:5]:
        if s[0] == '$':
            lines.append(rng.choice(['$ sink_(%s)', 'p title={sink_(%s)}', 'if sink_(%s)\n  | x', '| {sink_(%s)}', '%%%%H%d a\n  | {a}\nH%d {sink_(%%s)}' % (len(lines), len(lines))]) % s[1:])
            calls.append((visible[s],))
        else:
            lines.append('%s | q' % s[1:])
            want.append('[%s:q]' % visible[s].name)
    undefined = rng.random() < .3
    error = None
    if missing: error = 'ImportErrorEx'
    elif undefined:
        import builtins
        hidden = [s for s in every if s not in visible]
        hidden = [s for s in hidden if not (s[0] == '$' and (hasattr(builtins, s[1:]) or s[1:] == 'crop') or s[0] == '%' and s[1:] in ('p', 'div', 'upper', 'a'))] + ['$nowhere', '%nowhere', '$sink__']
        s = rng.choice(hidden)
        lines.append('| {%s}' % s[1:] if s[0] == '$' else '%s | q' % s[1:])
        error = 'NameErrorEx' if s[0] == '$' else 'UndefinedTagEx'
    else:
        # built-ins that were passed but not declared keep their meaning
        if '$len' not in visible: lines.append('| len={len("abc")}'); want.append('len=3')
        if '%div' not in visible: lines.append('div | w'); want.append('<div>w</div>')
        if '%upper' not in visible: lines.append('upper | abc'); want.append('ABC')
    script = '\n'.join(lines)
    kw = {}
    for s, v in passed.items(): kw[s[1:] if rng.random() < .8 else s] = v
    kw['sink_'] = sink
    tg = {}
    for s, v in tags.items(): 
        if rng.random() < .15: kw[s] = v
        else: tg[s[1:] if rng.random() < .7 else s] = v
    before = (dict(kw), dict(tg), copy.deepcopy([v for v in passed.values() if not isinstance(v, type)]))
    r = run_real(script, context=kw, tags=tg or (None if rng.random() < .5 else {}))
    rec.event(1 + len(got))
    if len(passed) + len(tags) > 1: rec.sig(script)
    rec.stat('error' if error else 'ok')
    rec.show(script)
    info = '%s\nvariables %r\ntags %r' % (script, kw, tg)
    if before[0] != kw or before[1] != tg or repr([str(v) for v in before[2]]) != repr([str(v) for v in passed.values() if not isinstance(v, type)]) and not any(isinstance(v, (list, dict)) for v in passed.values()):
        return rec.violation('the dictionaries of the caller were modified', '%r -> %r' % (before, (kw, tg)), info)
    if error:
        if r.exc is None or type(r.exc).__name__ != error: rec.violation('error', 'expected %s, got %r' % (error, r), info)
        return
    if r.exc is not None: return rec.violation('exception', repr(r), info)
    if len(got) != len(calls) or any(a[0] is not b[0] for a, b in zip(got, calls)): return rec.violation('values', 'expected %r, got %r' % (calls, got), info)
    out = re.sub(r'<p[^>]*>\s*</p>|\s+', '', r.out)
    if '%p' in visible: return
    if out != ''.join(want): rec.violation('output', 'expected %r, got %r' % (want, r.out), info)


CONTEXT = dict(cn1=('int', 7), cs1=('str', 'a <b> & "c"'), cl1=('list', [3, 1, 2]), cw1=('strlist', ['x', '<y>', '']), cd1=('dict', {'a': 1, 'b': 2}), cf1=('bool', True), cq1=('num', 2.5), ce1=('list', []))

PROFILE = dict(assign=9, text=10, for_=4, while_=1, def_=4, hyper=6, try_=2, exprdepth=3, budget=24, hostile=.1)

@check.monitor('documents', 2000, rule='random documents that use, shadow, assign (also in place) and iterate over context variables; output compared with the reference interpreter, and objects of the caller compared with their copies; non-trivial: 2+ context variables used')
def documents(rng, i, rec):
    names = rng.sample(list(CONTEXT), rng.randint(1, 5))
    ctx = {n: copy.deepcopy(CONTEXT[n]) for n in names}
    kept = {n: copy.deepcopy(v) for n, v in ctx.items()}
    objs = {n: v for n, (_, v) in ctx.items()}
    res = diff_case(rng, rec, PROFILE, lambda stats, script: sum(len(re.findall(r'\b%s\b' % n, script)) > 1 for n in names) > 1, context=ctx)
    if ctx != kept or any(ctx[n][1] is not objs[n] for n in names): rec.violation('objects of the caller were modified', '%r -> %r' % (kept, ctx), res and res[1])
    for n in names:
        if repr(ctx[n]) != repr(kept[n]): rec.violation('objects of the caller were modified', '%r -> %r' % (kept[n], ctx[n]), res and res[1])


@check.monitor('in-place', 600, rule='in-place assignments, unpacking and slices of context values in random order; the objects passed by the caller stay unchanged, also DOMs that are embedded; non-trivial: every case')
def in_place(rng, i, rec):
    from hypertag import HyperHTML
    rt = HyperHTML()
    dom = rt.translate("p title='a'\n  | one\n  ul\n    li | x\n    li\n      | y\ndiv #k | two").dom
    body = dom.body
    node = body[0]
    text, tree = dom.render(), dom.tree()
    l, s, d, nested = [1, 2], {1}, {'k': [1]}, [[1], [2]]
    stmts = ['$l += [3]', '$l *= 2', '$l += l', '$s |= set([5])', '$n += 1', '$t += (9,)', '$nested += [[3]]', '$x, y = l[0:2]', '$z = l', '$b2 = nested[0]', '$k = d["k"]', '$k2 = d["k"]\n$k2 += [7]', '$b3 = nested[0]\n$b3 += [5]',
             'for v in nested\n  $v += [4]', 'div\n  $l += [8]\n  | {l}', '@ body', 'section\n  @ body', 'section\n  b\n    @ body[0]', '@ node', 'ul\n  @ node', 'ul @ body', '%H @q\n  i\n    @ q\n  @ q\nH\n  @ body', 'i\n  @ body.select("li")', 'i\n  @ body.skip("li")', 'i\n  @ body.select("ul")[0].body']
    chosen = [rng.choice(stmts) for _ in range(rng.randint(2, 7))]
    chosen = [c.replace('%H', '%H' + str(k)).replace('\nH\n', '\nH%d\n' % k) if '%H' in c else c for k, c in enumerate(chosen)]
    script = 'context $l, $s, $n, $t, $nested, $d, $body, $node\n' + '\n'.join(chosen) + '\n| {l}{s}{n}{t}{nested}'
    r = run_real(script, context=dict(l=l, s=s, n=1, t=(1,), nested=nested, d=d, body=body, node=node), runtime=rt)
    rec.event()
    rec.sig(script)
    rec.show(script)
    if r.exc is not None: return rec.violation('exception', repr(r), script)
    if (l, s, d, nested) != ([1, 2], {1}, {'k': [1]}, [[1], [2]]): rec.violation('objects of the caller were modified', repr((l, s, d, nested)), script)
    if dom.render() != text or dom.tree() != tree: rec.violation('a DOM of the caller was modified', 'before %r\nafter  %r' % (text, dom.render()), script)


@check.monitor('placement', 600, rule='a context block after another block is refused, unless only comments and context blocks precede it; __file__ and __package__ have the values passed; non-trivial: every case')
def placement(rng, i, rec):
    pre = [rng.choice(['| text', 'p', '$x = 1', 'pass', '# c', '-- c', 'context $a', '', '#\n  context $q', '%H\n  | a', '$ len("")', '. | x', 'from os import $path', 'if 1\n  | x']) for _ in range(rng.randint(0, 4))]
    script = '\n'.join(pre + ['context $b', '| {b}'])
    ok = all(l == '' or l[0] in '#-' or l.startswith('context') for l in pre)
    r = run_real(script, context=dict(a=1, b='B'))
    rec.event()
    rec.sig(script)
    rec.show(script)
    if ok and (r.exc is not None or r.out.strip() != 'B'): rec.violation('context block', 'expected B, got %r' % r, script)
    if not ok and r.error != 'SyntaxErrorEx': rec.violation('misplaced context block', 'expected SyntaxErrorEx, got %r' % r, script)
    nested = rng.choice(['p\n  context $b', 'if 1\n  context $b', '%H\n  context $b', 'for x in []\n  context $b'])
    r = run_real(nested, context=dict(b=1))
    if r.error != 'SyntaxErrorEx': rec.violation('nested context block', 'expected SyntaxErrorEx, got %r' % r, nested)
    f, p = rng.choice([(None, None), ('/x/f.hy', None), ('/x/f.hy', 'a.b'), (None, 'pkg')])
    r = run_real('| {str(__file__)} {str(__package__)}', file=f, package=p)
    if r.out != '%s %s' % (f, p): rec.violation('__file__ and __package__', repr(r), repr((f, p)))


@check.monitor('alternating', 500, rule='one script rendered repeatedly by one runtime with different contexts; every output belongs to its own context; non-trivial: every case')
def alternating(rng, i, rec):
    from hypertag import HyperHTML
    rt = HyperHTML()
    script = rng.choice(['context $x, $y\n| {x}-{y}', 'context $x as z, $y\n%H @b a={z}\n  | {a}-\n  @ b\nH | {y}', 'context $x, $y\np title={x} | {y}\n$x = 5', 'context $x\ncontext $y\nfor i in [1, 2]\n  | {x}{y}{i}', 'context %T, $x, $y\nT | {x}{y}'])
    from hypertag import TagFunction
    for k in range(rng.randint(2, 6)):
        a, b = 'a%d' % rng.randint(0, 999), 'b%d' % rng.randint(0, 999)
        def T(body, k=k): return '<%d>%s' % (k, body)
        kw = dict(x=a, y=b)
        if rng.random() < .2: del kw['y']
        r = run_real(script, context=kw, tags={'T': TagFunction(T)}, runtime=rt)
        rec.event()
        rec.sig(script, a, b)
        rec.show(script)
        if 'y' not in kw:
            if r.error != 'ImportErrorEx': return rec.violation('missing variable', 'expected ImportErrorEx, got %r' % r, script)
            continue
        n = script.split('\n')
        want = {'| {x}-{y}': '%s-%s', 'T | {x}{y}': '<%d>%%s%%s' % k}.get(n[-1])
        if want: want %= (a, b)
        elif 'z' in script: want = '%s-\n%s' % (a, b)
        elif 'title' in script: want = '<p title="%s">%s</p>' % (a, b)
        else: want = '%s%s1\n%s%s2' % (a, b, a, b)
        if r.out != want: return rec.violation('output', 'expected %r, got %r' % (want, r), script)

regress.probes(check)
