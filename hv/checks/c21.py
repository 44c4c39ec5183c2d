"""Translation and rendering, repeated rendering, symbols of a module, tags called as functions."""
import os, random, shutil
from hv.core import Check
from hv import doc as D, expr as X, gen as G, values, regress, domtree
from hv.difftest import run_real, run_model, write, Outcome
from hv import stdmodel as S

check = Check('C21', ['custom tags of the workload are pure: rendering of a node twice calls its tag twice'])

def snapshot(node):
    """Everything stored in a DOM, as comparable data; attributes and tags by identity."""
    from hypertag import DOM
    if isinstance(node, DOM): return [snapshot(n) for n in node.nodes]
    return (type(node).__name__, id(node), id(node.tag), [id(a) for a in node.attrs or []], node.attrs is None, [(k, id(v)) for k, v in (node.kwattrs or {}).items()],
            node.kwattrs is None, node.outline, node.indent, getattr(node, 'text', None), snapshot(node.body) if node.body is not None else None)

def parts(root):
    """Text of a document put together from its nodes rendered one by one."""
    s = ''.join(n.render() for n in root.body)
    return s[1:] if s.startswith('\n') else s

def attempt(fun, log=()):
    try: return Outcome(fun(), None, log)
    except Exception as ex: return Outcome(None, ex, log)

def same(rec, what, a, b, script):
    if a.error != b.error or a.out != b.out or a.exc is not None and str(a.exc) != str(b.exc) and ' at 0x' not in str(a.exc):
        rec.violation(what, 'expected %r\n     got %r' % (a, b), script)
        return False
    return True

def change(rng, root):
    """Some changes of a DOM and its texts in between."""
    from hypertag import DOM
    texts = []
    for _ in range(rng.randint(1, 4)):
        nodes = [n for n in root.walk()]
        n = rng.choice(nodes)
        x = rng.random()
        if x < .3: n.kwattrs = dict(n.kwattrs or {}, title='changed')
        elif x < .4 and n.kwattrs: n.kwattrs.popitem()
        elif x < .6 and isinstance(n, DOM.Text): n.text += ' changed'
        elif x < .75 and n.body is not None:
            k = rng.randint(0, len(n.body))
            n.body.nodes[k:k + 1] = []
        elif x < .85 and n.body: n.body.nodes.append(n.body.nodes[0].copy())
        elif x < .9: n.outline = not n.outline
        elif x < .95: root.body.alter(lambda m: [] if m.tag is not None and m.tag.name in ('b', 'i', 'span') else [m])
        else: n.tag = None
        if rng.random() < .5: texts.append(root.render())
        if rng.random() < .3: texts.append(root.body.skip('p').render())
    return texts + [root.render()]

PROFILE = dict(probes=True, budget=16, tag=16, hyper=6, def_=4, head=.3, mods=.05, texttail=.2, margins=.3, attrs=.3)

@check.monitor('ways', 1400, 40000, rule='a random document: render() is compared with translate() followed by rendering of the DOM (twice, its copies, its nodes one by one, after traversals); the DOM is not changed by that and no expression is evaluated again; the same exceptions otherwise; non-trivial: output with an element')
def ways(rng, i, rec):
    from hypertag import HyperHTML, DOM
    g = G.DocGen(rng, dict(PROFILE, errors=rng.choice([0, 0, 0, .05])))
    try: script = write(g.document(), rng.random())
    except ValueError: return rec.stat('skipped')
    r = run_real(script, probes=True)
    rt = HyperHTML()
    r2 = run_real(script, probes=True, runtime=rt)
    same(rec, 'second rendering', r, r2, script)
    log = S.Recorder()
    t = attempt(lambda: rt.translate(script, **log.probes()))
    rec.event(3)
    rec.stat('ok' if r.exc is None else 'exc')
    if t.exc is not None:
        if r.exc is None or r.error != t.error: return rec.violation('translate() fails', '%r\n  but render(): %r' % (t, r), script)
        return
    if r.out and '<' in r.out: rec.sig(script)
    rec.show(script)
    if log.log != r.log: return rec.violation('evaluations', 'render(): %r\n translate(): %r' % (r.log, log.log), script)
    root = t.out.dom
    before = snapshot(root)
    tree = root.tree()
    dup = root.copy()
    steps = [('render', lambda: root.render()), ('render of a copy', lambda: dup.render()), ('copy of a copy', lambda: dup.copy().render()), ('nodes', lambda: parts(root)),
             ('nodes of a copy', lambda: parts(root.copy())), ('selection', lambda: [root.body.select(), list(root.walk()), root.body.skip('p').render(), root.body[:1].render(), root.tree()] and root.render()),
             ('DOM of nodes', lambda: (lambda s: s[1:] if s.startswith('\n') else s)(DOM(*list(root.body)).render())), ('DOM of the root', lambda: DOM(root).render()), ('flag', lambda: (lambda s: s[1:] if s.startswith('\n') else s)(root.render(drop_line=False)))]
    rng.shuffle(steps)
    for name, f in steps[:rng.randint(3, 9)] + steps[:1]:
        o = attempt(f)
        rec.event()
        rec.stat(name)
        if not same(rec, 'way: ' + name, Outcome(r.out, r.exc), o, script): return
    if log.log != r.log: rec.violation('evaluations during rendering', '%r' % log.log[len(r.log):], script)
    if snapshot(root) != before: rec.violation('rendering changed the DOM', '%r\n%r' % (before, snapshot(root)), script)
    if root.tree() != tree or dup.tree() != tree: rec.violation('tree changed', tree, script)
    # changes of a copy are not seen in the original
    for n in list(dup.walk()):
        n.kwattrs = None
        n.body = DOM()
    if snapshot(root) != before: rec.violation('a copy shares nodes with the original', '', script)
    # a DOM changed after it was rendered is rendered like one that was not rendered before
    if r.exc is None and '<' in r.out:
        log2 = S.Recorder()
        t2 = attempt(lambda: rt.translate(script, **log2.probes()))
        if t2.exc is None:
            changed = root.copy() if rng.random() < .5 else root
            seed = rng.random()
            o1, o2 = [attempt(lambda: change(random.Random(seed), x)) for x in (t2.out.dom, changed)]
            rec.event()
            rec.stat('changed')
            if not same(rec, 'change after rendering', o1, o2, script): return
    # a failed rendering has no consequences either
    if r.exc is None and rng.random() < .2:
        run_real('p\n  | {1/0}', runtime=rt)
        same(rec, 'rendering after a failure', r, run_real(script, probes=True, runtime=rt), script)


@check.monitor('symbols', 1200, 30000, rule='top-level symbols returned by translate() are exactly the ones assigned, declared or defined at the top level of the script on the executed path, with their last values (reference interpreter); non-trivial: 2+ symbols')
def symbols(rng, i, rec):
    from hypertag import HyperHTML
    ctx = {'c%d' % k: rng.choice([('str', 'q'), ('int', 5), ('list', [1, 2])]) for k in range(rng.randint(0, 2))}
    g = G.DocGen(rng, dict(PROFILE, assign=14, for_=5, if_=5, probes=False, hyper=3), ctx)
    blocks = g.document()
    if ctx: blocks = [D.Context(items=[('$' + n, None) for n in ctx])] + [b for b in blocks if not isinstance(b, D.Context)]
    kw = {n: v for n, (_, v) in ctx.items()}
    try: script = write(blocks, rng.random())
    except ValueError: return rec.stat('skipped')
    try: m, it = run_model(blocks, context=kw)
    except OverflowError: return
    t = attempt(lambda: HyperHTML().translate(script, **kw))
    rec.event()
    if m.exc is not None or t.exc is not None: return rec.stat('exc')
    want = {k: v for k, v in it.top.symbols.items()}
    got = t.out.symbols
    vars1 = {k: repr(v) for k, v in want.items() if k[0] == '$'}
    vars2 = {k: repr(v) for k, v in got.items() if k[0] == '$'}
    if len(want) > 1: rec.sig(sorted(want), script)
    rec.show('%s\n%r' % (script, sorted(want)))
    rec.stat('symbols', len(got))
    if vars1 != vars2 and ' at 0x' not in str(vars1): return rec.violation('variables', 'expected %r\n     got %r' % (vars1, vars2), script)
    tags1, tags2 = {k for k in want if k[0] == '%'}, {k for k in got if k[0] == '%'}
    if tags1 != tags2: return rec.violation('tags', 'expected %r\n     got %r' % (tags1, tags2), script)


def body_text(rng):
    return rng.choice(['', 'x', 'one\ntwo', 'a\n   b\n c', '\nlead', 'trail\n', '<b>&amp;</b>', ' x ', values.text(rng)])

STD = ['p', 'div', 'UL', 'h1', 'upper', 'lower', 'merge', 'inline', 'dedent', 'unique', 'comment', 'doctype', 'br', 'crop', 'custom']

@check.monitor('functions', 2400, 60000, rule='a hypertag (local, nested or imported from a file), a standard or custom tag called as a function in an expression at any place gives exactly the text that its occurrence with the same inline body and attributes renders to, or an exception of the same class; non-trivial: distinct script')
def functions(rng, i, rec):
    from hypertag import Tag
    g = G.DocGen(rng, dict(PROFILE, probes=False, budget=rng.choice([6, 12]), errors=rng.choice([0, 0, .03]), embed=3))
    x = rng.random()
    vary = rng.choice([0, .15])
    ser = X.Ser(rng, vary)
    w = D.Writer(ser, rng, vary)
    b = body_text(rng) if rng.random() < .9 else None
    files = None
    tags = {}
    if x < .75:
        pre = []
        for _ in range(rng.randint(0, 3)): pre.append(g.b_assign(1) if rng.random() < .5 else g.b_def(1))
        pre.append(g.b_def(1))
        (name, attrs), d = g.hyper_use()
        if rng.random() < .1: attrs = attrs[1:]
        if rng.random() < .05: attrs = attrs + [('kw', 'zz', ('num', '1'))]
        if d.bodyattr is None: b = None
        try: head = write(pre, rng.random())
        except ValueError: return rec.stat('skipped')
        # values that double in each iteration of nested loops take all the time and memory there is
        try: run_model(pre + [D.Tag(chain=[(name, attrs)], body=[])])
        except OverflowError: return rec.stat('too big')
        if rng.random() < .3:
            # the same definitions imported from a file
            folder = os.path.join(rec.tmp, 'c21-%d' % os.getpid(), str(i))
            os.makedirs(folder, exist_ok=True)
            with open(os.path.join(folder, 'lib.hy'), 'w', encoding='utf-8') as f: f.write(head)
            files = os.path.join(folder, 'main.hy')
            names = [n for n in g.frames[0].vars]
            new = rng.choice([name, name, 'Zz'])
            head = 'from %s import %s' % (rng.choice(['.lib', 'lib']), ', '.join(['%' + name + (' as ' + new if new != name else '')] + ['$' + n for n in names]))
            name = new
            rec.stat('imported')
    else:
        name = rng.choice(STD + ['Cust', 'Cust'])
        head = ''
        class Cust(Tag):
            def expand(self, body, attrs, kwattrs): return '[%s|%s|%s]' % (body.render(), list(attrs), kwattrs)
        tags = {'Cust': Cust()}
        attrs = []
        if name in ('p', 'div', 'UL', 'h1', 'br', 'Cust'): attrs = [a for a in g.attr_list() if a[0] == 'kw' and a[1].isidentifier()]
        attrs = [a for k, a in enumerate(attrs) if a[1] not in [z[1] for z in attrs[:k]]]
        if name == 'Cust' and rng.random() < .5: attrs = [('pos', ('num', '7'))] + attrs
        if name == 'custom': attrs = [('pos', ('str', ['x-y']))] + ([('kw', 'a', ('str', ['q"']))] if rng.random() < .5 else [])
        if name == 'crop': name = 'upper'
        if name == 'br' and rng.random() < .8: b = None
    try:
        line = name + w.attrs(attrs)
        call = ser.ser(('call', ('tag', name), ([('var', 'b')] if b is not None else [('const', None)] if any(a[0] == 'pos' for a in attrs) else []) + [a[1] for a in attrs if a[0] == 'pos'], [(a[1], a[2]) for a in attrs if a[0] == 'kw']))
    except ValueError: return rec.stat('skipped')
    if any(a[0] == 'kw' and not a[1].isidentifier() for a in attrs): return rec.stat('skipped')
    ctx = 'context ' + ', '.join(['$b', '$f'] + ['%' + t for t in tags]) + '\n' + (head + '\n' if head else '')
    one = ctx + line + (' / $b' if b is not None else '')
    got = []
    def f(v):
        got.append(v)
        return ''
    place = rng.choice(['$ f(%s)', '$ f(%s)', '| a {f(%s)} b', 'p\n  div\n    / {f(%s)}', 'p title={f(%s)} | x', 'if f(%s)\n  p', '%%Hh\n  p\n    | {f(%s)}\nul\n  li\n    Hh', 'for i in [1]\n  $ f(%s)', 'div\n  $ f(%s)', '%%Hd q\n  pass\np\n  i\n    Hd {f(%s)}', '$zz9 = %s\n$ f(zz9)', 'div : b | {f(%s)}', 'p\n   | x\n     {f(%s)}', '| {%s : f}', 'try\n  p | {f(%s)}'])
    two = ctx + place % call
    a = run_real(one, context=dict(b=b, f=f), tags=tags, file=files)
    del got[:]
    c = run_real(two, context=dict(b=b, f=f), tags=tags, file=files)
    rec.event(2)
    rec.stat(name if head == '' else 'hypertag')
    rec.stat('ok' if a.exc is None else 'exc')
    rec.sig(one, two)
    rec.show(two)
    if files: shutil.rmtree(os.path.dirname(files), ignore_errors=True)
    what = '\n--- occurrence:\n%s\n--- body: %r' % (one, b)
    if a.exc is not None:
        if place.startswith('try'): return
        if c.exc is None or c.error != a.error: rec.violation('exception of a call', 'occurrence: %r\n      call: %r, %r' % (a, c, got) + what, two)
        return
    if c.exc is not None or len(got) != 1: return rec.violation('call', 'occurrence: %r\n      call: %r, %r' % (a, c, got) + what, two)
    v = got[0]
    if not isinstance(got[0], str) or v != a.out: rec.violation('text of a call', 'occurrence: %r\n      call: %r' % (a.out, got[0]) + what, two)

regress.probes(check)
