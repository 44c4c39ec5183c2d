"""DOM: traversal, selection, copies, slices, transformations."""
import re
from hv.core import Check
from hv import regress, domtree as T, htmltok
from hv.difftest import run_real

check = Check('C13', ['trees are built with the public classes DOM, DOM.Node, DOM.Text, and by translation of scripts'])

NAMES = ['p', 'div', 'ul', 'li', 'x-1']
KEYS = ['class', 'title', 'id', 'data-a', 'n']
VALUES = ['x', 'y', 'x y', '', 5, True, False, None, (1,)]
ANY = object()


class M:
    """Mirror of a node: what the tree must look like."""
    def __init__(self, tag=None, kw=None, attrs=None, kids=(), text=None, root=False, real=None):
        self.tag, self.kw, self.attrs, self.kids, self.text, self.root, self.real = tag, kw, attrs, list(kids), text, root, real
    def shape(self):
        return (self.tag and self.tag.name, dict(self.kw or {}), list(self.attrs or []), self.text, [k.shape() for k in self.kids])
    def walk(self, skip=None, order='preorder'):
        if skip and skip(self): return
        if order == 'preorder': yield self
        for k in self.kids: yield from k.walk(skip, order)
        if order == 'postorder': yield self
    def tree(self, ind='', step='  '):
        s = self.tag.name if self.tag else '<Text>' if self.text is not None else '<Node>'
        for a in self.attrs or []: s += ' %s' % (a,)
        for k, v in (self.kw or {}).items(): s += ' %s=%s' % (k, v)
        return ind + s + '\n' + ''.join(k.tree(ind + step, step) for k in self.kids)
    def render(self):
        if self.text is not None: return self.text
        body = ''.join(k.render() for k in self.kids)
        if not self.tag: return body
        return self.tag.show(body, self.attrs or [], self.kw or {})
    def copy(self, drop=None):
        return M(self.tag, dict(self.kw) if self.kw is not None else None, list(self.attrs) if self.attrs is not None else None, [k.copy(drop) for k in self.kids if not (drop and drop(k))], self.text)


def make_tags():
    from hypertag import Tag
    class Plain(Tag):
        def __init__(self, name): self.name = name
        def expand(self, body, attrs, kwattrs): return self.show(body.render(), list(attrs), dict(kwattrs))
        def show(self, body, attrs, kw): return '<%s%s%s>%s</%s>' % (self.name, ''.join(' %s' % (a,) for a in attrs), ''.join(' %s=%s' % i for i in kw.items()), body, self.name)
    return [Plain(n) for n in NAMES] + [Plain('p')]     # two different tags of the same name


def rand_tree(rng, tags, depth=3):
    """(mirror with .real set)"""
    from hypertag import DOM
    x = rng.random()
    if x < .2 or depth == 0 and x < .6:
        text = rng.choice(['t', 'a b', '<b>', 'x\ny', '']) + str(rng.randint(0, 9))
        m = M(text=text)
        m.real = DOM.Text(text)
        return m
    kids = [rand_tree(rng, tags, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))] if depth else []
    tag = rng.choice(tags) if rng.random() < .85 else None
    kw = {k: rng.choice(VALUES) for k in rng.sample(KEYS, rng.randint(0, 3))} if rng.random() < .75 else None
    attrs = [rng.choice(VALUES) for _ in range(rng.randint(0, 2))] if rng.random() < .3 else None
    m = M(tag, kw, attrs, kids)
    params = {}
    if tag: params['tag'] = tag
    if kw is not None: params['kwattrs'] = dict(kw)
    if attrs is not None: params['attrs'] = list(attrs)
    m.real = DOM.Node(nest(rng, [k.real for k in kids]), **params)
    return m

def nest(rng, nodes):
    """The same nodes, nested at random in lists, DOMs, generators, with None's."""
    from hypertag import DOM
    x = rng.random()
    if x < .5 or not nodes: return DOM(*nodes) if rng.random() < .5 else list(nodes)
    k = rng.randint(0, len(nodes))
    a, b = nodes[:k], nodes[k:]
    return rng.choice([lambda: [a, None, b], lambda: [DOM(*a), [[b]]], lambda: (n for n in [a, b]), lambda: [(n for n in a)] + b, lambda: DOM(a, None, (n for n in b))])()


def shape(node):
    return (node.tag and node.tag.name, dict(node.kwattrs or {}), list(node.attrs or []), getattr(node, 'text', None), [shape(k) for k in node.body])

def refs(nodes):
    out = []
    for n in nodes:
        out.append(n)
        out += refs(n.body)
    return out


def constraint(rng, tags):
    """(args, kwargs, predicate on mirrors)"""
    args, kw, tests = [], {}, []
    x = rng.random()
    if x < .4:
        n = rng.choice(NAMES)
        tests.append(lambda m: m.tag is not None and m.tag.name == n)
        t = n
    elif x < .7:
        t = rng.choice(tags)
        tests.append(lambda m: m.tag is t)
    else: t = None
    if t is not None:
        if rng.random() < .6: args.append(t)
        else: kw['tag'] = t
    if rng.random() < .5 or t is None:
        a = rng.choice(KEYS)
        if rng.random() < .4:
            tests.append(lambda m: m.kw is not None and a in m.kw)
            if args and rng.random() < .5: args.append(a)
            else: kw['attr'] = a
        else:
            v = rng.choice(VALUES)
            tests.append(lambda m: m.kw is not None and a in m.kw and m.kw[a] == v)
            if args and rng.random() < .5: args += [a, v]
            else: kw.update(attr=a, value=v)
    if rng.random() < .3:
        a2, v2 = rng.choice(['title', 'id', 'n', 'data-a']), rng.choice(VALUES)
        if kw.get('attr') != a2 and a2 not in args:
            kw[a2] = v2
            tests.append(lambda m: m.kw is not None and a2 in m.kw and m.kw[a2] == v2)
    return args, kw, lambda m: all(t(m) for t in tests)


def same(got, want):
    return len(got) == len(want) and all(a is b for a, b in zip(got, want))


@check.monitor('operations', 9000, rule='a random tree of nodes (shared tag names, missing attributes, text, nested lists) and a random sequence of walk, select, skip, copy, index, slice, tree, render; results compared with a mirror tree by identity of nodes; after every read-only operation the tree is unchanged; non-trivial: 5+ nodes')
def operations(rng, i, rec):
    from hypertag import DOM
    tags = make_tags()
    forest = [rand_tree(rng, tags, rng.choice([1, 2, 3, 4])) for _ in range(rng.randint(0, 4))]
    dom = DOM(nest(rng, [m.real for m in forest]))
    before = [shape(m.real) for m in forest]
    if before != [m.shape() for m in forest]: return rec.violation('construction', '%r' % before)
    ids = refs(dom)
    allm = [x for m in forest for x in m.walk()]
    if not same(ids, [x.real for x in allm]): return rec.violation('construction', 'nodes were not flattened in order')
    if len(allm) > 4: rec.sig(before)
    rec.event(len(allm))
    rec.show(dom.tree())
    mirror = {id(x.real): x for x in allm}
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(['walk', 'walk', 'select', 'select', 'skip', 'skip', 'copy', 'index', 'slice', 'tree', 'render', 'node', 'getitem', 'items'])
        rec.stat(op)
        rec.event()
        order = rng.choice(['preorder', 'postorder'])
        okw = {} if order == 'preorder' and rng.random() < .5 else {'order': order}
        sub = rng.choice(allm) if allm and rng.random() < .3 else None
        where = 'in:\n' + dom.tree()
        if op == 'walk':
            bad = set(id(x.real) for x in allm if rng.random() < .2) if rng.random() < .6 else None
            calls = []
            def skip(node):
                calls.append(node)
                return id(node) in bad
            kw = dict(okw)
            if bad is not None: kw['skip'] = skip
            got = list((sub.real if sub else dom).walk(**kw))
            want = [x.real for m in ([sub] if sub else forest) for x in m.walk((lambda m: id(m.real) in bad) if bad is not None else None, order)]
            if not same(got, want): return rec.violation('walk', '%r: %s nodes, expected %s %s' % (okw, len(got), len(want), where))
            if len(calls) != len(set(map(id, calls))): return rec.violation('walk', 'skip() was called twice for a node ' + where)
        elif op == 'select':
            a, kw, test = constraint(rng, tags)
            got = dom.select(*a, **kw, **okw)
            want = [x.real for m in forest for x in m.walk(None, order) if test(x)]
            if not isinstance(got, DOM) or not same(list(got), want): return rec.violation('select', '%r %r %r: %r, expected %r %s' % (a, kw, okw, [shape(n) for n in got], [shape(n) for n in want], where))
            if got.render() != ''.join(n.render() for n in want): return rec.violation('select', 'rendering of selected nodes ' + where)
        elif op == 'skip':
            a, kw, test = constraint(rng, tags)
            got = dom.skip(*a, **kw)
            want = [m.copy(test).shape() for m in forest if not test(m)]
            if [shape(n) for n in got] != want: return rec.violation('skip', '%r %r: %r, expected %r %s' % (a, kw, [shape(n) for n in got], want, where))
            if set(map(id, refs(got))) & set(map(id, ids)): return rec.violation('skip', 'the result shares nodes with the original ' + where)
        elif op == 'copy':
            dup = (sub.real if sub else dom).copy()
            nodes = [dup] if sub else list(dup)
            if [shape(n) for n in nodes] != [m.shape() for m in ([sub] if sub else forest)]: return rec.violation('copy', where)
            if set(map(id, refs(nodes))) & set(map(id, ids)): return rec.violation('copy', 'shares nodes with the original ' + where)
            # changes of the copy don't affect the original
            for n in refs(nodes):
                if n.kwattrs is not None: n.kwattrs['title'] = 'changed'; n.kwattrs.pop('id', None)
                if n.attrs is not None: n.attrs.append('changed')
                if isinstance(n, DOM.Text): n.text = 'changed'
                n.body.nodes[:] = []
                n.tag = None
            if not sub: dup.nodes[:] = []
        elif op == 'index' and forest:
            k = rng.randint(-len(forest), len(forest) - 1)
            if dom[k] is not forest[k].real: return rec.violation('index', '%d %s' % (k, where))
            for bad in (len(forest), -len(forest) - 1):
                try: dom[bad]
                except IndexError: pass
                else: return rec.violation('index', 'no IndexError for %d %s' % (bad, where))
        elif op == 'slice':
            s = slice(*[rng.choice([None, None, -2, -1, 0, 1, 2, 9]) for _ in range(2)], rng.choice([None, None, 1, 2, -1, -2]))
            got = dom[s]
            if not isinstance(got, DOM) or not same(list(got), [m.real for m in forest[s]]): return rec.violation('slice', '%r %s' % (s, where))
        elif op == 'tree':
            got, want = (sub.real.tree(), sub.tree()) if sub else (dom.tree(), ''.join(m.tree() for m in forest))
            if got != want: return rec.violation('tree', 'expected\n%s\ngot\n%s' % (want, got))
            got = dom.tree('>', '--')
            want = ''.join(m.tree('>', '--') for m in forest)
            if got != want: return rec.violation('tree', 'expected\n%s\ngot\n%s' % (want, got))
        elif op == 'render':
            got, want = (sub.real.render(), sub.render()) if sub else (dom.render(), ''.join(m.render() for m in forest))
            if got != want: return rec.violation('render', 'expected %r, got %r %s' % (want, got, where))
        elif op == 'node' and sub:
            for k in KEYS:
                if sub.real.get(k) != (sub.kw or {}).get(k) or sub.real.get(k, 'default') != (sub.kw or {}).get(k, 'default'): return rec.violation('get', '%r %s' % (k, where))
                if sub.kw and k in sub.kw and sub.real[k] is not sub.kw[k]: return rec.violation('attribute', '%r %s' % (k, where))
        elif op == 'getitem':
            t = rng.choice(NAMES + tags)
            got = dom[t]
            want = [x.real for x in allm if (x.tag is t if not isinstance(t, str) else x.tag and x.tag.name == t)]
            if not same(list(got), want): return rec.violation('dom[tag]', '%r %s' % (t, where))
        elif op == 'items':
            if len(dom) != len(forest) or bool(dom) != bool(forest) or not same(list(dom), [m.real for m in forest]) or not same(dom.nodes, [m.real for m in forest]): return rec.violation('len/bool/iter', where)
        if [shape(m.real) for m in forest] != before or not same(refs(dom), ids): return rec.violation('%s modified the DOM' % op, '%r -> %r' % (before, [shape(n) for n in dom]))


@check.monitor('alter', 4000, rule='random transformations (drop, keep, duplicate, replace, wrap) with a random order and skip function; calls of transform and the resulting tree compared with a recursive definition on the mirror; non-trivial: 5+ nodes')
def alter(rng, i, rec):
    from hypertag import DOM
    tags = make_tags()
    forest = [rand_tree(rng, tags, rng.choice([1, 2, 3])) for _ in range(rng.randint(1, 4))]
    dom = DOM(*[m.real for m in forest])
    order = rng.choice(['preorder', 'postorder'])
    allm = [x for m in forest for x in m.walk()]
    mode = {}
    kinds = ['keep', 'keep', 'drop', 'dup', 'replace', 'text', 'unnest'] + (['wrap'] if order == 'postorder' else [])
    for x in allm: mode[id(x.real)] = rng.choice(kinds)
    skipped = set(id(x.real) for x in allm if rng.random() < .2) if rng.random() < .5 else None
    keep_alive = [x.real for x in allm]
    rcalls, mcalls = [], []
    form = rng.choice(['list', 'gen', 'tuple', 'nested'])
    def key(node): return getattr(node, 'text', None) or node.tree()
    def transform(node):
        rcalls.append(shape(node))
        k = mode.get(id(node), 'keep')
        if k == 'keep': out = [node]
        elif k == 'drop': out = []
        elif k == 'dup': out = [node, node.copy()]
        elif k == 'replace': out = [DOM.Node(DOM.Text('r'), tag=tags[0])]
        elif k == 'text': out = [DOM.Text('new'), node]
        elif k == 'unnest': out = list(node.body)
        else: out = [DOM.Node(node, tag=tags[1], kwattrs={'id': 'w'})]
        if form == 'gen': return (n for n in out)
        if form == 'tuple': return tuple(out)
        if form == 'nested': return [None, out]
        return out
    def mtransform(m):
        mcalls.append(m.shape())
        k = mode.get(id(m.real), 'keep') if m.real is not None else 'keep'
        if k == 'keep': return [m]
        if k == 'drop': return []
        if k == 'dup': return [m, m.copy()]
        if k == 'replace': return [M(tags[0], None, None, [M(text='r')])]
        if k == 'text': return [M(text='new'), m]
        if k == 'unnest': return list(m.kids)
        return [M(tags[1], {'id': 'w'}, None, [m])]
    def malter(nodes):
        if order == 'postorder':
            for m in nodes:
                if not (skipped and m.real is not None and id(m.real) in skipped): m.kids = malter(m.kids)
        nodes = [n for m in nodes for n in mtransform(m)]
        if order == 'preorder':
            for m in nodes:
                if not (skipped and m.real is not None and id(m.real) in skipped): m.kids = malter(m.kids)
        return nodes
    text = dom.tree()
    kw = {} if order == 'preorder' and rng.random() < .5 else {'order': order}
    if skipped is not None: kw['skip'] = lambda n: id(n) in skipped
    on_node = rng.random() < .2
    if on_node:
        target = allm[0]
        real = target.real
        ret = real.alter(transform, **kw)
        if skipped is None or id(real) not in skipped: target.kids = malter(target.kids)
        want, got = [target.shape()], [shape(real)]
        if ret is not real: return rec.violation('alter', 'the result is not the node itself')
    else:
        ret = dom.alter(transform, **kw)
        want, got = [m.shape() for m in malter(forest)], [shape(n) for n in dom]
        if ret is not dom: return rec.violation('alter', 'the result is not the DOM itself')
    rec.event(len(rcalls) + 1)
    if len(allm) > 4: rec.sig(text, order)
    rec.show('%s %s skip=%s\n%s' % (order, sorted(mode.values()), skipped is not None, text))
    if got != want: return rec.violation('alter', '%s: expected %r\n got %r\n tree:\n%s' % (order, want, got, text))
    if rcalls != mcalls: return rec.violation('alter', '%s: transform called with\n%r\nexpected\n%r\n tree:\n%s' % (order, rcalls, mcalls, text))


@check.monitor('scripts', 2500, rule='a random forest of elements is translated; walk, select, skip and slices of the DOM of the document, also in hypertags and after rendering, give the expected elements; non-trivial: 4+ elements')
def scripts(rng, i, rec):
    from hypertag import HyperHTML, DOM
    forest = T.rand_forest(rng, rng.randint(1, 4), rng.choice([1, 2, 3]))
    script = '\n'.join(e.script() for e in forest)
    root = HyperHTML().translate(script).dom
    elements = [e for f in forest for e in f.walk()]
    rec.event(len(elements))
    if len(elements) > 3: rec.sig(script)
    rec.show(script)
    def label(n): return (n.tag.name, dict(n.kwattrs or {}))
    def want(es): return [(e.tag, e.attrs) for e in es]
    for order in ('preorder', 'postorder'):
        got = [label(n) for n in root.walk(order=order) if n.tag]
        w = want(e for f in forest for e in f.walk(order))
        if got != w: return rec.violation('walk', 'expected %r\n     got %r' % (w, got), script)
    text = root.render()
    for _ in range(4):
        args, tag, attrs = T.constraint(rng)
        kw = {}
        order = rng.choice(['preorder', 'postorder'])
        pairs = {k: (DOM.ATTR_DEFINED if v is T.MISSING else v) for k, v in attrs.items() if k != 'class'}
        kw = dict(pairs)
        if 'class' in attrs: kw.update(attr='class', value=DOM.ATTR_DEFINED if attrs['class'] is T.MISSING else attrs['class'])
        got = root.body.select(tag, order=order, **kw)
        w = T.select(forest, tag, attrs, order)
        if [label(n) for n in got] != want(w): return rec.violation('select', '%r %r: expected %r\n     got %r' % (tag, kw, want(w), [label(n) for n in got]), script)
        rec.event()
        got = root.body.skip(tag, **kw)
        w = T.skip(forest, tag, attrs)
        r = got.render()
        try: tree = htmltok.tree(r)
        except htmltok.BadHTML as ex: return rec.violation('skip', '%s: %r' % (ex, r), script)
        exp = [e.expected() for e in w]
        if clean(tree) != clean(exp): return rec.violation('skip', '%r %r: expected %r\n     got %r' % (tag, kw, clean(exp), clean(tree)), script)
        if root.render() != text: return rec.violation('the DOM was modified', '%r -> %r' % (text, root.render()), script)
    k = rng.randint(0, 3)
    nodes = list(root.body)
    if ''.join(n.render() for n in nodes) != root.body.render() or ('\n' + text if root.body.render().startswith('\n') else text) != root.body.render(): return rec.violation('render', 'parts of %r' % text, script)
    if root.body[k:].render() + '' != ''.join(n.render() for n in nodes[k:]): return rec.violation('slice', repr(k), script)
    if root.copy().render() != text: return rec.violation('copy', repr(text), script)

def clean(tree):
    out = []
    for x in tree:
        if len(x) == 3 and isinstance(x[1], list): out.append([x[0], [tuple(a) for a in x[1]], clean(x[2])])
        elif x[0].strip(): out.append([x[0].strip()])
    return out

@check.monitor('constructors', 300, rule='anything that is not a node is refused by DOM(); unknown parameters too; non-trivial: every case')
def constructors(rng, i, rec):
    from hypertag import DOM
    bad = rng.choice([5, 'text', {'a': 1}, object(), 1.5, True, (DOM.Text('x'),), b'x', DOM.Text, set()])
    args = [rng.choice([DOM.Text('a'), None, [], DOM(), [DOM.Text('b')]]) for _ in range(rng.randint(0, 3))]
    args.insert(rng.randint(0, len(args)), rng.choice([bad, [bad], [[None, bad]], (b for b in [bad])]))
    rec.event()
    rec.sig(repr(args))
    try: d = DOM(*args)
    except TypeError: pass
    else: rec.violation('DOM() accepted a value that is not a node', '%r -> %r' % (args, d.nodes))
    try: DOM(foo=1)
    except TypeError: pass
    else: rec.violation('DOM() accepted an unknown parameter', '')
    n = rng.randint(0, 3)
    d = DOM(*[DOM.Text(str(k)) for k in range(n)])
    if len(d) != n or bool(d) != bool(n) or d.render() != ''.join(map(str, range(n))): rec.violation('DOM()', repr(d.nodes))
    t = DOM.text('abc')
    if len(t) != 1 or t.render() != 'abc' or str(t[0]) != 'abc' or DOM.node(t).render() != 'abc': rec.violation('DOM.text/DOM.node', '')

regress.probes(check)
