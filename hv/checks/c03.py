"""The tree of elements in the output is the tree of tags in the script."""
from hv.core import Check
from hv import htmltok, regress, doc as D, stdmodel as S
from hv.difftest import diff_case, run_real

check = Check('C03', ['the output is parsed by an independent strict parser that requires proper nesting of elements'])


def words(s):
    return ''.join(s.split())


def expected_tree(items):
    """Tree of elements the nodes of a model DOM should render to; text is reduced to its non-blank characters."""
    out = []
    for n in items:
        if n.text is not None: out.append(words(n.text))
        elif isinstance(n.tag, D.MMarkup) and type(n.tag) is D.MMarkup:
            attrs = [(k, None if v is True else str(v)) for k, v in n.kwattrs.items() if v is not False]
            out.append([n.tag.name, attrs, expected_tree(n.items)])
        else: out += expected_tree(n.items)
    return merge(out)


def merge(items):
    out = []
    for x in items:
        if isinstance(x, str):
            if not x: continue
            if out and isinstance(out[-1], str): out[-1] += x
            else: out.append(x)
        else: out.append(x)
    return out


def norm(tree):
    return merge([words(''.join(x)) if x and isinstance(x, list) and not (len(x) == 3 and isinstance(x[1], list)) else [x[0], x[1], norm(x[2])] for x in tree])


def parse(out):
    """Tree of [name, attrs, children] and text."""
    root = ['', [], []]
    stack = [root]
    for t in htmltok.tokens(out):
        if t[0] == 'text': stack[-1][2].append(words(htmltok.decode(t[1])))
        elif t[0] == 'start':
            e = [t[1], [(a, htmltok.decode(v) if v is not None else None) for a, v in t[2]], []]
            stack[-1][2].append(e)
            if t[3]:
                if t[1].lower() not in S.VOID: raise htmltok.BadHTML('<%s/> is not a void element' % t[1])
            else:
                if t[1].lower() in S.VOID: raise htmltok.BadHTML('void element <%s> is not self-closed' % t[1])
                stack.append(e)
        elif t[0] == 'end':
            if len(stack) == 1 or stack[-1][0] != t[1]: raise htmltok.BadHTML('unexpected </%s>' % t[1])
            stack.pop()
    if len(stack) > 1: raise htmltok.BadHTML('<%s> is not closed' % stack[-1][0])
    def fix(e): return [e[0], e[1], merge([x if isinstance(x, str) else fix(x) for x in e[2]])]
    return fix(root)[2]


def unescape_model(items):
    """The model keeps text of nodes escaped: undo it, to compare with the decoded output."""
    return merge([htmltok.decode(x) if isinstance(x, str) else [x[0], x[1], unescape_model(x[2])] for x in items])


PROFILE = dict(hostile=0, stdtags=0, tag=30, text=8, assign=3, attrs=.35, chain=.35, hyper=10, def_=6, for_=4, voids=.12, margins=.15, null=3, mods=.08, maxdepth=6, budget=30, exprdepth=1, embed=8)

def strip_kinds(blocks):
    for b in D.walk_blocks(blocks):
        for t in texts(b): t.kind = '|'

def texts(b):
    from hv.shrink import texts
    return texts(b)


@check.monitor('trees', 2600, rule='random documents of nested tags, chains, hypertags and control blocks: the parsed output must equal the tree of tag nodes predicted by the reference interpreter; non-trivial: 4+ elements')
def trees(rng, i, rec):
    def make(g):
        blocks = g.document()
        strip_kinds(blocks)
        return blocks
    def check_tree(blocks, script, m, it, r, rec):
        if r.exc is not None: return
        want = unescape_model(expected_tree(it.items))
        try: got = parse(r.out)
        except htmltok.BadHTML as ex: return rec.violation('malformed output', '%s\n%r' % (ex, r.out), script)
        rec.event()
        if got != want: rec.violation('tree differs', 'expected %r\n     got %r' % (want, got), script)
    diff_case(rng, rec, PROFILE, lambda stats, script: sum(v for k, v in stats.items() if k[0] == 'tag') > 3, make=make, post=check_tree)


ALL = [(n, True) for n in S.VOID] + [(n, False) for n in S.NONVOID]

@check.monitor('vocabulary', len(ALL) * 8, len(ALL) * 8, rule='every standard HTML tag, in lower and upper case, with and without a body and attributes, alone and nested (exhaustive)')
def vocabulary(rng, i, rec):
    name, void = ALL[i // 8]
    case = i % 8
    if case & 1: name = name.upper()
    attrs = ' title="t"' if case & 2 else ''
    src = name + (' title="t"' if case & 2 else '')
    rec.event()
    rec.sig(src, case)
    rec.show(src)
    if case & 4:
        script = 'section\n  %s\n  | after' % src
        r = run_real(script)
        want = '<section>\n  <%s%s />\n  after\n</section>' % (name, attrs) if void else '<section>\n  <%s%s></%s>\n  after\n</section>' % (name, attrs, name)
        if r.out != want: rec.violation('tag', 'expected %r\n     got %r' % (want, r), script)
        script = '%s | body' % src
        r = run_real(script)
        want = 'VoidTagEx' if void else '<%s%s>body</%s>' % (name, attrs, name)
        if (r.out or r.error) != want: rec.violation('tag with body', 'expected %r\n     got %r' % (want, r), script)
    else:
        script = src
        r = run_real(script)
        want = '<%s%s />' % (name, attrs) if void else '<%s%s></%s>' % (name, attrs, name)
        if r.out != want: rec.violation('tag', 'expected %r\n     got %r' % (want, r), script)
        script = '%s\n  b | x\n  | y' % src
        r = run_real(script)
        want = 'VoidTagEx' if void else '<%s%s>\n  <b>x</b>\n  y\n</%s>' % (name, attrs, name)
        if (r.out or r.error) != want: rec.violation('tag with body', 'expected %r\n     got %r' % (want, r), script)


@check.monitor('void-bodies', 600, rule='a void tag with any non-empty body, in any context, is refused; with an empty one it is accepted')
def void_bodies(rng, i, rec):
    tag = rng.choice(S.VOID)
    if rng.random() < .3: tag = tag.upper()
    bodies = [(' | x', True), (' ! x', True), ('\n  p', True), ('\n  | x', True), (' @ b', True), (' | {" "}', True), (' ! \\t', True) if False else (' | {"\\n"}', True), (' | {" " * 3}', True), ('\n  | {"\\t"}', True), (' / {"&nbsp;"}', True), (' | {""}', False), (' | {None}?', False) if False else (' !', False), ('', False), ('\n  $y = 1', False), ('\n  pass', False),
              ('\n  if False\n    | x', False), (':', False), ('\n  for i in []\n    p', False), ('\n  if True\n    | x', True), (' : b | x' if False else '\n  -- comment', False)]
    body, bad = rng.choice(bodies)
    wrap = rng.choice(['%s', 'p\n  %s', 'for i in [1, 2]\n  %s', 'div : %s', '%%H @b\n  %s\nH | z'])
    if '@ b' in body: wrap = '%%H @b\n  %s\nH | z'
    ind = '  ' if '\n  %s' in wrap else ''
    script = wrap % (tag + body.replace('\n', '\n' + ind))
    r = run_real(script)
    rec.event()
    rec.sig(script)
    rec.show(script)
    if bad and r.error != 'VoidTagEx': rec.violation('void tag accepted a body', repr(r), script)
    if not bad and (r.exc is not None or '<%s />' % tag not in r.out): rec.violation('void tag', repr(r), script)

regress.probes(check)
