"""Shortcuts, merging of attributes and short forms of blocks equal their longhand."""
import copy, re
from hv.core import Check
from hv import doc as D, expr as X, gen as G, values, htmltok, regress
from hv.difftest import run_real, write

check = Check('C20', ['a class that starts with a digit is not written as a shortcut, because " .9" is a number', 'an inline body and an outlined one differ in the layout of the output, so such forms are compared up to whitespace'])

SYMBOL = {'.': 'class', '#': 'id'}

# longhand of a document

def explicit_attrs(attrs):
    """Attributes without shortcuts, each name once: values of repeated ones are joined by an expression."""
    out, where = [], {}
    for a in attrs:
        if a[0] == 'pos':
            out.append(a)
            continue
        name, e = (a[1], a[2]) if a[0] == 'kw' else (SYMBOL[a[1]], ('str', [a[2]]) if isinstance(a[2], str) else a[2])
        if name in where:
            k = where[name]
            out[k] = ('kw', name, ('bin', '+', ('bin', '+', out[k][2], ('str', [' '])), e))
        else:
            where[name] = len(out)
            out.append(('kw', name, e))
    return out

def short_pieces(rng, attrs):
    """The reverse: literal class and id attributes written as shortcuts, one per word."""
    out = []
    for a in attrs:
        if a[0] == 'kw' and a[1] in ('class', 'id') and a[2][0] == 'str' and len(a[2][1]) == 1 and isinstance(a[2][1][0], str) and re.fullmatch(r'[A-Za-z0-9_-]+( [A-Za-z0-9_-]+)*', a[2][1][0]):
            out += [('short', {'class': '.', 'id': '#'}[a[1]], w) for w in a[2][1][0].split(' ')]
        else: out.append(a)
    return out

def inner(b): return b.block if isinstance(b, D.Short) else b

def map_attrs(blocks, fun):
    for b in D.walk_blocks(blocks):
        b = inner(b)
        if isinstance(b, D.Tag): b.chain = [(name, fun(attrs)) for name, attrs in b.chain]

def map_expr(x, fun):
    """The expression (or any structure that contains expressions) with fun applied to all subexpressions, bottom up."""
    if isinstance(x, tuple):
        y = tuple(map_expr(z, fun) for z in x)
        return fun(y) if y and isinstance(y[0], str) else y
    if isinstance(x, list): return [map_expr(z, fun) for z in x]
    if isinstance(x, (D.Block, D.Body)):
        for k, v in list(vars(x).items()): setattr(x, k, map_expr(v, fun))
    return x

def unpipe(e):
    if e[0] == 'pipe' and len(e) == 5: return ('call', e[2], [e[1]] + (e[3] or []), e[4])
    return e

def desugar(blocks):
    """In-place assignments, ?-qualified blocks and pipelines in their longhand. New list of blocks."""
    out = []
    for b in blocks:
        if isinstance(b, D.Assign) and b.op and isinstance(b.targets, str):
            b.expr = ('bin', b.op, ('var', b.targets), b.expr)
            b.op = ''
        for k in ('body', 'else_'):
            v = getattr(b, k, None)
            if isinstance(v, list): setattr(b, k, desugar(v))
            elif isinstance(v, D.Body) and v.blocks: v.blocks = desugar(v.blocks)
        for v in [x for _, x in getattr(b, 'clauses', ())] + list(getattr(b, 'branches', ())):
            if v is not None and v.blocks: v.blocks = desugar(v.blocks)
        if isinstance(b, D.Short):
            t = b.block
            if isinstance(getattr(t, 'body', None), list): t.body = desugar(t.body)
            n = D.Try(branches=[D.Body(blocks=[t], unit='  ')])
            n.margin, n.mod, n.noise = b.margin, b.mod, b.noise
            t.margin, t.mod, t.noise = 0, '', ()
            b = n
        out.append(b)
    return out

def block_of(text):
    t = text
    t.margin, t.mod, t.noise = 0, '', ()
    return t

def unroll(blocks):
    """Inlined bodies, headlines and chains written as outlined blocks. New list of blocks."""
    out = []
    for b in blocks:
        for v in [x for _, x in getattr(b, 'clauses', ())] + list(getattr(b, 'branches', ())) + [getattr(b, k, None) for k in ('body', 'else_')]:
            if not isinstance(v, D.Body): continue
            if v.text is not None: v.blocks, v.text, v.unit = [block_of(v.text)], None, '  '
            v.blocks = unroll(v.blocks or [])
        t = inner(b)
        if isinstance(t, (D.Tag, D.Def)):
            body = unroll(list(t.body))
            if t.text is not None: body, t.text = [block_of(t.text)], None
            elif t.embed is not None: body, t.embed = [D.Embed(expr=t.embed)], None
            elif t.head is not None: body, t.head = [block_of(t.head)] + body, None
            t.unit = t.unit or '  '
            t.colon = None
            if isinstance(t, D.Tag):
                for name, attrs in reversed(t.chain[1:]): body = [D.Tag(chain=[(name, attrs)], body=body, colon=False if name.lower() in ('br', 'hr', 'img', 'input', 'link') else None)]
                t.chain = t.chain[:1]
            t.body = body
        out.append(b)
    return out

def bare(out): return re.sub(r'\s+', '', out)

def compare(rng, rec, before, after, exact, feature=None):
    """Both lists of blocks are written and rendered."""
    seed = rng.random()
    try: s1, s2 = write(before, seed), write(after, seed + 1)
    except ValueError: return rec.stat('skipped')
    a, b = run_real(s1), run_real(s2)
    rec.event(2)
    rec.stat('ok' if a.exc is None else 'exc ' + a.error)
    if s1 != s2 and (feature is None or feature(s1)): rec.sig(s1, s2)
    rec.show(s1 + '\n---\n' + s2)
    if (a.exc is None) != (b.exc is None) or a.error != b.error:
        return rec.violation('outcome differs from longhand', '%r\n  vs\n%r\n--- longhand:\n%s' % (a, b, s2), s1)
    if a.exc is None and (a.out != b.out if exact else bare(a.out) != bare(b.out)):
        return rec.violation('output differs from longhand', '%r\n  vs\n%r\n--- longhand:\n%s' % (a.out, b.out, s2), s1)

PROFILE = dict(stdtags=0, attrs=.9, tag=20, hyper=5, dupattrs=.3, hostile=.3, budget=14, comments=0, margins=.1, mods=0, texttail=0)

@check.monitor('attributes', 900, 45000, rule='random documents with shortcuts and repeated attributes, rewritten with each attribute once and no shortcuts; equal outputs; non-trivial: the document has a shortcut or a repeated attribute')
def attributes(rng, i, rec):
    blocks = G.DocGen(rng, PROFILE).document()
    long = copy.deepcopy(blocks)
    map_attrs(long, explicit_attrs)
    # merging fails for values that are not strings: in the longhand too
    changed = repr(long) != repr(blocks)
    compare(rng, rec, blocks, long, True, lambda s: changed)

@check.monitor('shortened', 500, 25000, rule='the reverse: literal class and id attributes of a random document rewritten as shortcuts, a word each; non-trivial: distinct script')
def shortened(rng, i, rec):
    blocks = G.DocGen(rng, PROFILE).document()
    for b in D.walk_blocks(blocks):
        b = inner(b)
        if isinstance(b, D.Tag): b.chain = [(n, a if n == '.' or any(x[0] == 'pos' for x in a) else literal_attrs(rng, a)) for n, a in b.chain]
    short = copy.deepcopy(blocks)
    map_attrs(short, lambda attrs: short_pieces(rng, attrs))
    changed = repr(short) != repr(blocks)
    compare(rng, rec, short, blocks, True, lambda s: changed)

def literal_attrs(rng, attrs):
    out = [a for a in attrs if not (a[0] == 'kw' and a[1] in ('class', 'id') or a[0] == 'short')]
    if len(out) < len(attrs) or rng.random() < .2:
        for name in rng.choice([['class'], ['class', 'id'], ['id'], ['id', 'class']]):
            out.insert(rng.randint(0, len(out)), ('kw', name, ('str', [' '.join(rng.choice(['a', 'b-c', 'X_1', '-q', 'u9', 'main', 'a'] + (['9'] if name == 'id' else [])) for _ in range(rng.choice([1, 1, 2, 3])))])))
    return out

@check.monitor('blocks', 700, 35000, rule='random documents with ?-qualified blocks, in-place assignments and pipelines, rewritten with try, plain assignments and calls; equal outputs; non-trivial: the sources differ')
def blocks_(rng, i, rec):
    blocks = G.DocGen(rng, dict(PROFILE, attrs=.3, short=6, try_=3, assign=14, expr=2, errors=rng.choice([0, 0, .05]), exprdepth=3)).document()
    long = map_expr(desugar(copy.deepcopy(blocks)), unpipe)
    changed = repr(long) != repr(blocks)
    compare(rng, rec, blocks, long, True, lambda s: changed)

@check.monitor('layout', 800, 40000, rule='random documents with inlined bodies, headlines and chains, rewritten with every block outlined; outputs equal up to whitespace; non-trivial: the sources differ')
def layout(rng, i, rec):
    blocks = G.DocGen(rng, dict(PROFILE, attrs=.3, chain=.4, head=.4, inline_ctl=.4, texttail=.2, null=2, if_=5, for_=4, budget=20)).document()
    long = unroll(copy.deepcopy(blocks))
    changed = repr(long) != repr(blocks)
    compare(rng, rec, blocks, long, False, lambda s: changed)


# direct oracle

@check.monitor('merging', 3000, 120000, rule='a random list of shortcuts and named attributes on a regular tag, a Python tag, a hypertag or a member of a chain: each name once, at its first position, with the values joined by a space in the order written; non-trivial: 1+ repeated name')
def merging(rng, i, rec):
    from hypertag import Tag
    ctx, want, parts = {}, {}, []
    glue = True
    names = ['class', 'class', 'id', 'title', 'data-x', 'class-', 'ids', 'klass', 'x.y']
    target = rng.choice(['regular', 'regular', 'python', 'hypertag', 'chain'])
    if target == 'hypertag': names = ['class', 'class', 'id', 'title', 'klass']
    repeated = bad = False
    for k in range(rng.randint(1, 7)):
        v = rng.choice(['a', 'b-c', '0', 'X_', values.text(rng, maxlen=2), 'two words', ''])
        x = rng.random()
        if x < .55:
            mark = rng.choice('..#')
            name = SYMBOL[mark]
            if re.fullmatch(r'[A-Za-z0-9_-]+', v) and (mark == '#' or not v[0].isdigit()) and rng.random() < .7: src = v
            else:
                ctx['v%d' % k] = v
                src = rng.choice(['{v%d}', '$v%d', '{ $v%d }', '{[v%d][0]}', '{v%d or ""}']) % k
                if src[0] == '$': glue_next = False
            parts.append((mark + src, glue and rng.random() < .6))
            glue = src[0] != '$'            # $v.a is an access to a member
        else:
            name = rng.choice(names)
            if rng.random() < .06: v = rng.choice([True, False, 5, None, ['l']])
            ctx['v%d' % k] = v
            parts.append(('%s=%s' % (name, rng.choice(['{v%d}', '$v%d', 'v%d', '{ v%d}']) % k), False))
            glue = False
        if name in want:
            repeated = True
            if not isinstance(want[name], str) or not isinstance(v, str): bad = True
            else: want[name] += ' ' + v
        else: want[name] = v
    text = ''.join(p if g else ' ' + p for p, g in parts)
    got = []
    class Rec(Tag):
        def expand(self, body, attrs, kwattrs):
            got.append((attrs, dict(kwattrs), list(kwattrs)))
            return body.render()
    head = {'python': 'Rec', 'hypertag': 'H', 'regular': 'p', 'chain': 'p'}[target]
    line = head + text
    script = 'context ' + ', '.join(['$f', '%Rec'] + ['$' + n for n in ctx]) + '\n'
    if target == 'hypertag':
        ns = list(dict.fromkeys(list(want)))
        rng.shuffle(ns)
        script += '%H ' + ' '.join(n if rng.random() < .5 else n + '="?"' for n in ns) + '\n  $ f(' + ', '.join('["%s", %s]' % (n, n) for n in ns) + ')\nH' + text
    elif target == 'chain': script += rng.choice(['div .q : p%s : b #w | x', 'p%s : b .q', 'div : p%s', 'div #z .y\n  i : p%s | x']) % text
    else: script += rng.choice(['', 'ul : ', 'ul .k\n  ']) + line + rng.choice(['', ' | x', ' : b'])
    def f(*pairs): got.append(((), dict(map(tuple, pairs)), None))
    r = run_real(script, context=dict(ctx, f=f), tags={'Rec': Rec()})
    rec.event()
    rec.stat(target)
    if repeated: rec.sig(text, target)
    rec.show('%s   %r' % (script, ctx))
    what = '\n%r' % ctx
    if bad:
        if type(r.exc) is not TypeError and 'TypeErrorEx' != r.error: rec.violation('merging of values that are not strings', 'expected TypeError, got %r' % r + what, script)
        return
    if r.exc is not None: return rec.violation('exception', repr(r) + what, script)
    if target in ('python', 'hypertag'):
        if len(got) != 1: return rec.violation('calls', '%r' % got + what, script)
        a, kw, order = got[0]
        if list(a) or kw != want or order is not None and order != list(want): return rec.violation('merged attributes', 'expected %r\n     got %r' % (want, got[0]) + what, script)
    else:
        try: toks = [t for t in htmltok.tokens(r.out) if t[0] == 'start' and t[1] == 'p']
        except htmltok.BadHTML as ex: return rec.violation('malformed output', '%s %r' % (ex, r.out) + what, script)
        attrs = [(n, htmltok.decode(v) if v is not None else None) for n, v in toks[0][2]]
        w = [(n, None if v is True else str(v)) for n, v in want.items() if v is not False]
        if attrs != w: return rec.violation('merged attributes', 'expected %r\n     got %r\n%r' % (w, attrs, r.out) + what, script)

regress.probes(check)
