"""Embedding of the body of a hypertag, and selection of its parts."""
from hv.core import Check
from hv import regress, htmltok, domtree as T, doc as D, gen as G
from hv.difftest import diff_case, run_real

check = Check('C10', ['the relative order of ancestors and descendants selected together is the order of the traversal'])

PROFILE = dict(def_=10, hyper=16, embed=30, tag=12, text=10, chain=.3, for_=2, if_=2, while_=.3, try_=1, assign=2, budget=34, maxdepth=6, hostile=.1, exprdepth=1, margins=.15, texttail=.35, mods=.06, null=3)

@check.monitor('documents', 2400, rule='random documents where bodies are embedded at various places: several times, in parts, at various depths, passed on to other hypertags; non-trivial: 2+ embeddings')
def documents(rng, i, rec):
    diff_case(rng, rec, PROFILE, lambda stats, script: stats.get(('embed',), 0) > 1)


def query(rng, forest):
    """Random chain of selectors starting with b: (expression, expected list of elements)."""
    expr, cur = 'b', list(forest)
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        x = rng.random()
        if x < .3:
            args, tag, attrs = T.constraint(rng)
            order = rng.choice(['preorder', 'postorder', None, None])
            expr += '.select(%s)' % ', '.join(args + (["order='%s'" % order] if order else []))
            cur = T.select(cur, tag, attrs, order or 'preorder')
        elif x < .5:
            tag = rng.choice(T.TAGS)
            expr += rng.choice(["['%s']", '[%%%s]']) % tag
            cur = T.select(cur, tag)
        elif x < .7:
            args, tag, attrs = T.constraint(rng)
            expr += '.skip(%s)' % ', '.join(args)
            cur = T.skip(cur, tag, attrs)
        elif x < .9:
            s = rng.choice([(None, 1, None), (1, None, None), (None, None, 2), (None, None, -1), (-1, None, None), (0, 2, None), (2, None, None)])
            expr += '[%s]' % ':'.join('' if v is None else str(v) for v in (s if s[2] is not None else s[:2]))
            cur = cur[slice(*s)]
        else: expr += '.copy()'
    x = rng.random()
    if x < .15 and cur:
        k = rng.choice([0, -1])
        return expr + '[%d]' % k, [cur[k]]
    if x < .22: return '[%s, None, b]' % expr, cur + list(forest)
    if x < .29: return '%s : reversed' % expr, cur[::-1]
    if x < .34: return '(%s).nodes' % expr, cur
    return expr, cur


@check.monitor('selection', 5000, rule='a random tree of elements is passed as a body; random chains of select/skip/index/slice operations are embedded (some several times, at different depths); the elements in the output are those chosen by an independent selector, in order, with their subtrees; the body itself is not changed; non-trivial: some but not all top-level elements selected')
def selection(rng, i, rec):
    forest = T.rand_forest(rng, rng.randint(1, 4), rng.choice([1, 2, 3]))
    lines, want = ['%H @b'], []
    nontrivial = False
    for k in range(rng.randint(1, 3)):
        expr, cur = query(rng, forest)
        if 0 < len(cur) and len(cur) != len(forest): nontrivial = True
        nest = rng.randint(0, 3)
        lines += ['  ' * (j + 1) + 'section' for j in range(nest)]
        if rng.random() < .3 and nest: lines[-1] += ' @ ' + expr
        else: lines.append('  ' * (nest + 1) + '@ ' + expr)
        e = [x.expected() for x in cur]
        for j in range(nest): e = [['section', [], e]]
        want += e
    if rng.random() < .5:
        lines.append('  @ b')
        want += [x.expected() for x in forest]
    use = rng.choice(['H', 'H:', '%K @c\n  H @ c\nK', '%K @c\n  H\n    @ c\nK', '. : H'])
    script = '\n'.join(lines + [use.replace('. : H', 'H')] + [e.script('  ') for e in forest])
    r = run_real(script)
    rec.event(len(want))
    if nontrivial: rec.sig(script)
    rec.show(script)
    if r.exc is not None: return rec.violation('exception', repr(r), script)
    try: got = htmltok.tree(r.out)
    except htmltok.BadHTML as ex: return rec.violation('malformed output', '%s: %r' % (ex, r.out), script)
    if clean(got) != clean(want): rec.violation('selected elements differ', 'expected %r\n     got %r\n  output %r' % (clean(want), clean(got), r.out), script)

def clean(tree):
    return [[x[0], [tuple(a) for a in x[1]], clean(x[2])] if len(x) == 3 and isinstance(x[1], list) else list(x) for x in tree]


BAD = ['None', '5', "'x'", '[1]', "{1: 2}", 'True', '[b, 1]', 'len', '(b, (b,))', "b.render() 'x'", '[b[0], "s"]']
EMPTY = ['[]', '()', "''", 'b["zz"]', 'b[9:]', '[None]', '[None, []]', '{}' , 'range(0)', 'b["zz"]?', 'b[99]?']

@check.monitor('embeddable', 600, rule='values of an expression that are not DOM nodes or iterables of them are refused (TypeErrorEx), empty ones are embedded as nothing; non-trivial: every case')
def embeddable(rng, i, rec):
    bad = rng.random() < .5
    e = rng.choice(BAD if bad else EMPTY)
    forms = ['  @ %s', '  u @ %s', '  u\n    @ %s', '  if 1\n    @ %s', '  try\n    @ %s\n  else\n    i | fallback', '  u: | head\n    @ %s']
    f = rng.randint(0, len(forms) - 1)
    script = '%H @b\n' + forms[f] % e + rng.choice(['', '\n  hr']) + '\nH\n  p | a\n  p | b'
    r = run_real(script)
    rec.event()
    rec.sig(script)
    rec.show(script)
    if bad:
        if f == 4:
            if r.exc is not None or '<i>fallback</i>' not in r.out: rec.violation('embedding', repr(r), script)
        elif r.error != 'TypeErrorEx': rec.violation('a value that is not a DOM was embedded', repr(r), script)
    else:
        if r.exc is not None: return rec.violation('exception', repr(r), script)
        hr = '<hr />' if script.find('\n  hr') > 0 else ''
        base = {0: '', 1: '<u></u>', 2: '<u></u>', 3: '', 4: '', 5: '<u>head</u>'}[f]
        if r.out.replace('\n', '') != base + hr: rec.violation('output', 'expected %r, got %r' % (base + hr, r.out), script)

regress.probes(check)
