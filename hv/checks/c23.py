"""Size and depth of documents: results by rule, orderly errors beyond the limits, time in proportion."""
import time
from hv.core import Check
from hv import regress
from hv.difftest import run_real, Outcome

check = Check('C23', ['nesting deeper than the interpreter takes may end with RecursionError or a syntax error', 'CPU times are compared with wide margins: only growth faster than about size ** 1.5 at large sizes is reported'])


def ind(lines, n=1): return [' ' * n + l if l else l for l in lines]

def deep(n, head, leaf): return '\n'.join([' ' * i + head for i in range(n)] + [' ' * n + leaf])

def nest(n, a, b, leaf, step=1):
    """Output of n nested elements, each laid out on lines of its own."""
    return '\n'.join([' ' * (i * step) + a for i in range(n)] + [' ' * (n * step) + leaf] + [' ' * (i * step) + b for i in reversed(range(n))])


# name: (script of size n, expected output, safe size, size beyond the limits, context)
FAMILIES = {
    # depth
    'tags': (lambda n: deep(n, 'p', '| x'), lambda n: nest(n, '<p>', '</p>', 'x'), 120, 2000),
    'tabs': (lambda n: '\n'.join(['\t' * i + 'p' for i in range(n)] + ['\t' * n + '| x']), lambda n: '\n'.join(['\t' * i + '<p>' for i in range(n)] + ['\t' * n + 'x'] + ['\t' * i + '</p>' for i in reversed(range(n))]), 120, 2000),
    'ifs': (lambda n: deep(n, 'if 1', '| x'), lambda n: 'x', 120, 2000),
    'tries': (lambda n: deep(n, 'try', '| x'), lambda n: 'x', 100, 2000),
    'fors': (lambda n: deep(n, 'for i in [1]', '| x'), lambda n: 'x', 100, 1500),
    'nulls': (lambda n: deep(n, '.', '| x'), lambda n: '\n' * n + ' ' * n + 'x', 100, 1500),
    'headlines': (lambda n: deep(n, 'p: | h', '| x'), lambda n: '\n'.join([' ' * i + '<p>h' for i in range(n)] + [' ' * n + 'x']) + '</p>' * n, 100, 1500),
    'chain': (lambda n: ' : '.join(['p'] * n) + ' | x', lambda n: '<p>' * n + 'x' + '</p>' * n, 300, 4000),
    'hyperbodies': (lambda n: '%H @b\n  p\n    @ b\n' + deep(n, 'H', '| x'), lambda n: nest(n, '<p>', '</p>', 'x', 2), 100, 700),
    'hyperchain': (lambda n: '%H @b\n  b @ b\n' + ' : '.join(['H'] * n) + ' | x', lambda n: '<b>' * n + 'x' + '</b>' * n, 100, 800),
    'definitions': (lambda n: '\n'.join(['%H0 @b\n  @ b'] + ['%%H%d @b\n  H%d\n    @ b' % (i, i - 1) for i in range(1, n)]) + '\nH%d | x' % (n - 1), lambda n: 'x', 80, 2500),
    'innerdefs': (lambda n: '\n'.join([' ' * i + '%%H%d' % i for i in range(n)] + [' ' * n + '| x'] + [' ' * (i + 1) + 'H%d' % (i + 1) for i in reversed(range(n - 1))]) + '\nH0', lambda n: 'x', 40, 400),
    'parens': (lambda n: '| {' + '(' * n + '1' + ')' * n + '}', lambda n: '1', 40, 1500),
    'lists': (lambda n: '| {' + '[' * n + '1' + ']' * n + '}', lambda n: '[' * n + '1' + ']' * n, 60, 1500),
    'tuples': (lambda n: '$x = ' + '(' * n + '1' + ',)' * n + '\n| {x}', lambda n: '(' * n + '1' + ',)' * n, 60, 1500),
    'calls': (lambda n: '| {' + 'str(' * n + '1' + ')' * n + '}', lambda n: '1', 60, 3000),
    'strings': (lambda n: '| {' + 'str("{' * n + '1' + '}")' * n + '}', lambda n: '1', 40, 1000),
    'embedded tags': (lambda n: '$x = ' + "%b(" * n + "'x'" + ')' * n + '\n/ $x', lambda n: '<b>' * n + 'x' + '</b>' * n, 40, 1500),
    # length of expressions
    'sum': (lambda n: '| {' + '+'.join(['1'] * n) + '}', lambda n: str(n), 2000, 0),
    'product': (lambda n: '| {' + '*'.join(['2'] * n) + '}', lambda n: str(2 ** n), 1000, 0),
    'power': (lambda n: '| {' + '**'.join(['1'] * n) + '}', lambda n: '1', 1000, 0),
    'and': (lambda n: '| {' + ' and '.join(['1'] * n) + ' and 7}', lambda n: '7', 1000, 0),
    'or': (lambda n: '| {' + ' or '.join(['0'] * n) + ' or 7}', lambda n: '7', 1000, 0),
    'comparison': (lambda n: '| {' + ' < '.join(str(k) for k in range(n + 1)) + '}', lambda n: 'True', 1000, 0),
    'nots': (lambda n: '| {' + 'not ' * n + '1}', lambda n: str(n % 2 == 0), 500, 0),
    'ternaries': (lambda n: '| {' + '1 if 0 else ' * n + '7}', lambda n: '7', 200, 6000),
    'pipes': (lambda n: "| {'x'" + ' : upper' * n + '}', lambda n: 'X', 300, 0),
    'concat': (lambda n: '| {' + "'ab' " * n + "''}", lambda n: 'ab' * n, 1000, 0),
    'slices': (lambda n: '$a = [1]\n| {a' + '[:]' * n + '}', lambda n: '[1]', 400, 0),
    'members': (lambda n: "$a = 'q'\n| {a" + '.upper()' * n + '}', lambda n: 'Q', 300, 0),
    'list': (lambda n: '| {sum([' + ', '.join(['1'] * n) + '])}', lambda n: str(n), 2000, 0),
    'dict': (lambda n: '| {len(dict([' + ', '.join('(%d, 1)' % k for k in range(n)) + ']))}', lambda n: str(n), 1000, 0),
    'arguments': (lambda n: '| {max(0, ' + ', '.join(str(k) for k in range(n)) + ')}', lambda n: str(n - 1), 1000, 0),
    'string': (lambda n: "| {'" + 'ab' * n + "'}", lambda n: 'ab' * n, 20000, 0),
    'number': (lambda n: '| {' + '7' * n + '}', lambda n: '7' * n, 1000, 0),
    # width of documents
    'lines': (lambda n: '\n'.join('| %d' % i for i in range(n)), lambda n: '\n'.join(str(i) for i in range(n)), 1500, 0),
    'elements': (lambda n: '\n'.join('p id=%d | x' % i for i in range(n)), lambda n: '\n'.join('<p id="%d">x</p>' % i for i in range(n)), 600, 0),
    'text': (lambda n: '| ' + 'ab &$$ ' * n + '.', lambda n: 'ab &amp;$ ' * n + '.', 20000, 0),
    'longtext': (lambda n: '| a\n' + '\n'.join('   b%d' % i for i in range(n)), lambda n: 'a\n' + '\n'.join(' b%d' % i for i in range(n)), 1500, 0),
    'verbatim': (lambda n: 'p ! a\n' + '\n'.join('    $x {y} %d' % i for i in range(n)), lambda n: '<p>a\n' + '\n'.join('$x {y} %d' % i for i in range(n)) + '</p>', 1500, 0),
    'expressions': (lambda n: '$x = 5\n| ' + '{x}$x ' * n + '.', lambda n: '55 ' * n + '.', 1500, 0),
    'attributes': (lambda n: 'p ' + ' '.join('a%d=%d' % (i, i) for i in range(n)), lambda n: '<p ' + ' '.join('a%d="%d"' % (i, i) for i in range(n)) + '></p>', 800, 0),
    'classes': (lambda n: 'p ' + ' '.join('.c%d' % i for i in range(n)), lambda n: '<p class="' + ' '.join('c%d' % i for i in range(n)) + '"></p>', 600, 0),
    'parameters': (lambda n: '%H ' + ' '.join('a%d=%d' % (i, i) for i in range(n)) + '\n  | {a0 + a%d}\nH a%d=5' % (n - 1, n - 1), lambda n: '5' if n > 1 else '10', 400, 0),
    'variables': (lambda n: '\n'.join('$v%d = %d' % (i, i) for i in range(n)) + '\n| {v0 + v%d}' % (n - 1), lambda n: str(n - 1), 800, 0),
    'increments': (lambda n: '$v = 0\n' + '$v += 1\n' * n + '| $v', lambda n: str(n), 800, 0),
    'hypertags': (lambda n: '\n'.join('%%H%d x\n  | {x}' % i for i in range(n)) + '\n' + '\n'.join('H%d %d' % (i, i) for i in range(n)), lambda n: '\n'.join(str(i) for i in range(n)), 300, 0),
    'elifs': (lambda n: '$x = %d\nif x == -1\n  | x\n' % (n - 1) + '\n'.join('elif x == %d\n  | %d' % (i, i) for i in range(n)), lambda n: str(n - 1), 500, 0),
    'elses': (lambda n: 'try\n  | {1/0}\n' + 'else\n  | {1/0}\n' * n + 'else\n  | z', lambda n: 'z', 400, 0),
    'blank': (lambda n: '| a' + '\n' * n + '| b', lambda n: 'a' + '\n' * n + 'b', 3000, 0),
    'comments': (lambda n: '| a\n' + '-- c\n' * n + '| b', lambda n: 'a\nb', 1000, 0),
    'wide body': (lambda n: 'p\n' + '\n'.join('  i | %d' % i for i in range(n)), lambda n: '<p>\n' + '\n'.join('  <i>%d</i>' % i for i in range(n)) + '\n</p>', 600, 0),
    'stairs': (lambda n: '\n'.join(' ' * (i % 7) + 'p' for i in range(n)), None, 800, 0),
    # work during translation
    'for': (lambda n: 'for i in range(%d)\n  p | $i' % n, lambda n: '\n'.join('<p>%d</p>' % i for i in range(n)), 4000, 0),
    'while': (lambda n: '$i = %d\n$s = 0\nwhile i > 0\n  $s += i\n  $i -= 1\n| $s' % n, lambda n: str(n * (n + 1) // 2), 4000, 0),
    'repeated body': (lambda n: '%%H @b\n  for i in range(%d)\n    @ b\nH\n  b | x' % n, lambda n: '\n'.join(['<b>x</b>'] * n), 2000, 0),
    'calls in loop': (lambda n: '%%H x\n  | <{x}>\nfor i in range(%d)\n  H {i}' % n, lambda n: '\n'.join('&lt;%d&gt;' % i for i in range(n)), 1500, 0),
    'select': (lambda n: "%%H @b\n  @ b.select('i')\nH\n  for i in range(%d)\n    i | x\n    p | y" % n, lambda n: '\n'.join(['<i>x</i>'] * n), 1000, 0),
    'product of loops': (lambda n: 'for i in range(%d)\n  for j in range(10)\n    | $i$j' % n, lambda n: '\n'.join('%d%d' % (i, j) for i in range(n) for j in range(10)), 300, 0),
}

def stairs(n):
    """Elements of growing depth, starting again at 0."""
    out, open_ = [], 0
    for i in range(n):
        d = i % 7
        last = i == n - 1 or (i + 1) % 7 == 0
        out.append(' ' * d + ('<p></p>' if last else '<p>'))
        if last: out += [' ' * k + '</p>' for k in reversed(range(d))]
    return '\n'.join(out)

FAMILIES['stairs'] = FAMILIES['stairs'][:1] + (stairs,) + FAMILIES['stairs'][2:]
NAMES = list(FAMILIES)
SMALL = ('$x = 2\nfor i in [1, x]\n  p.a : b title="<" | $i & {x}\n%H @b\n  @ b\nH | t', '<p class="a"><b title="&lt;">1 &amp; 2</b></p>\n<p class="a"><b title="&lt;">2 &amp; 2</b></p>\nt')


def verdict(rec, name, n, script, expected, r, limit_ok):
    if r.exc is not None:
        if limit_ok and r.error in ('RecursionError', 'SyntaxErrorEx', 'MemoryError'): return rec.stat('limit')
        rec.violation('exception', '%s of size %d: %.300r' % (name, n, r), script if len(script) < 3000 else None)
        return
    rec.stat('right')
    if r.out != expected:
        k = next((k for k in range(min(len(expected), len(r.out))) if expected[k] != r.out[k]), min(len(expected), len(r.out)))
        rec.violation('output', '%s of size %d differs at character %d: expected ...%r\n     got ...%r' % (name, n, k, expected[max(0, k - 40):k + 60], r.out[max(0, k - 40):k + 60]), script if len(script) < 3000 else None)


@check.monitor('sizes', 700, 12000, rule='scripts of %d families (depth of tags, control blocks, hypertags, expressions; length of texts, expressions, lists; number of blocks, variables, attributes, iterations) at a random size up to a safe bound: the output given by the rule of the family; non-trivial: distinct family and size' % len(NAMES))
def sizes(rng, i, rec):
    name = NAMES[i % len(NAMES)]
    make, rule, safe, _ = FAMILIES[name]
    x = rng.random()
    n = rng.randint(1, 12) if x < .3 else rng.randint(1, safe) if x < .8 else int(safe * rng.uniform(.7, 1))
    script = make(n)
    r = run_real(script)
    rec.event()
    rec.sig(name, n)
    rec.stat('size %d' % (10 ** (len(str(n)) - 1)))
    if n < 20: rec.show(script)
    verdict(rec, name, n, script, rule(n), r, False)


def beyond_case(name, n, where, rec):
    """Executed in a process of its own, without JIT: deep recursion in compiled code may break PyPy itself."""
    from hypertag import HyperHTML
    make, rule, safe, top = FAMILIES[name]
    rt = HyperHTML()
    script = make(n)
    if where and '%' not in script and '\t' not in script:
        script = 'try\n' + '\n'.join('  ' + l for l in script.split('\n')) + '\nelse\n  | other'
        r = run_real(script, runtime=rt)
        if r.out == 'other': rec.stat('caught')
        else: verdict(rec, name, n, script, rule(n), r, True)
    else:
        r = run_real(script, runtime=rt)
        verdict(rec, name, n, script, rule(n), r, True)
    for k, t in enumerate((rt, HyperHTML())):
        s = run_real(SMALL[0], runtime=t)
        if s.out != SMALL[1]: rec.violation('rendering after an overflow', '%s of size %d, %s runtime: %r' % (name, n, ['same', 'new'][k], s), SMALL[0])

CHILD = """
import sys, json
sys.path[:0] = %r
from hv.core import Rec
from hv.checks import c23
rec = Rec()
c23.beyond_case(%r, %r, %r, rec)
print('RESULT ' + json.dumps([rec.stats, rec.violations]))
"""

@check.monitor('beyond', 38, 400, rule='depth far above what the interpreter takes, in a process of its own: RecursionError or syntax error or the right output, and afterwards the same and a new runtime render a small document properly; non-trivial: distinct family and size')
def beyond(rng, i, rec):
    import json, subprocess, sys
    names = [n for n in NAMES if FAMILIES[n][3]]
    name = names[i % len(names)]
    n = int(FAMILIES[name][3] * rng.uniform(.5, 1.2))
    where = rng.choice(['', '', 'try'])
    rec.event(3)
    rec.sig(name, n)
    jit = ['--jit', 'off'] if 'PyPy' in sys.version else []
    for attempt in range(3):
        try: p = subprocess.run([sys.executable, '-B'] + jit + ['-c', CHILD % (sys.path[:2], name, n, where)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240)
        except subprocess.TimeoutExpired: return rec.stat('slow')
        line = [l for l in p.stdout.decode('utf-8', 'replace').splitlines() if l.startswith('RESULT ')]
        if line:
            stats, violations = json.loads(line[0][7:])
            for k, v in stats.items(): rec.stat(k, v)
            rec.violations += violations
            return
        rec.stat('died')
    rec.violation('crash', '%s of size %d, status %s: %s' % (name, n, p.returncode, p.stderr.decode('utf-8', 'replace')[-1500:]))


# random nesting: every level is of a different kind

def wrap(rng, k, lines, out, i, control):
    step = rng.choice([1, 1, 2, 4])
    body, shifted = ind(lines, step), [' ' * step + o if o else o for o in out]
    if k == 'p': return ['p'] + body, ['<p>'] + shifted + ['</p>']
    if k == 'attr': return ['div .c%d id={%d}' % (i, i)] + body, ['<div class="c%d" id="%d">' % (i, i)] + shifted + ['</div>']
    if k == 'chain': return ['ul : li'] + body, ['<ul><li>'] + shifted + ['</li></ul>']
    if k == 'head': return ['p: / h'] + body, ['<p>h'] + shifted[:-1] + [shifted[-1] + '</p>']
    if k == 'if': return ['if %d == %d' % (i, i)] + body + ['else', '  p | no'], out
    if k == 'for': return ['for z%d in [0]' % i] + body, out
    if k == 'try': return ['try', '  | a', '  | {1/0}', 'else'] + body, out
    if k == 'def': return ['%%H%d' % i] + body + ['H%d' % i], out
    if k == 'body': return ['%%B%d @b' % i, '  @ b', 'B%d' % i] + body, out
    if k == 'wrap': return ['%%W%d @b' % i, '  div', '    @ b', 'W%d' % i] + body, ['<div>'] + ['  ' + o if o else o for o in out] + ['</div>']
    if k == 'before': return ['| t%d' % i, ''] + lines, ['t%d' % i, ''] + out
    if k == 'after': return lines + ['i | t%d' % i], out + ['<i>t%d</i>' % i]
    if k == 'upper': return ['dedent'] + body, None
    return lines, out

@check.monitor('nested', 220, 5000, rule='up to 60 levels of random kinds (tags, chains, headlines, control blocks, hypertags defined inside, bodies passed on, siblings) around a leaf: output predicted level by level; non-trivial: distinct script')
def nested(rng, i, rec):
    n = rng.choice([8, 20, 40, 60])
    kinds = ['p', 'attr', 'chain', 'head', 'if', 'for', 'try', 'def', 'body', 'wrap', 'before', 'after']
    favourite = rng.sample(kinds, rng.randint(2, len(kinds)))
    # kinds from the outermost: definitions are not allowed inside control blocks
    seq, control = [], False
    for k in range(n):
        c = rng.choice(favourite)
        if c in ('def', 'body', 'wrap') and control: c = 'p'
        if c in ('if', 'for', 'try'):
            if k < n * .6 and rng.random() < .8: c = 'attr'
            else: control = True
        seq.append(c)
    lines, out = ['| leaf {1 + 1}'], ['leaf 2']
    for k in reversed(range(n)):
        lines, out = wrap(rng, seq[k], lines, out, k, control)
    script = '\n'.join(lines)
    r = run_real(script)
    rec.event()
    rec.sig(script)
    rec.stat('levels %d' % n)
    if n < 10: rec.show(script)
    verdict(rec, 'nested', n, script, '\n'.join(out), r, False)


TIMED = {n: s for n, s in dict(tags=30, chain=60, definitions=12, parens=9, lists=10, calls=12, strings=8, sum=400, comparison=300, ternaries=60, pipes=100, concat=300, slices=120, members=120, list=400, string=6000, lines=200, elements=80, text=3000, longtext=200,
         expressions=150, attributes=100, classes=80, variables=80, increments=80, hypertags=40, elifs=60, elses=60, blank=500, comments=150, stairs=100, ifs=30, hyperbodies=16, hyperchain=30).items()}
TIMED.update({'for': 600, 'while': 600, 'repeated body': 300, 'calls in loop': 250, 'select': 150, 'wide body': 80, 'embedded tags': 10})

@check.monitor('growth', len(TIMED), len(TIMED) * 6, rule='CPU time of a family at 8 times the size is at most 40 times larger (plus 1 s); families in which the output itself grows with the square of the size are measured per character of script and output; non-trivial: distinct family')
def growth(rng, i, rec):
    name = list(TIMED)[i % len(TIMED)]
    make, rule, _, _ = FAMILIES[name]
    n = TIMED[name]
    def measure(n):
        script = make(n)
        t = time.process_time()
        r = run_real(script)
        t = time.process_time() - t
        if r.exc is not None: return None, 0
        return t, len(script) + len(r.out)
    measure(n // 3 + 1)
    measure(n)
    t1, s1 = min(measure(n) for _ in range(3)) if measure(n)[0] is not None else (None, 0)
    if t1 is None: return rec.violation('exception', '%s of size %d' % (name, n))
    t2, s2 = measure(8 * n)
    if t2 is None: return rec.stat('limit')
    if t2 > 1:
        t3, s3 = measure(8 * n)
        if t3 is not None: t2 = min(t2, t3)
    rec.event(5)
    rec.sig(name)
    factor = max(1, s2 / s1 / 8)
    rec.stat('%s %.0f -> %.0f ms' % (name, t1 * 1000, t2 * 1000))
    if t2 > 40 * factor * t1 + 1: rec.violation('time', '%s: %.3f s at size %d, %.3f s at size %d' % (name, t1, n, t2, 8 * n))


@check.monitor('dom', 60, 1200, rule='deep and wide DOMs built by the classes or by translation: rendering, copies, walking, selection, tree agree with the rule; non-trivial: distinct shape')
def dom(rng, i, rec):
    from hypertag import DOM, Tag, Markup, HyperHTML
    p, q = Markup('p'), Markup('q')
    depth, width = rng.choice([(100, 1), (60, 2), (1, 3000), (2, 1000), (10, 100), (30, 30), (150, 0)])
    node = DOM.Text('t')
    total, texts = 0, 1
    out = 't'
    for d in range(depth):
        node = DOM.Node(DOM(node, *[DOM.Text('s%d' % w) for w in range(width)]), tag=(p if d % 2 else q), kwattrs={'id': d})
        out = '<%s id="%d">%s%s</%s>' % (('p' if d % 2 else 'q'), d, out, ''.join('s%d' % w for w in range(width)), 'p' if d % 2 else 'q')
        total += 1
        texts += width
    root = DOM(node)
    rec.event(6)
    rec.sig(depth, width)
    rec.stat('%d x %d' % (depth, width))
    if root.render() != out: return rec.violation('render', '%d x %d: %r' % (depth, width, root.render()[:200]))
    if root.copy().render() != out: return rec.violation('copy', '%d x %d' % (depth, width))
    pre, post = list(root.walk()), list(root.walk(order='postorder'))
    if len(pre) != total + texts or len(post) != len(pre) or {id(n) for n in pre} != {id(n) for n in post}: rec.violation('walk', '%d %d, expected %d' % (len(pre), len(post), total + texts))
    if pre[0] is not node or post[-1] is not node: rec.violation('order', '')
    sel = list(root.select('p'))
    if len(sel) != depth // 2: rec.violation('select', '%d' % len(sel))
    if len(list(root.select(id=depth - 1))) != 1: rec.violation('select by attribute', '')
    if len(root.tree().splitlines()) != total + texts: rec.violation('tree', '%d lines' % len(root.tree().splitlines()))
    if root.skip('p').render() != ('' if depth % 2 == 0 else out[:out.index('<p') if '<p' in out else len(out)] + (''.join('s%d' % w for w in range(width)) + '</q>' if '<p' in out else '')): rec.violation('skip', '%r' % root.skip('p').render()[:200])

regress.probes(check)
