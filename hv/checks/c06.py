"""Assignments and scopes of variables."""
from hv.core import Check
from hv import regress, doc as D, expr as X, gen as G
from hv.difftest import diff_case, run_real
from hv.stdmodel import Recorder

check = Check('C06', ['a variable assigned in a branch of a control block that was not executed is unbound: reading it must fail (UnboundLocalError), which Python also does',
                      'variables assigned before a failed unpacking are not inspected'])

PROFILE = dict(assign=18, text=8, tag=12, def_=5, hyper=8, for_=4, while_=1.5, try_=2, null=2, expr=4, probes=True, exprdepth=2, budget=34, maxdepth=5, embedexpr=1, hostile=.05, attrs=.4, margins=.05, comments=0, mods=0, texttail=.1, stdtags=.02)

def wild(g):
    """A document where a name may be read also outside of the scope where it was assigned."""
    blocks = g.document()
    names = {}
    def note(bs, inside):
        for b in bs:
            if isinstance(b, D.Assign):
                for n in flat(b.targets): names.setdefault(n, set()).add(inside)
            if isinstance(b, (D.For, D.While, D.If, D.Try)):
                if isinstance(b, D.For):
                    for n in flat(b.targets): names.setdefault(n, set()).add('ctl')
                for s in D.sub_bodies(b): note(s, 'ctl')
            elif isinstance(b, D.Short): note(D.sub_bodies(b), 'ctl')
            elif isinstance(b, D.Def):
                for n, _ in b.params: names.setdefault(n, set()).add('def')
                note(b.body, 'def')
            else:
                for s in D.sub_bodies(b): note(s, inside if inside == 'ctl' else 'frame')
    note(blocks, 'top')
    ok = sorted(n for n, where in names.items() if 'ctl' not in where)
    if ok and g.rng.random() < .6:
        n = g.rng.choice(ok)
        spots = [bs for bs in lists(blocks)]
        bs = g.rng.choice(spots)
        # context blocks stay first
        k = g.rng.randint(1, len(bs)) if bs is blocks and len(bs) else g.rng.randint(0, len(bs))
        new = D.Text(kind='|', lines=[('', ['read ', ('{', ('var', n), None)])])
        if k == 0 and bs: new.margin, bs[0].margin = 0, 0
        bs.insert(k, new)
    return blocks

def lists(blocks):
    yield blocks
    for b in blocks:
        if isinstance(b, (D.Def, D.If, D.For, D.While, D.Try, D.Short)): continue           # an undefined name is an error even if it's not reached
        for s in D.sub_bodies(b):
            if isinstance(s, list): yield from lists(s)

def flat(t):
    if isinstance(t, str): return [t]
    out = []
    for x in t: out += flat(x)
    return out


@check.monitor('documents', 2600, rule='random documents with assignments (plain, unpacking, in-place) at all levels of tags, hypertags and control blocks; a name may be read outside of its scope, where it must be an undefined name or the outer variable; all values are logged; non-trivial: 3+ assignments')
def documents(rng, i, rec):
    out = rng.random() < .5
    # an undefined name is reported before any other error, even if it's not reached
    diff_case(rng, rec, PROFILE, lambda stats, script: stats.get(('block', 'Assign'), 0) > 2, make=wild if out else None, accept=(lambda m, it: m.exc is None or m.error == 'NameError') if out else None)


def rand_targets(rng, fresh, depth=2):
    n = rng.choice([1, 2, 2, 3, 4])
    return [fresh() if depth == 0 or rng.random() < .75 else rand_targets(rng, fresh, depth - 1) for _ in range(n)]

def src(t, top=True):
    s = ', '.join(x if isinstance(x, str) else '(' + src(x, False) + ')' for x in t)
    return s + (',' if len(t) == 1 else '')

def rand_value(rng, t, bad):
    """A value that fits the targets, or not."""
    n = len(t)
    if bad and rng.random() < .4: n += rng.choice([-1, 1, 2])
    items = []
    for k in range(max(n, 0)):
        x = t[k] if k < len(t) else 'x'
        if isinstance(x, str): items.append(rng.choice([rng.randint(0, 99), 'str', None, 2.5, [1], (1, 2), '']))
        else: items.append(rand_value(rng, x, bad))
    y = rng.random()
    if bad and y < .1: return rng.choice([None, 5, 'a', object])
    if y < .35: return items
    if y < .6: return tuple(items)
    if y < .7: return ('GEN', items)
    if y < .78: return {('k%d' % j): v for j, v in enumerate(items)}
    if y < .84: return ''.join('abcdefg'[j % 7] for j in range(len(items))) if all(isinstance(x, str) for x in t) else items
    if y < .88: return range(len(items)) if all(isinstance(x, str) for x in t) else tuple(items)
    return items

def realize(v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'GEN': return (realize(x) for x in v[1])
    if isinstance(v, list): return [realize(x) for x in v]
    if isinstance(v, tuple): return tuple(realize(x) for x in v)
    return v

def is_plain(v):
    if isinstance(v, tuple) and v[:1] == ('GEN',): return False
    if isinstance(v, (list, tuple)): return all(is_plain(x) for x in v)
    if isinstance(v, dict): return all(is_plain(x) for x in v.values())
    return isinstance(v, (int, float, str, type(None)))


@check.monitor('unpack', 5000, rule='random nested targets and values of various kinds (lists, tuples, strings, dicts, ranges, generators, non-iterables, of a right and a wrong length), in assignments and in "for": variables get the same values as in Python, or the same class of exception is raised; non-trivial: 2+ targets')
def unpack(rng, i, rec):
    count = [0]
    def fresh():
        count[0] += 1
        return 'v%d' % count[0] if rng.random() < .95 or count[0] < 3 else 'v1'
    t = rand_targets(rng, fresh)
    v = rand_value(rng, t, rng.random() < .25)
    names = sorted(set(flat(t)))
    loop = rng.random() < .3
    code = 'for %s in seq:\n    P(%s)' % (src(t), ', '.join(['0', '[%s]' % ', '.join(names)])) if loop else '%s = val\nP(0, [%s])' % (src(t), ', '.join(names))
    vs = [v] + ([rand_value(rng, t, False)] if loop else [])
    a, b = Recorder(), Recorder()
    want = None
    try: exec(code, dict(val=realize(v), seq=[realize(x) for x in vs], P=a.probes()['P']))
    except Exception as ex: want = type(ex).__name__
    probe = '$ P(0, [%s])' % ', '.join(names)
    lit = is_plain(v) and type(v) in (list, tuple, int, str) and not loop and rng.random() < .4
    text = repr(v)
    if lit and isinstance(v, tuple) and len(v) > 1 and rng.random() < .5: text = text[1:-1]
    if loop: script = 'context $seq, $P\nfor %s in seq\n  %s' % (src(t), probe)
    elif lit: script = 'context $P\n$%s%s = %s\n%s' % (rng.choice(['', ' ']), src(t), text, probe)
    else: script = 'context $val, $P\n$ %s = val\n%s' % (src(t), probe)
    wrap = rng.randint(0, 3)
    if wrap == 1:
        head, rest = script.split('\n', 1)
        script = head + '\np\n  div\n    ' + rest.replace('\n', '\n    ')
    if wrap == 2:
        head, rest = script.split('\n', 1)
        script = head + '\n%H z\n  ' + rest.replace('\n', '\n  ') + '\nH 1'
    ctx = dict(P=b.probes()['P'])
    if loop: ctx['seq'] = [realize(x) for x in vs]
    elif not lit: ctx['val'] = realize(v)
    r = run_real(script, context=ctx)
    rec.event(len(names))
    if len(names) > 1: rec.sig(src(t), repr(v), loop)
    rec.stat(want or 'ok')
    rec.show(script)
    if want is None:
        if r.exc is not None: return rec.violation('exception', '%r for val=%r' % (r, vs), script)
    else:
        mro = [c.__name__ for c in type(r.exc).__mro__] if r.exc is not None else []
        # with two faults at once, either of them may be reported
        if want not in mro and not {'ValueError', 'TypeError'} & set(mro): return rec.violation('exception differs', 'expected %s, got %r for val=%r' % (want, r, vs), script)
    if a.log != b.log: rec.violation('assigned values differ', 'expected %r\n     got %r' % (a.log, b.log), script)


OPS = ['+', '-', '*', '/', '//', '%', '<<', '>>', '&', '|', '^']

@check.monitor('in-place', 2000, rule='in-place assignments with all operators over values of various types, in the same or a narrower scope: the result is the one of the operator, the outer variable is not modified, the previous value object is not modified either when it is immutable; non-trivial: every case')
def in_place(rng, i, rec):
    op = rng.choice(OPS)
    x = rng.choice([7, -5, 12, 2.5, 'ab', [1, 2], (3,), True, {1, 2}, 0])
    y = rng.choice([2, 3, 1, 5, 4.0, 'c', [9], (8, 8), {2}, 0])
    from hv.expr import BIN_FUN
    try: want = ('v', BIN_FUN[op](x, y))
    except Exception as ex: want = ('e', type(ex).__name__)
    log = []
    where = rng.randint(0, 4)
    sp = rng.choice([' ', '', '  '])
    line = '$%sx%s%s=%sy' % (rng.choice(['', ' ']), sp, op, sp)
    body = {0: '%s\n$ P(1, x)', 1: 'p\n  %s\n  $ P(1, x)\n$ P(2, x)', 2: '%%H\n  %s\n  $ P(1, x)\nH\n$ P(2, x)', 3: 'if 1\n  %s\n$ P(1, x)', 4: 'div\n  p\n    if 1\n      %s\n      $ P(1, x)\n  $ P(2, x)\n$ P(2, x)'}[where] % line
    script = 'context $x as x0, $y, $P\n$x = x0\n' + body
    import copy
    r = run_real(script, context=dict(x=copy.copy(x), y=y, P=lambda k, v: log.append((k, type(v).__name__, repr(v)))))
    rec.event(max(1, len(log)))
    rec.sig(op, repr(x), repr(y), where)
    rec.show(script)
    if want[0] == 'e':
        if r.exc is None or want[1] not in [c.__name__ for c in type(r.exc).__mro__]: return rec.violation('exception differs', 'expected %s, got %r for x=%r y=%r' % (want[1], r, x, y), script)
        return
    if r.exc is not None: return rec.violation('exception', '%r for x=%r y=%r' % (r, x, y), script)
    new = (1, type(want[1]).__name__, repr(want[1]))
    old = (2, type(x).__name__, repr(x))
    exp = [new] + [old] * (len(log) - 1)
    if not log or log != exp: rec.violation('values differ', 'expected %r\n     got %r' % (exp, log), script)


@check.monitor('branches', 2400, rule='a variable assigned in some branches of a control block is read after the block, or in another branch: it has the last assigned value, or is reported as unbound; non-trivial: every case')
def branches(rng, i, rec):
    lines, val = [], {}
    ind = rng.choice(['', '', '  ', '    '])
    names = ['x', 'y']
    body = []
    n = 0
    def probe(pre): body.append(pre + '$ P(x, y)' if False else pre + '$ P("%s", %s)' % ((rng.choice(names),) * 2))
    log_want = []
    err = None
    def assign(pre, active, name=None):
        nonlocal n
        n += 1
        name = name or rng.choice(names)
        body.append('%s$%s = %d' % (pre, name, n))
        if active: val[name] = n
    def read(pre, active):
        nonlocal err
        name = rng.choice(names)
        if name not in declared: return
        body.append('%s$ P("%s", %s)' % (pre, name, name))
        if active and not err:
            if name in val: log_want.append((name, val[name]))
            else: err = 'UnboundLocalError'
    declared = set()
    if rng.random() < .5:
        assign('', True, 'x')
        declared.add('x')
    def block(pre, active, depth):
        """One control block."""
        nonlocal n
        if err: active = False
        kind = rng.choice(['if', 'if', 'for', 'while', 'try'] if depth < 2 else ['if', 'for'])
        if kind == 'if':
            done = False
            for k in range(rng.choice([1, 2, 3])):
                c = rng.random() < .45
                body.append(pre + ('if ' if k == 0 else 'elif ') + str(c))
                inner(pre + '  ', active and c and not done and not err, depth)
                done = done or c
            if rng.random() < .5:
                body.append(pre + 'else')
                inner(pre + '  ', active and not done and not err, depth)
        elif kind == 'for':
            k = rng.choice([0, 1])
            name = rng.choice(names)
            n += 1
            body.append('%sfor %s in [%s]' % (pre, name, n if k else ''))
            if active and k and not err: val[name] = n
            declared.add(name)
            inner(pre + '  ', active and k and not err, depth)
            if rng.random() < .4:
                body.append(pre + 'else')
                inner(pre + '  ', active and not k and not err, depth)
        elif kind == 'while':
            k = rng.choice([0, 1])
            n += 1
            w = 'w%d' % n
            body.append('%s$%s = %d' % (pre, w, k))
            body.append('%swhile %s' % (pre, w))
            inner(pre + '  ', active and k and not err, depth)
            body.append(pre + '  $%s = 0' % w)
            if rng.random() < .4:
                body.append(pre + 'else')
                inner(pre + '  ', active and not k and not err, depth)
        else:
            # variables are assigned, then the branch fails
            body.append(pre + 'try')
            fails = rng.random() < .5
            inner_plain(pre + '  ', active and not err)
            if fails: body.append(pre + '  $ 1/0')
            body.append(pre + 'else')
            inner_plain(pre + '  ', active and fails and not err)
    def inner_plain(pre, active):
        new = set()
        for _ in range(rng.randint(1, 2)):
            name = rng.choice(names)
            assign(pre, active, name)
            new.add(name)
        declared.update(new)
    def inner(pre, active, depth):
        k = 0
        while k == 0 or rng.random() < .5:
            x = rng.random()
            if x < .55:
                name = rng.choice(names)
                assign(pre, active and not err, name)
                declared.add(name)
            elif x < .75 and depth < 2: block(pre, active and not err, depth + 1)
            else: 
                before = len(body)
                read(pre, active)
                if len(body) == before: body.append(pre + 'pass')
            k += 1
    for _ in range(rng.choice([1, 1, 2])): block('', True, 0)
    read('', True)
    read('', True)
    log = []
    if ind: script = 'context $P\np\n' + '\n'.join(ind + l for l in body)
    else: script = 'context $P\n' + '\n'.join(body)
    r = run_real(script, context=dict(P=lambda k, v: log.append((k, v))))
    rec.event(1 + len(log))
    rec.sig(script)
    rec.stat(err or 'ok')
    rec.show(script)
    if err:
        if r.exc is None or err not in [c.__name__ for c in type(r.exc).__mro__]: return rec.violation('unbound variable was read', 'got %r' % r, script)
    elif r.exc is not None: return rec.violation('exception', repr(r), script)
    if log != log_want: rec.violation('values differ', 'expected %r\n     got %r' % (log_want, log), script)

regress.probes(check)


@check.monitor('shadowing', 1500, rule='in nested tags and hypertag definitions, statements rebind a name to a value computed from the same name of the outer scope (assignments, unpacking, in-place, loops over the name, attributes with defaults); each scope reads its own value, and the outer value after it; non-trivial: distinct script with 2+ rebindings')
def shadowing(rng, i, rec):
    names = ['x', 'y'][:rng.choice([1, 1, 2])]
    lines, want = [], []
    count = [0, 0]
    def read(pre, env):
        n = rng.choice(names)
        lines.append('%s$ P("%s", %s)' % (pre, n, n))
        want.append((n, env[n]))
    def bind(pre, env):
        """A statement that rebinds names; executed once."""
        count[0] += 1
        count[1] += 1
        c = '%s%d' % (rng.choice('abc'), count[1])
        n = rng.choice(names)
        m = rng.choice(names)
        kind = rng.choice(['=', '=', '+=', 'unpack', 'for', 'for', 'for2', 'self', 'swap'])
        if kind == '=':
            lines.append('%s$%s = %s + "%s"' % (pre, n, m, c)); env[n] = env[m] + c
        elif kind == '+=':
            lines.append('%s$%s += "%s"' % (pre, n, c)); env[n] += c
        elif kind == 'self':
            lines.append('%s$%s = %s' % (pre, n, n))
        elif kind == 'unpack':
            lines.append('%s$%s, z = [%s + "%s", %s]' % (pre, n, m, c, n)); env[n] = env[m] + c
        elif kind == 'swap' and len(names) == 2:
            lines.append('%s$x, y = y, x' % pre); env['x'], env['y'] = env['y'], env['x']
        elif kind == 'for2':
            lines.append('%sfor k, %s in [(1, %s + "%s")]' % (pre, n, m, c)); env[n] = env[m] + c
            if rng.random() < .6: read(pre + '  ', env)
        else:
            k = rng.choice([1, 2, 3])
            v = env[m]
            items = ['%s + "%s%d"' % (m, c, j) for j in range(k)]
            lines.append('%sfor %s in [%s]' % (pre, n, ', '.join(items)))
            body = rng.random() < .7
            if body: lines.append('%s  $ P("%s", %s)' % (pre, n, n))
            for j in range(k):
                env[n] = '%s%s%d' % (v, c, j)
                if body: want.append((n, env[n]))
    def scope(pre, env, depth, ctl=False):
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < .45: bind(pre, env)
            elif r < .7 or depth >= 3: read(pre, env)
            else:
                e = dict(env)
                kind = rng.choice(['p', 'div : b', '.', 'for', 'H' if not ctl else 'p'])
                if kind == 'H':
                    # a definition is used right away; attributes may have names of outer variables
                    count[1] += 1
                    h = 'H%d' % count[1]
                    n = rng.choice(names)
                    form = rng.choice(['none', 'default', 'value', 'two'])
                    head = {'none': '', 'default': ' %s={%s + "d"}' % (n, n), 'value': ' %s' % n, 'two': ' q %s={%s + "d"}' % (n, n)}[form]
                    if len(names) == 2 and form == 'two':
                        head = ' x y={x + "d"}'                 # the default value refers to the outer x
                    lines.append('%s%%%s%s' % (pre, h, head))
                    use = {'none': '', 'default': '', 'value': ' {%s + "v"}' % n, 'two': ' "q"'}[form]
                    if form == 'default' or form == 'two' and len(names) == 1: e[n] = env[n] + 'd'
                    elif form == 'two': e['y'] = env['x'] + 'd'; e['x'] = 'q'
                    elif form == 'value': e[n] = env[n] + 'v'
                    scope(pre + '  ', e, depth + 1)
                    read(pre + '  ', e)
                    lines.append('%s%s%s' % (pre, h, use))
                elif kind == 'for':
                    # a loop has no scope of its own, but its body may contain tags
                    lines.append('%sfor w in [0]' % pre)
                    lines.append('%s  p' % pre)
                    scope(pre + '    ', e, depth + 1, True)
                else:
                    lines.append(pre + kind)
                    scope(pre + rng.choice(['  ', ' ', '\t']), e, depth + 1, ctl)
                read(pre, env)
    env = {}
    for n in names:
        lines.append('$%s = "%s"' % (n, n.upper())); env[n] = n.upper()
    scope('', env, 0)
    for n in names:
        lines.append('$ P("%s", %s)' % (n, n)); want.append((n, env[n]))
    script = 'context $P\n' + '\n'.join(lines)
    log = []
    r = run_real(script, context=dict(P=lambda n, v: log.append((n, v))))
    rec.event(max(1, len(log)))
    if count[0] > 1: rec.sig(script)
    rec.show(script)
    if r.exc is not None: return rec.violation('exception', repr(r), script)
    if log != want: rec.violation('values differ', 'expected %r\ngot      %r' % (want, log), script)


@check.monitor('siblings', 1200, rule='tags, hypertag definitions and their repeated calls use the same names side by side, each assigns them on some paths only: a read gives the value assigned in the same scope during the same call, or is reported as unbound; non-trivial: distinct script with 2+ scopes')
def siblings(rng, i, rec):
    lines, want = [], []
    names = ['x', 'y', 'z'][:rng.choice([1, 2, 3])]
    state = {'err': None, 'n': 0, 'scopes': 0}

    def body(pre, free, env, depth):
        """Statements of one scope: (lines, function(env) executing them); `free` are names that no outer scope declares."""
        out, ops = [], []
        declared = {}
        mine = list(free)
        def assign(p, live):
            n = rng.choice(mine)
            state['n'] += 1
            v = state['n']
            out.append('%s$%s = %d' % (p, n, v))
            declared[n] = True
            return [('set', n, v)] if live else []
        for _ in range(rng.randint(1, 5)):
            x = rng.random()
            if x < .15 and mine: ops += assign(pre, True)
            elif x < .5 and mine:
                kind = rng.choice(['if', 'for', 'arg', 'try', 'else'])
                c = rng.random() < .4
                if kind == 'arg' and 'c' in env:
                    out.append(pre + 'if c')
                    ops.append(('if', assign(pre + '  ', True)))
                elif kind == 'for':
                    out.append('%sfor _i in [%s]' % (pre, '0' if c else ''))
                    ops += assign(pre + '  ', c)
                elif kind == 'try':
                    out.append(pre + 'try')
                    if not c: out.append(pre + '  $ 1/0')
                    ops += assign(pre + '  ', c)
                elif kind == 'else':
                    out.append('%sif %s\n%s  pass\n%selse' % (pre, not c, pre, pre))
                    ops += assign(pre + '  ', c)
                else:
                    out.append('%sif %s' % (pre, c))
                    ops += assign(pre + '  ', c)
            elif x < .75:
                seen = sorted(declared) + [n for n in env if n != 'c' and n not in free]
                if not seen: continue
                n = rng.choice(seen)
                out.append(rng.choice(['%s$ P("%s", %s)', '%s| {P("%s", %s)}'])  % (pre, n, n))
                ops.append(('read', n))
            elif depth < 3:
                kind = rng.choice(['p', 'div', '.', 'H'])
                state['scopes'] += 1
                left = [n for n in free if n not in declared]
                sub = dict(env)
                sub.update({n: 1 for n in declared})
                if kind == 'H':
                    state['n'] += 1
                    h = 'H%d' % state['n']
                    sub['c'] = 1
                    out.append('%s%%%s c' % (pre, h))
                    l, o = body(pre + '  ', left, sub, depth + 1)
                    out.extend(l or [pre + '  pass'])
                    for _ in range(rng.choice([1, 2, 2, 3])):
                        v = rng.choice([0, 1])
                        out.append('%s%s %d' % (pre, h, v))
                        ops.append(('scope', o, v))
                else:
                    l, o = body(pre + '  ', left, sub, depth + 1)
                    out.append(pre + kind)
                    out.extend(l or [pre + '  pass'])
                    ops.append(('scope', o, None))
        return out, ops

    class Unbound(Exception): pass
    def run(ops, env, c):
        for op in ops:
            if op[0] == 'set': env[op[1]] = op[2]
            elif op[0] == 'if':
                if c: run(op[1], env, c)
            elif op[0] == 'read':
                if op[1] not in env: raise Unbound
                want.append((op[1], env[op[1]]))
            else: run(op[1], dict(env), c if op[2] is None else op[2])
    out, ops = body('', names, {}, 0)
    script = 'context $P\n' + '\n'.join(out)
    if state['scopes'] < 2: return rec.stat('trivial')
    unbound = False
    try: run(ops, {}, None)
    except Unbound: unbound = True
    log = []
    def P(n, v):
        log.append((n, v))
        return v
    r = run_real(script, context={'P': P})
    rec.event(1 + len(log))
    rec.sig(script)
    rec.show(script)
    rec.stat('unbound' if unbound else 'ok')
    if unbound:
        if r.error != 'UnboundLocalEx': return rec.violation('unbound variable was read', 'got %r' % r, script)
    elif r.exc is not None: return rec.violation('exception', repr(r), script)
    if log != want: rec.violation('values differ', 'expected %r\n     got %r' % (want, log), script)
