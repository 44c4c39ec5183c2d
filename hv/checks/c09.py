"""Native hypertags: binding of attributes, scope of the definition, expansion at the place of use."""
from hv.core import Check
from hv import regress, values, doc as D
from hv.difftest import diff_case, run_real

check = Check('C09', ['default values are evaluated at every expansion in the scope of the definition', 'a hypertag cannot use itself recursively (its name is not visible inside its own body)'])

PROFILE = dict(def_=12, hyper=16, tag=8, text=8, embed=10, assign=6, chain=.3, for_=4, if_=3, probes=True, exprdepth=2, budget=32, maxdepth=6, hostile=.15, embedexpr=.7, margins=.15, texttail=.2, mods=.04, null=2)

@check.monitor('documents', 2200, rule='random documents with hypertags defined and used at all levels (nested definitions, closures over variables that change later, hypertags inside bodies of hypertags, chains), compared with the reference interpreter; non-trivial: 2+ expansions')
def documents(rng, i, rec):
    diff_case(rng, rec, PROFILE, lambda stats, script: sum(v for k, v in stats.items() if k[0] == 'expand') > 1)


NAMES = ['a', 'b', 'c', 'title', 'cls', 'x1', 'Name', '_u', 'href', 'class']

def signature(rng):
    """[(name, has_default)]"""
    names = rng.sample(NAMES, rng.choice([0, 1, 1, 2, 3, 4, 5]))
    return [(n, rng.random() < .5) for n in names]

def bind(sig, pos, kw, body):
    """Values bound to parameters: {name: ('arg', v) | ('default',)} or an error."""
    names = [n for n, _ in sig]
    if len(pos) > len(names): return 'TypeErrorEx'
    out = {}
    for n, v in zip(names, pos): out[n] = v
    for n, v in kw:
        if n not in names or n in out: return 'TypeErrorEx'
        out[n] = v
    for n, d in sig:
        if n not in out:
            if not d: return 'TypeErrorEx'
            out[n] = 'D' + n
    return out


@check.monitor('binding', 6000, rule='random signatures (required and optional attributes in any order, with or without a body attribute) and random occurrences (tagged block or function call; too many, unknown, repeated, missing attributes): every attribute has the value that Python-like binding defines, or TypeErrorEx is raised; the body is passed or refused; non-trivial: 1+ attributes')
def binding(rng, i, rec):
    sig = signature(rng)
    body = rng.random() < .5
    # values
    k = rng.random()
    n = len(sig)
    npos = rng.randint(0, n) if k < .8 else rng.randint(0, n + 2)
    vals, vs = {}, 0
    def val():
        nonlocal vs
        vs += 1
        v = rng.choice([vs, 's%d' % vs, [vs], None, True, False, 2.5, values.text(rng, newline=False, maxlen=3), (1,), {'k': vs}])
        vals['v%d' % vs] = v
        return 'v%d' % vs, v
    pos = [val() for _ in range(npos)]
    kw = []
    rest = [nm for nm, d in sig[npos:] if rng.random() < (.5 if d else .93)]
    if rng.random() < .1: rest.append(rng.choice(NAMES + ['data-x', 'zz']))
    if body and rng.random() < .05: rest.append('bd')
    rng.shuffle(rest)
    seen = set()
    for nm in rest:
        if nm in seen: continue
        seen.add(nm)
        kw.append((nm,) + val())
    call = rng.random() < .3 and not any('-' in nm or nm == 'class' for nm, _, _ in kw)
    passed = rng.random() < .5
    want = bind(sig, [v for _, v in pos], [(nm, v) for nm, _, v in kw], passed)
    if body and 'bd' in seen: want = 'TypeErrorEx'
    if want != 'TypeErrorEx' and passed and not body: want = 'VoidTagEx'
    either = passed and not body        # both errors at once: any of them
    got = []
    params = ''.join(' %s%s' % (nm, "='D%s'" % nm if d else '') for nm, d in sig)
    lines = ['%%%sH%s%s' % (rng.choice(['', ' ']), ' @bd' if body else '', params), '  $ P(%s)' % ', '.join('[%r, %s]' % (nm, nm if nm != 'class' else '$class') for nm, _ in sig)]
    if body: lines.append('  u\n    @ bd')
    if call: 
        args = ["'B<b'" if passed else 'None'] + [e for e, _ in pos] + ['%s=%s' % (nm, e) for nm, e, _ in kw]
        use = '/ {%%H(%s)}' % ', '.join(args)
    else:
        form = lambda e: rng.choice(['$%s', '{%s}', '%s']) % e
        use = 'H' + ''.join(' ' + form(e) for e, _ in pos) + ''.join(' %s%s%s' % (nm, rng.choice(['=', '=', ' = ']), form(e)) for nm, e, _ in kw)
        if passed: use += rng.choice([' / B<b', '\n  / B<b', ' : b / B<b'])
    lines.append(use)
    pre = rng.choice(['', '', 'p\n', 'if 1\n'])
    if pre: lines = [lines[0] + '\n' + '\n'.join(lines[1:-1]), pre.rstrip('\n'), '  ' + lines[-1].replace('\n', '\n  ')]
    script = 'context $P' + ''.join(', $' + v for v in vals) + '\n' + '\n'.join(lines)
    r = run_real(script, context=dict(vals, P=lambda *a: got.append([tuple(x) for x in a])))
    rec.event(1 + len(got))
    if sig: rec.sig(script)
    rec.stat(want if isinstance(want, str) else 'ok')
    rec.show(script)
    if isinstance(want, str):
        if r.error != want and not (either and r.error in ('VoidTagEx', 'TypeErrorEx')): return rec.violation('wrong binding accepted', 'expected %s, got %r' % (want, r), script)
        if got: rec.violation('the body of a hypertag was executed despite a wrong binding', repr(got), script)
        return
    if r.exc is not None: return rec.violation('exception', repr(r), script)
    exp = [(nm, want[nm]) for nm, _ in sig]
    if len(got) != 1: return rec.violation('expanded %d times' % len(got), repr(r), script)
    if [n for n, _ in got[0]] != [n for n, _ in exp] or any(type(a) is not type(b) or a != b for (_, a), (_, b) in zip(got[0], exp)):
        return rec.violation('attributes differ', 'expected %r\n     got %r' % (exp, got[0]), script)
    if body:
        if ('B<b' in r.out or 'B&lt;b' in r.out) != passed: rec.violation('body', repr(r), script)


@check.monitor('scopes', 3000, rule='chains of definitions and redefinitions of variables and hypertags at various levels; every expansion reports which definition was used and which variables were seen: always those visible at the definition (with their current values), never those of the place of use; non-trivial: every case')
def scopes(rng, i, rec):
    """Random program over a small set of names, interpreted independently with explicit scope chains."""
    lines, log, want = [], [], []
    uid = [0]
    def gen(depth, tags, vs, n):
        """Statements, given the names of tags and variables in scope."""
        tags, vs = set(tags), set(vs)
        out = []
        for _ in range(n):
            x = rng.random()
            uid[0] += 1
            u = uid[0]
            if x < .28:
                nm = rng.choice('xyz')
                out.append(('set', nm, u))
                vs.add(nm)
            elif x < .5 and depth < 3:
                nm = rng.choice('FGH')
                par = rng.choice([None, 'x', 'p'])
                body = gen(depth + 1, tags, vs | ({par} if par else set()), rng.randint(1, 3))
                # variables read inside
                out.append(('def', nm, par, body))
                tags.add(nm)
            elif x < .78 and tags: out.append(('use', rng.choice(sorted(tags)), u))
            elif x < .9 and depth < 3: out.append(('tag', gen(depth + 1, tags, vs, rng.randint(1, 3))))
            elif vs: out.append(('read', rng.choice(sorted(vs)), u))
            else: out.append(('set', 'x', u)); vs.add('x')
        return out
    prog = gen(0, set(), set(), rng.randint(4, 9))
    # names are resolved lexically, to what is visible at the given position of the script; every read becomes a reference to a variable of
    # an enclosing scope (level), every use becomes a reference to a definition
    def write(stmts, pre, env):
        """env: list of dicts (from the outermost scope), {'$x': True, '%F': definition}"""
        def level(key): return max(k for k, e in enumerate(env) if key in e)
        for s in stmts:
            if s[0] == 'set':
                lines.append('%s$%s = %d' % (pre, s[1], s[2]))
                env[-1]['$' + s[1]] = True
            elif s[0] == 'read':
                lines.append('%s$ P(%d, %s)' % (pre, s[2], s[1]))
                ref[s[2]] = level('$' + s[1])
            elif s[0] == 'tag':
                lines.append(pre + 'p')
                write(s[1], pre + '  ', env + [{}])
            elif s[0] == 'def':
                lines.append('%s%%%s%s' % (pre, s[1], ' ' + s[2] if s[2] else ''))
                write(s[3], pre + '  ', env + [{'$' + s[2]: True} if s[2] else {}])
                env[-1]['%' + s[1]] = s
            else:
                k = level('%' + s[1])
                d = env[k]['%' + s[1]]
                ref[s[2]] = (d, k)
                lines.append('%s%s%s' % (pre, s[1], ' %d' % s[2] if d[2] else ''))
    ref = {}
    write(prog, '', [{}])
    class Stop(Exception): pass
    count = [0]
    def run(stmts, frames):
        count[0] += 1
        if count[0] > 300: raise Stop
        for s in stmts:
            if s[0] == 'set': frames[-1][s[1]] = s[2]
            elif s[0] == 'read': want.append((s[2], frames[ref[s[2]]][s[1]]))
            elif s[0] == 'tag': run(s[1], frames + [{}])
            elif s[0] == 'use':
                d, k = ref[s[2]]
                run(d[3], frames[:k + 1] + [{d[2]: s[2]} if d[2] else {}])
    try: run(prog, [{}])
    except (Stop, RecursionError): return rec.stat('skipped')
    script = 'context $P\n' + '\n'.join(lines)
    r = run_real(script, context=dict(P=lambda k, v: log.append((k, v))))
    rec.event(len(log) + 1)
    rec.sig(script)
    rec.show(script)
    if r.exc is not None: return rec.violation('exception', repr(r), script)
    if log != want: rec.violation('values differ', 'expected %r\n     got %r' % (want, log), script)

regress.probes(check)
