"""Custom runtimes: escape, built-in modules, loaders, resolve, registry."""
import os, shutil, sys, tempfile, types
from hv.core import Check
from hv import doc as D
from hv.difftest import diff_case, run_real, run_model

check = Check('C27', ['how many times a loader without a cache is asked for the same path is not specified', 'changes of a configuration after the first rendering are out of scope'])

# -- escape

MAPS = [{'<': '[LT]', '>': '[GT]'}, {'&': '&amp;amp;'}, {'a': 'aa', 'e': ''}, {c: c.upper() for c in 'abcdefghijklmnopqrstuvwxyz'}, {'"': '\\"', "'": "\\'", '\\': '\\\\'}, {'{': '{{', '}': '}}', '$': '$$', '%': '%%'}, {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;'}, {}, {'_': '\\_', '*': '\\*', '#': '\\#'}]

PROFILE = dict(hostile=.4, margins=.2, texttail=.4)

@check.monitor('escape', 1500, 50000, rule='random documents rendered by a runtime whose escape is a random mapping of characters, or None: it is applied to every plain-text block once, and to nothing else (reference interpreter); non-trivial: the mapping changes the output')
def escape(rng, i, rec):
    from hypertag import HyperHTML
    m = rng.choice(MAPS)
    none = rng.random() < .15
    def esc(s):
        if not isinstance(s, str): rec.violation('escape called with something else than a string', repr(s))
        return ''.join(m.get(c, c) for c in s)
    class RT(HyperHTML):
        escape = None if none else staticmethod(esc)
    class It(D.Interp):
        escape = staticmethod((lambda s: s) if none else esc)
    def real(script, context=None, probes=False): return run_real(script, context=context, probes=probes, runtime=RT())
    def model(blocks, context=None, probes=False): return run_model(blocks, context=context, probes=probes, interp=It)
    changed = []
    def feature(stats, script): return none or any(c in script for c in m)
    rec.stat('None' if none else ''.join(sorted(m))[:8])
    diff_case(rng, rec, PROFILE, feature, real=real, model=model)


# -- loaders

NAMES = ['a', 'b', 'x1', 'data', 'len', 'p', 'Up', '_priv']
PATHS = ['a', 'a.b', '.a', '..a.b', 'db:table/1', 'http://x.y/z?q=1', 'ż.ó', 'a/b.hy', '/abs/path', 'A', '*x*', 'from', '%p', '$v', 'a-b', '(1)', '.', '..', '...', 'os', 'a,b', 'x=1', '#1', '--', '{x}', '❨']

class Value:
    def __init__(self, name): self.name = name
    def __repr__(self): return '<%s>' % self.name

def symbols_of(rng, tag, rec):
    """Random symbols of a module: variables and tags."""
    from hypertag import Tag
    out = {}
    for n in rng.sample(NAMES, rng.randint(1, 4)): out['$' + n] = Value('%s.%s' % (tag, n))
    for n in rng.sample(['T', 'p', 'div', 'U9'], rng.randint(0, 2)):
        class T(Tag):
            name = n
            label = '[%s %s]' % (tag, n)
            def expand(self, body, attrs, kwattrs): return self.label + body.render()
        out['%' + n] = T()
    return out

class Boom(Exception): pass

@check.monitor('loaders', 1800, 60000, rule='a runtime with 1-4 random loaders (override load(), or _find() and _read(); instances or classes) that know random modules under paths of any form, also scripts translated by the runtime that import others; loaders are asked in order up to the first that has the module, with the path as written, the module of the importing script and the runtime; symbols are the very objects of that module; a base-class loader reads each location once; failures of loaders come out; non-trivial: distinct script and tables')
def loaders(rng, i, rec):
    from hypertag import HyperHTML
    from hypertag.core.runtime import Loader, Module, HyModule, PyLoader, PyModule, HyLoader
    from hypertag import Tag
    paths = rng.sample(PATHS, rng.randint(1, 6))
    asked, reads = [], []
    tables, made = [], []
    boom = {p: Boom(p) for p in paths if rng.random() < .06}
    state = {}
    scripts = {}                    # (loader, path) -> source of a script
    def make_module(j, p, rt):
        kind = tables[j][p][0]
        if kind == 'script': return rt.translate(tables[j][p][1], tables[j][p][2], tables[j][p][3])
        if kind == 'py': return PyModule(tables[j][p][1])
        return Module(symbols=tables[j][p][1], filename=None, package=None)
    def create(j):
        style = rng.choice(['load', 'read', 'class'])
        def note(p, referrer, runtime):
            asked.append((j, p, referrer, runtime))
            if p in boom and p in tables[j]: raise boom[p]
        class L(Loader):
            if style == 'load':
                def load(self, path, referrer, runtime):
                    note(path, referrer, runtime)
                    return make_module(j, path, runtime) if path in tables[j] else None
            else:
                def _find(self, path, referrer):
                    note(path, referrer, None)
                    return ('loc', path) if path in tables[j] else None
                def _read(self, location, runtime):
                    if runtime is not state['rt']: rec.violation('_read() called with another runtime', repr(runtime))
                    reads.append((j, location))
                    return make_module(j, location[1], runtime)
        return L if style == 'class' else L(), style
    n = rng.randint(1, 4)
    def owner(p):
        return next((j for j in range(n) if p in tables[j]), None)
    for j in range(n):
        t = {}
        for p in paths:
            if rng.random() < .5: continue
            syms = symbols_of(rng, '%d/%s' % (j, p), rec) if rng.random() > .1 else {}          # a module may be empty
            x = rng.random()
            if x < .6: t[p] = ('module', syms, syms)
            elif x < .75:
                m = types.ModuleType('mod%d' % j)
                for k, v in syms.items():
                    if k[0] == '$': setattr(m, k[1:], v)
                m.__tags__ = {k[1:]: v for k, v in syms.items() if k[0] == '%'}
                t[p] = ('py', m, syms)
            else: t[p] = ['script', None, rng.choice([None, '/x/f%d.hy' % j]), rng.choice([None, 'pk%d.q' % j]), None]
        tables.append(t)
    # scripts are written in an order that has no cycles
    order = [(p, owner(p)) for p in paths if owner(p) is not None]
    done = {}
    for p, j in order:
        e = tables[j][p]
        if e[0] != 'script':
            done[p] = e[2]
            continue
        lines, syms = [], {}
        if rng.random() < .15:              # a script that defines nothing, or private symbols only
            e[1], e[4] = rng.choice(['', '\n\n', '# comment', 'p | text', '$_hid = 1', 'if True\n  | x']), {}
            if '_hid' in e[1]: e[4]['$_hid'] = 1
            done[p] = e[4]
            continue
        for q in rng.sample(sorted(done), min(len(done), rng.randint(0, 2))):
            if q in boom: continue
            for k, v in done[q].items():
                if rng.random() < .5 and not k[1:].startswith('_'):
                    new = k[1:] + '_' + str(len(syms))
                    lines.append('from %s import %s as %s' % (q, k, new))
                    syms[k[0] + new] = v
        text = '%d/%s' % (j, p)
        lines.append('$own%d = "%s"' % (j, text.replace('{', '{{').replace('}', '}}').replace('$', '$$')))
        syms['$own%d' % j] = text
        tag = next((k for k, v in syms.items() if k[0] == '%' and isinstance(v, Tag)), None)
        lines.append('%%H%d @b\n  | $own%d\n  @b' % (j, j))
        syms['%%H%d' % j] = ('hyper', text)
        e[1], e[4] = '\n'.join(lines), syms
        done[p] = syms
    for t in tables:
        for p, e in list(t.items()):
            if e[0] == 'script' and e[1] is None: e[1], e[4] = '$own = 1', {'$own': 1}
    # the main script
    lines, want, names = [], [], {}
    fail = None
    seen = []
    def see(*a): seen.append(a)
    use = []
    for k in range(rng.randint(1, 5)):
        p = rng.choice(paths)
        syms = done.get(p)
        if syms is None:
            if rng.random() < .7 and owner(p) is None: continue
            lines.append('from %s import $x' % p)
            fail = fail or ('ModuleNotFoundEx', p, len(lines))
            continue
        if p in boom:
            lines.append('from %s import $x' % p)
            fail = fail or ('Boom', p, len(lines))
            continue
        if rng.random() < .25 or not syms:
            lines.append('from %s import *' % p)
            names.update({s: v for s, v in syms.items() if s[1] != '_'})
        else:
            for s in rng.sample(sorted(syms), min(len(syms), rng.randint(1, 3))):
                new = 'n%d' % len(lines)
                if rng.random() < .5: new = s[1:]
                lines.append('from %s import %s%s' % (p, s, '' if new == s[1:] else ' as ' + new))
                names[s[0] + new] = syms[s]
            if rng.random() < .1 and '$zz' not in syms:
                lines.append('from %s import $zz' % p)
                fail = fail or ('ImportErrorEx', p, len(lines))
    if not lines: return rec.stat('skipped')
    body = []
    pre = ['context $see'] + lines
    for s, v in names.items():
        if s[0] == '$': body.append('$ see("%s", %s)' % (s[1:], s[1:]))
        else: body.append('%s | t' % s[1:])
    script = '\n'.join(pre + body)
    if any(p.startswith(('--', '#')) for p in paths) and False: return
    ls = [create(j) for j in range(n)]
    class RT(HyperHTML): pass
    objs = [l for l, _ in ls]
    at = rng.randint(0, n)
    full = objs[:at] + [rng.choice([PyLoader, PyLoader()])] + objs[at:]           # the built-ins are Python modules
    if 'os' in paths and at < n: full = objs + full[at:at + 1]
    rt = state['rt'] = RT(full)
    file, package = rng.choice([(None, None), ('/x/main.hy', None), ('/x/main.hy', 'pk.sub'), (None, 'pk')])
    if any(p.startswith('.') for p in paths): full = None
    if full is None or package: rt = state['rt'] = RT(objs + [PyLoader()])
    if fail and fail[0] == 'ModuleNotFoundEx' and (fail[1] == 'os' or package and len(fail[1]) - len(fail[1].lstrip('.')) > len(package.split('.'))): fail = ('ImportErrorEx',) + fail[1:]      # PyLoader knows better
    rec.sig(script, n)
    rec.show(script)
    rec.event(1 + len(asked))
    info = script + '\n' + '\n'.join('loader %d: %s' % (j, {p: (e[0], e[1]) for p, e in t.items()}) for j, t in enumerate(tables))
    for turn in range(2):
        asked.clear(); seen.clear()
        if turn == 0: reads.clear()
        r = run_real(script, runtime=rt, context={'see': see}, file=file, package=package)
        rec.event(1 + len(asked))
        if fail:
            rec.stat(fail[0])
            if r.error != fail[0]: return rec.violation('failure of an import', 'expected %s, got %r' % (fail[:2], r), info)
            if fail[0] == 'Boom' and r.exc is not boom[fail[1]]: return rec.violation('exception of a loader replaced', repr(r), info)
            if fail[0] == 'ModuleNotFoundEx' and (fail[1] not in str(r.exc) or 'line %d,' % (fail[2] + 1) not in str(r.exc)): return rec.violation('message', str(r.exc), info)
        else:
            if r.exc is not None: return rec.violation('exception', repr(r), info)
            got = {a: b for a, b in seen}
            for s, v in names.items():
                if s[0] == '$' and not (got[s[1:]] is v if isinstance(v, Value) else got[s[1:]] == v): return rec.violation('wrong value of an imported variable', '%s: expected %r, got %r' % (s, v, got[s[1:]]), info)
            out = [l.label + 't' if isinstance(l, Tag) else l[1] + 't' for s, l in names.items() if s[0] == '%']
            esc = lambda s: D.escape(s)
            out = [(l.label + 't') if isinstance(l, Tag) else esc(l[1]) + 't' for s, l in names.items() if s[0] == '%']
            if r.out.replace('\n', '') != ''.join(out): return rec.violation('output', 'expected %r, got %r' % (''.join(out), r.out), info)
        # the way the loaders were asked
        prev = None
        for j, p, ref, run in asked:
            if p in ('builtins', 'hypertag.builtins', 'hypertag.html') and ref.filename is None and ref.package is None and p not in paths: continue
            if run is not None and run is not rt: return rec.violation('runtime passed to a loader', repr(run), info)
            o = owner(p)
            if o is not None and j > o: return rec.violation('a loader asked although a previous one has the module', '%d for %r' % (j, p), info)
            if p not in paths: return rec.violation('path passed to a loader', repr(p), info)
            if j and (prev is None or prev[0] != j - 1 or prev[1] != p): return rec.violation('order of loaders', repr([a[:2] for a in asked]), info)
            if (ref.filename, ref.package) not in {(file, package)} | {(e[2], e[3]) for t in tables for e in t.values() if e[0] == 'script'}: return rec.violation('referrer passed to a loader', repr((ref.filename, ref.package)), info)
            prev = (j, p)
    if len(set(reads)) != len(reads): return rec.violation('a location read again', repr(reads), info)


@check.monitor('resolve', 700, 20000, rule='HyLoader with a resolve function: it is asked for every absolute path, with the importing module; a file it returns is the module, otherwise (None or a missing file) the usual places are tried; it is not asked for relative paths; a file imported by two paths is executed once; a new runtime executes it again; non-trivial: distinct script and table')
def resolve(rng, i, rec):
    from hypertag import HyperHTML
    from hypertag.core.runtime import HyLoader, PyLoader
    root = tempfile.mkdtemp(dir=os.environ.get('HV_TMP') or None)
    try:
        files = {}
        log = []
        for d in ('', 'sub', 'other'):
            for n in rng.sample(['aq', 'bq', 'cq', 'dq'], rng.randint(1, 4)):
                f = os.path.join(root, d, n + rng.choice(['.hy', '.hy', '.txt'] if d == 'other' else ['.hy']))
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, 'w', encoding='utf-8') as h: h.write('$id = "%s"\n$obj = [id]\n%%H\n  | $id\n' % f)
                files[f] = f
        names = sorted(files)
        paths = rng.sample(['aq', 'bq', 'cq', 'dq', 'zq', 'sub.aq', 'sub.bq', 'no.such', 'any:thing', 'x/y', '.aq', '.sub.bq', '.zq', '.other.aq'], rng.randint(2, 6))
        table = {}
        for p in paths:
            if rng.random() < .6: table[p] = rng.choice(names + [os.path.join(root, 'missing.hy'), None])
        calls = []
        def res(path, referrer):
            calls.append((path, referrer.filename, referrer.package))
            return table.get(path)
        file = os.path.join(root, rng.choice(['main.hy', 'sub/main.hy'])) if rng.random() < .8 else None
        package = rng.choice([None, 'pk']) if file else None
        where = os.path.dirname(file) if file else None
        def target(p):
            if p[0] == '.':
                f = where and os.path.join(where, p[1:].replace('.', '/') + '.hy')
                return f if f in files else None
            f = table.get(p)
            if f in files: return f
            f = where and os.path.join(where, p.replace('.', '/') + '.hy')
            return f if f in files else None
        lines = ['context $see']
        used = []
        fail = False
        for p in rng.sample(paths, len(paths)):
            t = target(p)
            if t is None:
                if rng.random() < .8 or fail: continue
                fail = True
            k = len(used)
            used.append((p, t))
            lines.append('from %s import $id as i%d, $obj as o%d, %%H as H%d' % (p, k, k, k))
            if fail: break
        if not used: return rec.stat('skipped')
        lines += ['$ see(i%d, o%d)' % (k, k) for k in range(len(used))] + ['H%d' % k for k in range(len(used))]
        script = '\n'.join(lines)
        shared = HyLoader(res)
        info = '%s\nfile %s package %s table %s\nfiles %s' % (script, file, package, table, names)
        rec.sig(script, sorted(map(str, table.items())))
        rec.show(info)
        kept = {}
        rts = [HyperHTML([shared, PyLoader])] * 2 + [HyperHTML([HyLoader(res), PyLoader()])]
        for turn, rt in enumerate(rts):
            seen = []
            calls.clear()
            r = run_real(script, runtime=rt, context={'see': lambda *a: seen.append(a)}, file=file, package=package)
            rec.event(1 + len(calls))
            if fail:
                if r.error != 'ModuleNotFoundEx': return rec.violation('missing module', 'got %r' % r, info)
                rec.stat('missing')
            else:
                if r.exc is not None: return rec.violation('exception', repr(r), info)
                if [a for a, _ in seen] != [t for _, t in used]: return rec.violation('wrong file', 'expected %s, got %s' % ([t for _, t in used], seen), info)
                if r.out.split('\n') != [t for _, t in used]: return rec.violation('output', repr(r.out), info)
                ids = {}
                for (a, o) in seen:
                    if ids.setdefault(a, o) is not o: return rec.violation('a file executed twice', a, info)
                    if turn == 1 and kept[a] is not o: return rec.violation('a file executed again by the same runtime', a, info)
                    if turn == 2 and kept[a] is o: return rec.violation('a module shared by runtimes', a, info)
                    if turn == 0: kept[a] = o
            mine = [c for c in calls if c[0] not in ('builtins', 'hypertag.builtins', 'hypertag.html')]
            for c in mine:
                if c[0][0] == '.' or c[0] not in paths: return rec.violation('path passed to resolve', repr(c), info)
                if c[1:] != (file, package): return rec.violation('referrer passed to resolve', repr(c), info)
            if turn == 0:
                for p, t in used:
                    if p[0] != '.' and p not in [c[0] for c in mine]: return rec.violation('resolve not asked', p, info)
            rec.stat('resolved by the function', sum(1 for p, t in used if t and t == table.get(p)))
    finally:
        shutil.rmtree(root, ignore_errors=True)


# -- built-in modules of a runtime

STD = {'builtins': ['len', 'str', 'max'], 'hypertag.builtins': ['crop', 'unique', '%upper'], 'hypertag.html': ['%p', '%div']}

@check.monitor('builtins', 900, 30000, rule='a subclass of Runtime or HyperHTML with a random list of built-in modules: scripts see exactly their public and private names, of the last module that has them, as the very same objects, in imported scripts and hypertags too; a script that shadows them does not change them for others; names of modules that are not listed are undefined; non-trivial: distinct configuration')
def builtins_(rng, i, rec):
    from hypertag import HyperHTML, Runtime, Tag
    mods = []
    names = []
    pool = ['aa', 'bb', 'len', 'crop', 'see', '_pp', 'Cc']
    tags = ['T', 'p', 'upper', '_t']
    try:
        for k in range(rng.randint(0, 3)):
            name = 'hv_builtin_%d' % k
            m = types.ModuleType(name)
            vs = {n: Value('%d.%s' % (k, n)) for n in rng.sample(pool, rng.randint(0, 4)) if n != 'see'}
            for n, v in vs.items(): setattr(m, n, v)
            ts = {}
            for n in rng.sample(tags, rng.randint(0, 3)):
                class T(Tag):
                    name = n
                    label = '[%d %s]' % (k, n)
                    def expand(self, body, attrs, kwattrs): return self.label + body.render()
                ts[n] = T()
            if ts or rng.random() < .5: m.__tags__ = ts
            sys.modules[name] = m
            mods.append((name, vs, ts))
        base = rng.choice([Runtime, HyperHTML])
        std = rng.sample(sorted(STD), rng.randint(0, 3))
        use = [(n, {}, {}) for n in std] + mods
        rng.shuffle(use)
        inherit = rng.random() < .3
        if inherit: use = [(n, {}, {}) for n in base.BUILTINS] + mods
        class RT(base):
            BUILTINS = [n for n, _, _ in use]
        rt = RT()
        import hypertag.builtins, hypertag.html, builtins
        real = {'builtins': builtins, 'hypertag.builtins': hypertag.builtins, 'hypertag.html': hypertag.html}
        want = {}
        for n, vs, ts in use:
            if n in real:
                for a in STD[n]:
                    if a[0] == '%': want[a] = real[n].__tags__[a[1:]]
                    else: want['$' + a] = getattr(real[n], a)
                if n == 'hypertag.builtins': want['%crop'] = None
            else:
                want.update({'$' + a: v for a, v in vs.items()})
                want.update({'%' + a: v for a, v in ts.items()})
        want.pop('%crop', None)
        allnames = ['$' + x for x in pool + ['str', 'max', 'unique'] if x != 'see'] + ['%' + x for x in tags + ['div']]
        for _ in range(4):
            s = rng.choice(allnames)
            seen = []
            ctx = 'context $see\n'
            expr = s if s[0] == '%' else s[1:]
            if rng.random() < .3 and s in want: rt.render('context $see\n%s' % ('%%%s\n  | x\n%s' % (s[1:], s[1:]) if s[0] == '%' else '$%s = 5\n$ see(%s)' % (s[1:], s[1:])), see=lambda x: None)      # shadows it
            form = rng.choice(['$ see(%s)', '%%H9\n  $ see(%s)\nH9', '%%H9 a={%s}\n  $ see(a)\nH9', 'if see\n  $ see(%s)', '$ see(%s)\n$q = 1']) % expr
            try: rt.render(ctx + form, see=seen.append); err = None
            except Exception as ex: err = ex
            rec.event()
            info = '%s(%s)\n%s' % (base.__name__, RT.BUILTINS, ctx + form)
            rec.sig(form, tuple(RT.BUILTINS), base.__name__)
            rec.show(info)
            if s not in want:
                # all names of Python are built-in if the module is listed
                if type(err).__name__ != 'NameErrorEx': rec.violation('a name that is not built-in is defined', '%s -> %r %r' % (s, seen, err), info)
            elif err is not None: rec.violation('a built-in name is not available', '%s: %s: %s' % (s, type(err).__name__, err), info)
            elif len(seen) != 1 or seen[0] is not want[s]: rec.violation('wrong value of a built-in name', '%s -> %r instead of %r' % (s, seen, want[s]), info)
            rec.stat('defined' if s in want else 'undefined')
            if s[0] == '%' and s in want and s[1:] not in ('upper',):
                try: out = rt.render('%s | x' % s[1:])
                except Exception as ex: out = repr(ex)
                w = want[s].label + 'x' if hasattr(want[s], 'label') else '<%s>x</%s>' % (s[1:], s[1:])
                if out != w: rec.violation('a built-in tag', 'expected %r, got %r' % (w, out), info)
    finally:
        for k in range(3): sys.modules.pop('hv_builtin_%d' % k, None)


@check.monitor('registry', 500, 15000, rule='tags (classes, instances, functions) and variables registered in a Registry in random order are available under their names, in a module and in a context; registering returns the object unchanged; PyModule refuses tags under other names than their own; non-trivial: distinct sequence')
def registry(rng, i, rec):
    from hypertag import HyperHTML, Tag, TagFunction, Markup
    from hypertag.std.registry import Registry
    reg = Registry()
    want, trace = {}, []
    for k in range(rng.randint(1, 6)):
        kind = rng.choice(['class', 'instance', 'function', 'markup', 'var', 'named', 'both'])
        n = rng.choice(['n1', 'n2', 'n3', 'N1'])
        text = '%s%d' % (kind, k)
        trace.append((kind, n))
        if kind in ('class', 'instance'):
            class T(Tag):
                name = n
                label = text
                def expand(self, body, attrs, kwattrs): return self.label + body.render() + repr(list(attrs)) + repr(sorted(kwattrs.items()))
            obj = T if kind == 'class' else T()
            got = reg.tag(obj)
            want['%' + n] = lambda b, text=text: text + b + "['a'][('k', 1)]"
        elif kind == 'markup':
            obj = Markup(n)
            got = reg.tag(obj)
            want['%' + n] = None
        elif kind in ('function', 'both'):
            def obj(body='', *a, **kw): return text0 + body + repr(list(a)) + repr(sorted(kw.items()))
            obj = types.FunctionType(obj.__code__, {'text0': text, 'repr': repr, 'list': list, 'sorted': sorted}, n, obj.__defaults__)
            got = reg.tag(obj)
            want['%' + n] = lambda b, text=text: text + b + "['a'][('k', 1)]"
            if kind == 'both':
                got = reg.var(obj)
                want['$' + n] = obj
        elif kind == 'var':
            obj = types.FunctionType((lambda: 1).__code__, {}, n)
            got = reg.var(obj)
            want['$' + n] = obj
        else:
            obj = rng.choice([5, 'x', [1], len, Value('v'), 0, '', Tag])
            got = reg.var(n, obj)
            want['$' + n] = obj
        if got is not obj: rec.violation('registering changed the object', repr((kind, got)), str(trace))
    rec.sig(trace)
    rec.show(str(trace))
    info = str(trace)
    if set(reg.tags) != {s[1:] for s in want if s[0] == '%'} or set(reg.vars) != {s[1:] for s in want if s[0] == '$'}: return rec.violation('names in a registry', '%s %s' % (sorted(reg.tags), sorted(reg.vars)), info)
    m = types.ModuleType('hv_registry')
    m.__tags__ = reg.tags
    m.__dict__.update(reg.vars)
    bad = rng.random() < .15 and reg.tags
    if bad: m.__tags__ = dict(reg.tags, zz=rng.choice(list(reg.tags.values())))
    sys.modules['hv_registry'] = m
    try:
        for s, v in want.items():
            how = rng.choice(['import', 'context']) if not bad else 'import'
            seen = []
            use = '%s "a" k=1 | b' % s[1:] if s[0] == '%' and v else '%s | b' % s[1:] if s[0] == '%' else '$ see(%s)' % s[1:]
            script = 'context $see%s\n%s%s' % (', ' + s if how == 'context' else '', 'from hv_registry import %s\n' % s if how == 'import' else '', use)
            kw = {s[1:]: v} if how == 'context' and s[0] == '$' else {}
            r = run_real(script, context=dict(kw, see=seen.append), tags=reg.tags if how == 'context' else None)
            rec.event()
            rec.stat(how)
            if bad:
                if r.error != 'ImportErrorEx': rec.violation('tag under another name accepted', repr(r), info)
                return rec.stat('other name')
            if r.exc is not None: return rec.violation('exception', repr(r), script + info)
            if s[0] == '$':
                if len(seen) != 1 or seen[0] is not v: return rec.violation('value of a registered variable', repr(seen), script + info)
            elif r.out != (v('b') if v else '<%s>b</%s>' % (s[1:], s[1:])): return rec.violation('output of a registered tag', repr(r.out), script + info)
    finally:
        sys.modules.pop('hv_registry', None)


@check.monitor('modules', 800, 25000, rule='the module returned by translate(): its script, file name, package, runtime, symbols by index and get(), and DOM are those of the rendering; __file__ and __package__ in the script are those passed; non-trivial: distinct script and arguments')
def modules(rng, i, rec):
    from hypertag import HyperHTML, Runtime, DOM
    class RT(HyperHTML): pass
    rt = RT()
    file = rng.choice([None, '/a/b.hy', 'rel.hy', 'x', ''])
    package = rng.choice([None, 'a', 'a.b', ''])
    vals = {n: Value(n) for n in rng.sample(['x', 'y', 'z', 'len'], rng.randint(0, 3))}
    ren = {n: rng.choice([n, n, 'r' + n]) for n in vals}
    script = '\n'.join(['context $%s%s' % (n, '' if ren[n] == n else ' as ' + ren[n]) for n in vals] + ['$f = __file__', '$g = __package__', '%H a=1', '  | $a', 'p | text'])
    m = rt.translate(script, file, package, None, **vals)
    rec.event()
    rec.sig(script, file, package)
    rec.show(script)
    want = {'$f': file, '$g': package}
    want.update({'$' + ren[n]: v for n, v in vals.items()})
    for k, v in want.items():
        if m[k] is not v or m.get(k) is not v or m.symbols[k] is not v: rec.violation('symbol of a module', '%s: %r' % (k, m[k]), script)
    if set(m.symbols) - set(want) != {'%H'}: rec.violation('symbols of a module', repr(sorted(m.symbols)), script)
    marker = object()
    if m.get('$nothing') is not None or m.get('$nothing', marker) is not marker: rec.violation('default of get()', '', script)
    try: m['$nothing']; rec.violation('no KeyError', '', script)
    except KeyError: pass
    if (m.filename, m.package, m.script) != (file, package, script) or m.runtime is not rt: rec.violation('attributes of a module', repr((m.filename, m.package, m.runtime)), script)
    if m.dom.render() != '<p>text</p>': rec.violation('DOM of a module', repr(m.dom.render()), script)
    if rt.language != 'HTML' or Runtime.language is not None: rec.violation('language', repr(rt.language), script)

from hv import regress
regress.probes(check)
