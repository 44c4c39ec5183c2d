"""Imports: resolution of paths, symbols, caching, errors."""
import importlib, os, random, re, shutil, sys
from hv.core import Check
from hv import regress, doc as D, gen as G, expr as X
from hv.difftest import run_real, write, run_model, agree, base_symbols

check = Check('C11', ['trees of files are created in a scratch folder; the process has them on sys.path and as the current folder only during a case'])

PYMOD = '''
from hypertag import Tag
class T(Tag):
    def __init__(self, name, mark): self.name, self.mark = name, mark
    def expand(self, body, attrs, kwattrs): return '<%s>' % self.mark + body.render() + ','.join(map(str, attrs)) + '</%s>' % self.mark
{vars}
def fun(x): return '{id}(' + str(x) + ')'
class Cls:
    const = '{id}.const'
_private = 1
__tags__ = {{{tags}}}
'''

class Case:
    """A tree of folders with scripts and Python modules, and the model of what they export."""

    def __init__(self, rng, i, tmp):
        self.rng = rng
        self.uid = 'u%d_%d' % (os.getpid(), rng.randint(0, 10 ** 9))
        self.base = os.path.join(tmp, self.uid)
        self.root = os.path.join(self.base, 'root')
        os.makedirs(self.root)
        self.empty = os.path.join(self.base, 'empty')
        os.makedirs(self.empty)
        r = rng
        self.cwd_mode = r.random() < .3                 # scripts are found through the current folder instead of sys.path
        self.pkg_mode = not self.cwd_mode and r.random() < .45      # all folders are packages, so that the package of every script is known
        self.dirs = [()]
        for _ in range(r.randint(1, 4)):
            d = r.choice(self.dirs) + ('%s%s%d' % (r.choice(['d', 'pkg', 'sub_']), '' if r.random() < .5 else 'X', r.randint(0, 2)) + '_' + self.uid,)
            if d not in self.dirs and len(d) <= 3: self.dirs.append(d)
        self.packages = set()
        for d in self.dirs[1:]:
            os.makedirs(self.path(d))
            if r.random() < .5 and not self.cwd_mode or self.pkg_mode:
                self.packages.add(d)
                self.put(d, '__init__.py', '')
        self.log = 'log_' + self.uid
        self.put((), self.log + '.py', 'LOG = []\ndef note(x): LOG.append(x)\n')
        self.modules = []

    def path(self, d): return os.path.join(self.root, *d)

    def put(self, d, name, text):
        with open(os.path.join(self.path(d), name), 'w', encoding='utf-8') as f: f.write(text)

    def is_package(self, d):
        return d != () and all(d[:k] in self.packages for k in range(1, len(d) + 1))

    def folder(self): return self.rng.choice(self.dirs[1:] if self.pkg_mode else self.dirs)

    def path_to(self, m, ref_dir, main=True):
        """Some import path from a script in the folder `ref_dir` to the module m."""
        r = self.rng
        forms = []
        if m.hy or self.pkg_mode or main and ref_dir and not self.cwd_mode:
            k = 0
            while True:             # go up k folders
                up = ref_dir[:len(ref_dir) - k]
                if m.dir[:len(up)] == up and (self.cwd_mode or up or not k): forms.append('.' * (k + 1) + '.'.join(m.dir[len(up):] + (m.name,)))
                if k >= len(ref_dir): break
                k += 1
            if forms: forms = [forms[0], r.choice(forms)]
        absolute = '.'.join(m.dir + (m.name,))
        if m.hy:
            if self.cwd_mode or self.is_package(m.dir): forms.append(absolute)
            if m.dir[:len(ref_dir)] == ref_dir: forms.append('.'.join(m.dir[len(ref_dir):] + (m.name,)))
        else: forms.append(absolute)
        return r.choice(forms) if forms else None

    # contents of modules

    def py(self, d, name):
        r = self.rng
        m = Mod(self, d, name, False)
        vals = {'v%d' % k: r.choice(['%s.v%d' % (m.id, k), k, 7.5, True]) for k in range(r.randint(1, 3))}
        tags = ['t%s%d' % (self.short(), k) for k in range(r.randint(0, 2))]
        vals = {'%s%s' % (k, self.short()): v for k, v in vals.items()}
        self.put(d, name + '.py', PYMOD.format(id=m.id, vars='\n'.join('%s = %r' % kv for kv in vals.items()), tags=', '.join('%r: T(%r, %r)' % (t, t, m.id + t) for t in tags + ['_hid_tag'])))
        for k, v in vals.items(): m.symbols['$' + k] = str(v)
        m.symbols['$fun'] = lambda x: '%s(%s)' % (m.id, x)
        for t in tags: m.symbols['%' + t] = lambda arg, body, t=t: '<%s>%s%s</%s>' % (m.id + t, body, arg, m.id + t)
        m.private += ['$_private', '%_hid_tag']
        self.modules.append(m)
        return m

    n = 0
    def short(self):
        self.n += 1
        return 'abcdefghijklmnopqrstuvwxyz'[self.n % 26] + str(self.n)

    def imports(self, d, count, names, main=True, wild=.3):
        """Import blocks for a script in the folder d: lines; `names` is extended with imported symbols."""
        r = self.rng
        lines = []
        used = []
        for _ in range(count):
            if not self.modules: break
            m = r.choice(self.modules)
            path = self.path_to(m, d, main)
            if path is None: continue
            used.append(m)
            if r.random() < wild:
                lines.append('from %s import *' % path)
                for s, v in m.symbols.items():
                    if s[1] != '_': names[s] = v
                continue
            items = []
            for s in r.sample(list(m.symbols), min(len(m.symbols), r.randint(1, 3))):
                if r.random() < .4:
                    new = s[0] + 'as_' + self.short()
                    items.append('%s as %s' % (s, new[1:]))
                else:
                    new = s
                    items.append(s)
                names[new] = m.symbols[s]
            lines.append('from %s import %s' % (path, r.choice([', ', ',', ' , ']).join(items)))
        return lines, used

    def hy(self, d, name, nimports=None):
        r = self.rng
        m = Mod(self, d, name, True)
        names = {}
        lines, m.imports = self.imports(d, r.choice([0, 1, 1, 2]) if nimports is None else nimports, names, False)
        lines.append('from %s import $note' % self.log)
        lines.append('$ note(%r)' % m.id)
        out = dict(names)
        for k in range(r.randint(1, 3)):
            v = 'v' + self.short()
            if r.random() < .12:                        # built-in names are names like any other
                b = r.choice(BUILTIN_NAMES)
                if '$' + b not in out: v = b
            x = r.random()
            strs = [s for s, val in out.items() if s[0] == '$' and isinstance(val, str)]
            if x < .4 and strs:
                s = r.choice(strs)
                lines.append("$%s = %s '+%s'" % (v, s[1:], m.id) if r.random() < .5 else "$%s = str(%s) + '+%s'" % (v, s[1:], m.id))
                out['$' + v] = out[s] + '+' + m.id
            else:
                lines.append("$%s = '%s.%s'" % (v, m.id, v))
                out['$' + v] = '%s.%s' % (m.id, v)
        if r.random() < .4:
            lines.append('$_hidden = 1')
            m.private.append('$_hidden')
        if r.random() < .4:
            lines += ['%_hidden_tag', '  | q']
            m.private.append('%_hidden_tag')
        if r.random() < .4: lines.append('p | ignored output of the module')
        for k in range(r.randint(0, 2)):
            t = 'h' + self.short()
            tags = [s for s in out if s[0] == '%']
            strs = [s for s, val in out.items() if s[0] == '$' and isinstance(val, str)]
            v = r.choice(strs)
            inner = r.choice(tags) if tags and r.random() < .6 else None
            lines += ['%%%s @b x' % t, '  i | {x}{%s}' % v[1:]]
            if inner: lines += ['  %s {x}' % inner[1:], '    @ b']
            else: lines += ['  @ b']
            out['%' + t] = self.hyper(out[v], out[inner] if inner else None)
        self.put(d, name + '.hy', '\n'.join(lines))
        m.symbols = {s: v for s, v in out.items() if s[1] != '_'}
        m.symbols['$note'] = None
        m.source = lines
        self.modules.append(m)
        return m

    @staticmethod
    def hyper(value, inner):
        def render(arg, body):
            return '<i>%s%s</i>' % (arg, value) + (inner(arg, body) if inner else body)
        return render

    def __enter__(self):
        self.cwd = os.getcwd()
        self.sys_path = list(sys.path)
        self.sys_modules = set(sys.modules)
        importlib.invalidate_caches()
        os.chdir(self.root if self.cwd_mode else self.empty)
        sys.path.insert(0, self.root)
        sys.dont_write_bytecode = True
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        sys.path[:] = self.sys_path
        for k in set(sys.modules) - self.sys_modules:
            if self.uid in k or getattr(sys.modules[k], '__file__', None) and str(sys.modules[k].__file__).startswith(self.base): del sys.modules[k]
        shutil.rmtree(self.base, ignore_errors=True)

    def events(self):
        m = sys.modules.get(self.log)
        if m is None: return []
        ev = list(m.LOG)
        m.LOG[:] = []
        return ev


BUILTIN_NAMES = ('id', 'max', 'sorted', 'crop', 'list', 'filter')

class Mod:
    def __init__(self, case, d, name, hy):
        self.case, self.dir, self.name, self.hy = case, d, name, hy
        self.id = 'm%d' % len(case.modules)
        self.symbols, self.private, self.imports = {}, [], []

    def loads(self, done):
        """Identifiers of scripts executed when this module is imported."""
        if not self.hy or self.id in done: return []
        out = []
        for m in self.imports: out += m.loads(done)
        done.add(self.id)
        return out + [self.id]


def squash(s): return re.sub(r'\s+', '', s)

def build(rng, i, rec):
    c = Case(rng, i, rec.tmp)
    for k in range(rng.randint(2, 6)):
        d = c.folder()
        name = 'mod_%s%d_%s' % (rng.choice('abc'), k, c.uid)
        (c.hy if rng.random() < .65 else c.py)(d, name)
    return c

def main_script(c, rng, extra=None, nimports=None):
    """(lines of a main script, expected output, imported modules, imported names, folder)"""
    d = c.folder()
    names = {}
    lines, used = c.imports(d, nimports or rng.randint(1, 4), names)
    want = []
    for s, v in names.items():
        if s[0] == '$':
            if v is None: continue
            if callable(v):
                lines.append('| {%s("q")}' % s[1:])
                want.append(v('q'))
            else:
                lines.append('| {%s}' % s[1:] if rng.random() < .7 else '| {str(%s)}' % s[1:])
                want.append(v)
                if v == 'None' and lines[-1].startswith('| {' + s[1:]): lines[-1] = '| {str(%s)}' % s[1:]
        else:
            x = rng.random()
            if x < .4: lines.append('%s "z" | body' % s[1:]); want.append(v('z', 'body'))
            elif x < .7: lines += ['div', '  %s "z"' % s[1:], '    b | body']; want += ['<div>' + v('z', '<b>body</b>') + '</div>']
            elif x < .85: lines += ['div : %s "z" : b | body' % s[1:]]; want += ['<div>' + v('z', '<b>body</b>') + '</div>']
            else:
                lines += ['for k in [1, 2]', '  %s {k}' % s[1:]]
                want += [v(1, ''), v(2, '')]
    return lines, squash(''.join(want)), used, names, d


def kwargs(c, d, rng, relative_needed=True):
    path = c.path(d)
    if rng.random() < .3: path = os.path.relpath(path)
    kw = dict(file=rng.choice([os.path.normpath, str])(os.path.join(path, 'main.hy')))
    if not c.cwd_mode: kw['package'] = '.'.join(d)
    return kw

@check.monitor('trees', 1100, rule='a random tree of folders (packages or plain) with scripts and Python modules that import each other through random forms of paths; a main script uses every imported symbol; values, bodies of hypertags and tags, and the sequence of scripts executed while importing must be those predicted; then the same runtime renders again; non-trivial: 2+ modules loaded')
def trees(rng, i, rec):
    from hypertag import HyperHTML
    c = build(rng, i, rec)
    with c:
        rt = HyperHTML()
        done = set()
        for turn in range(rng.randint(1, 3)):
            lines, want, used, names, d = main_script(c, rng)
            script = '\n'.join(lines)
            expected = []
            for m in used: expected += m.loads(done)
            c.events()
            r = run_real(script, runtime=rt, **kwargs(c, d, rng))
            ev = c.events()
            rec.event(1 + len(ev))
            if len(used) > 1: rec.sig(script)
            rec.stat('cwd' if c.cwd_mode else 'packages' if c.pkg_mode else 'sys.path')
            for m in used: rec.stat('hy' if m.hy else 'py')
            rec.show(script)
            info = script + '\n\n' + '\n'.join('--- %s/%s\n%s' % ('/'.join(m.dir), m.name, '\n'.join(m.source)) for m in c.modules if m.hy)
            if r.exc is not None: return rec.violation('exception', '%r (main in %s)' % (r, d), info)
            if squash(r.out) != want: return rec.violation('imported symbols differ', 'expected %r\n     got %r' % (want, squash(r.out)), info)
            if ev != expected: return rec.violation('scripts executed', 'expected %r, got %r (turn %d)' % (expected, ev, turn), info)
        # a script in the root folder of the file system, whose imports go down to a module that is already loaded
        loaded = [m for m in c.modules if m.hy and m.id in done and any(s[0] == '$' and isinstance(v, str) for s, v in m.symbols.items())]
        if loaded and rng.random() < .3:
            m = rng.choice(loaded)
            full = os.path.abspath(os.path.join(c.path(m.dir), m.name))
            s, v = rng.choice([(s, v) for s, v in m.symbols.items() if s[0] == '$' and isinstance(v, str)])
            if '.' not in full:
                script = 'from %s%s import %s as v\n| {v}' % (rng.choice(['.', '']), full[1:].replace('/', '.'), s)
                r = run_real(script, runtime=rt, file='/main.hy', package=None)
                ev = c.events()
                rec.event()
                rec.stat('root')
                if r.exc is not None or squash(r.out) != squash(v) or ev: return rec.violation('import from a script in the root folder', 'expected %r, got %r, executed %r' % (v, r, ev), script)


@check.monitor('errors', 700, rule='one mistake planted in a correct tree of imports: missing module, missing symbol, private or unimported symbol, wrong namespace, circular import, imported script with a context block, a syntax error or a failure inside; the error must have its documented class, and a repaired import with the same runtime must work afterwards; non-trivial: every case')
def errors(rng, i, rec):
    from hypertag import HyperHTML
    c = build(rng, i, rec)
    with c:
        lines, want, used, names, d = main_script(c, rng)
        hys = [m for m in c.modules if m.hy]
        kind = rng.choice(['module', 'symbol', 'private', 'unimported', 'namespace', 'circular', 'context', 'syntax', 'failure', 'control', 'beyond', 'deep-missing', 'self'])
        m = rng.choice(c.modules)
        path = c.path_to(m, d)
        bad, error, fix = None, None, None
        if kind == 'module':
            bad, error = 'from %s import $x' % rng.choice(['.nothing', 'nothing_here', 'os.nothing', 'a.b.c', '..nothing' if d else '.n', path + '_x' if path else '.y', path + '.x' if path else '.z']), 'ModuleNotFoundEx'
            if bad.startswith('from ..'): error = 'ImportErrorEx'
        elif path and kind == 'symbol': bad, error = 'from %s import %snothing' % (path, rng.choice('$%')), 'ImportErrorEx'
        elif path and kind == 'private' and m.private:
            s = rng.choice(m.private); bad, error = ('from %s import *\n| {%s}' % (path, s[1:]), 'NameErrorEx') if s[0] == '$' else ('from %s import *\n%s' % (path, s[1:]), 'UndefinedTagEx')
        elif kind == 'unimported':
            free = [s for mm in c.modules for s in mm.symbols if s not in names and s[0] == '$' and s[1:] not in ('note', 'fun') + BUILTIN_NAMES]
            if free: bad, error = '| {%s}' % rng.choice(free)[1:], 'NameErrorEx'
            free = [s for mm in c.modules for s in mm.symbols if s not in names and s[0] == '%']
            if free and rng.random() < .5: bad, error = '%s "z"' % rng.choice(free)[1:], 'UndefinedTagEx'
        elif path and kind == 'namespace':
            s = rng.choice(list(m.symbols))
            if ('%' if s[0] == '$' else '$') + s[1:] not in m.symbols: bad, error = 'from %s import %s' % (path, ('%' if s[0] == '$' else '$') + s[1:]), 'ImportErrorEx'
        elif kind == 'circular' and hys:
            n = rng.randint(1, 3)
            cyc = ['cyc%d_%s' % (k, c.uid) for k in range(n)]
            dd = c.folder()
            for k, name in enumerate(cyc): c.put(dd, name + '.hy', '$a%d = 1\nfrom .%s import %s\n$b%d = 2' % (k, cyc[(k + 1) % n], rng.choice(['*', '$a%d' % ((k + 1) % n)]), k))
            mm = Mod(c, dd, cyc[0], True)
            p = c.path_to(mm, d)
            if p: bad, error = 'from %s import $a0' % p, 'ImportErrorEx'
            fix = lambda: (c.put(dd, cyc[-1] + '.hy', '$a%d = 1' % (n - 1)), '1')
            if p and n > 0: bad += '\n| {a0}'
        elif kind in ('context', 'syntax', 'failure'):
            dd = c.folder()
            name = 'bad_' + c.uid
            text, error = {'context': ('context $x\n$y = x', 'ImportErrorEx'), 'syntax': ('$y = 1\np | {', 'SyntaxErrorEx'), 'failure': ('$y = 1 // 0', 'ZeroDivisionError')}[kind]
            c.put(dd, name + '.hy', text)
            p = c.path_to(Mod(c, dd, name, True), d)
            if p: bad = 'from %s import $y\n| {y}' % p
            fix = lambda: (c.put(dd, name + '.hy', '$y = 5'), '5')
        elif path and kind == 'control': bad, error = 'if 1\n  from %s import *' % path, 'SyntaxErrorEx'
        elif kind == 'beyond': bad, error = 'from %sx import $y' % ('.' * 60), 'ImportErrorEx'
        elif kind == 'self':
            c.put(d, 'main.hy', 'from .main import $q\n$q = 1')
            bad, error = 'from .main import $q', 'ImportErrorEx'
        elif kind == 'deep-missing' and path:
            dd = c.folder()
            c.put(dd, 'deep_%s.hy' % c.uid, 'from .missing import $y\n$z = 1')
            p = c.path_to(Mod(c, dd, 'deep_' + c.uid, True), d)
            if p: bad, error = 'from %s import $z\n| {z}' % p, 'ModuleNotFoundEx'
            fix = lambda: (c.put(dd, 'missing.hy', '$y = 1'), '1')
        if not bad: return rec.stat('skipped')
        rec.stat(kind)
        k = rng.randint(0, len([l for l in lines if l.startswith('from')])) if kind not in ('unimported', 'private') else len(lines)
        script = '\n'.join(lines[:k] + [bad] + lines[k:])
        rt = HyperHTML()
        r = run_real(script, runtime=rt, **kwargs(c, d, rng))
        rec.event()
        rec.sig(script)
        rec.show(script)
        if r.exc is None or error not in [x.__name__ for x in type(r.exc).__mro__]: return rec.violation('error of import (%s)' % kind, 'expected %s, got %r' % (error, r), script)
        # the runtime is not damaged by the failure
        if fix:
            text = fix()[1]
            lines2 = lines + [bad]
            r = run_real('\n'.join(lines2), runtime=rt, **kwargs(c, d, rng))
            rec.event()
            if r.exc is not None or squash(r.out) != want + text: return rec.violation('repaired import (%s)' % kind, 'expected %r, got %r' % (want + text, r), '\n'.join(lines2))
        r = run_real('\n'.join(lines), runtime=rt, **kwargs(c, d, rng))
        if r.exc is not None or squash(r.out) != want: return rec.violation('import after a failure (%s)' % kind, 'expected %r, got %r' % (want, r), '\n'.join(lines))


@check.monitor('split', 700, rule='metamorphic: definitions at the beginning of a random document are moved to another script and imported back (with *, by names, or through a third script); the output must not change by a character; non-trivial: a hypertag of the module was used')
def split(rng, i, rec):
    p = dict(def_=6, hyper=14, tag=12, text=10, for_=3, if_=3, try_=1, budget=22, hostile=.1, exprdepth=1, margins=.2, texttail=.35, chain=.35, null=2)
    g = G.DocGen(rng, p)
    prefix = []
    for _ in range(rng.randint(2, 5)):
        g.budget = max(g.budget, 10)
        b = g.b_assign(0) if rng.random() < .4 else g.b_def(0)
        prefix += b if isinstance(b, list) else [b]
    own = [dict(f.vars) for f in g.frames][0]
    tags = dict(g.frames[0].tags)
    g._reserved = frozenset(own)
    g.budget = 16
    rest = []
    for _ in range(4): rest += g.blocks_at(0, False, 1)
    if tags: rest.append(g.b_hyper(0))
    for b in prefix + rest[:1]: b.margin = 0
    # names that the rest defines again are not affected by the move
    seed = rng.random()
    try:
        whole = write(prefix + rest, seed)
        a, b = write(prefix, seed), write(rest, rng.random())
    except ValueError: return rec.stat('skipped')
    whole = a + '\n' + b
    if any(l.lstrip('\n') != l for l in (a, b)): return rec.stat('skipped')
    d = os.path.join(rec.tmp, 'split%d_%d' % (os.getpid(), i))
    os.makedirs(d)
    try:
        names = ['$' + n for n in own] + ['%' + n for n in tags]
        if not names: return rec.stat('skipped')
        with open(os.path.join(d, 'mod.hy'), 'w', encoding='utf-8', newline='') as f: f.write(a)
        with open(os.path.join(d, 'mid.hy'), 'w', encoding='utf-8') as f: f.write('from .mod import *')
        imp = rng.choice(['from .mod import *', 'from .mid import *', 'from .mod import ' + ', '.join(names), 'from .mid import %s' % ','.join(names)])
        script = imp + '\n' + b
        r1 = run_real(whole)
        r2 = run_real(script, file=os.path.join(d, 'main.hy'))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.event(2)
    if any(re.search(r'(^|[\s:])%s\b' % t, b) for t in tags): rec.sig(whole)
    rec.show(whole)
    if ' at 0x' in str(r1.out) or ' at 0x' in str(r1.exc): return
    if (r1.exc is None) != (r2.exc is None) or r1.error != r2.error: return rec.violation('exception', 'inlined  %r\nimported %r' % (r1, r2), whole + '\n-----\n' + script)
    # the module starts at another line, so the first block of the rest may get no margin
    if r1.exc is None and r1.out.strip('\n') != r2.out.strip('\n'): rec.violation('output', 'inlined  %r\nimported %r' % (r1.out, r2.out), whole + '\n-----\n' + script)

regress.probes(check)
