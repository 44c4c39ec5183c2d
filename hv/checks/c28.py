"""What a rendering leaves behind: files, output, process-wide settings, objects kept alive, memory."""
import gc, importlib, locale, os, random, re, signal, sys, tempfile, threading, warnings, weakref
from hv.core import Check
from hv.checks.c14 import Item, MODULES

check = Check('C28', ['objects count as released when they are gone after three full collections',
                      'a process-wide setting is one of those listed in the monitor "state"; file accesses are those reported by the audit events of Python'])

HOLDER = {
    'holder.hy': '%Hold @b a\n  div title="{a}"\n    | {a}\n  @ b\n%Twice @b\n  @ b\n  @ b\n$names = ["x"]'
}

def folder(rec):
    d = os.path.join(rec.tmp, 'left%d' % os.getpid())
    if not os.path.exists(d):
        for name, text in dict(MODULES, **HOLDER).items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f: f.write(text)
    return d


# ---------------------------------------------------------------- recording

class Audit:
    """Audit events of this process, recorded while switched on (an audit hook can't be removed)."""
    one = None
    WRITES = {'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.truncate', 'os.utime', 'os.chdir', 'os.putenv', 'os.unsetenv',
              'os.system', 'os.exec', 'os.fork', 'os.forkpty', 'os.posix_spawn', 'os.spawn', 'os.kill', 'subprocess.Popen', 'shutil.rmtree', 'shutil.move', 'shutil.copyfile',
              'socket.connect', 'socket.bind', 'socket.__new__', 'socket.getaddrinfo', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'urllib.Request'}

    def __init__(self):
        self.on = False
        self.events = []
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on or event == 'builtins.id': return
        if event == 'open':
            path, mode, flags = (tuple(args) + (None,) * 3)[:3]
            write = bool(set(mode or '') & set('wax+')) if isinstance(mode, str) else bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            self.events.append(('write' if write else 'read', path))
        elif event in self.WRITES: self.events.append((event, args))


def audit():
    if Audit.one is None: Audit.one = Audit()
    return Audit.one


def fds():
    out = {}
    for f in os.listdir('/proc/self/fd'):
        try: out[int(f)] = os.readlink('/proc/self/fd/' + f)
        except OSError: pass                # the descriptor of the listing itself
    return out


def listing(d):
    out = {}
    for p, _, names in os.walk(d):
        for n in names:
            s = os.stat(os.path.join(p, n))
            out[os.path.join(p, n)] = (s.st_size, s.st_mtime_ns, s.st_ino, s.st_mode)
        out[p] = None
    return out


MODS = ('builtins', 'math', 'json', 'itertools', 'collections', 'random', 'string', 're')

def state(d):
    st = {
        'current directory': os.getcwd(), 'environment': dict(os.environ), 'sys.path': list(sys.path), 'import hooks': (list(map(id, sys.meta_path)), list(map(id, sys.path_hooks))), 'sys.argv': list(sys.argv),
        'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(), 'trace functions': (sys.gettrace(), sys.getprofile()),
        'state of random': hash(random.getstate()), 'threads': sorted(t.ident for t in threading.enumerate()), 'filters of warnings': [tuple(map(str, f)) for f in warnings.filters], 'locale': locale.setlocale(locale.LC_ALL),
        'signal handlers': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPROF)], 'garbage collector': gc.isenabled(),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)), 'hooks': (sys.excepthook, sys.displayhook), 'umask': umask(), 'open files': fds(), 'files of the script': listing(d),
    }
    for m in MODS:
        st['module ' + m] = {k: id(v) for k, v in vars(importlib.import_module(m)).items() if k not in ('_', '__builtins__', '__warningregistry__', '_cache')}
    return st


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


class Streams:
    """Whatever is written to the descriptors 1 and 2 while active."""
    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush()
        self.f = tempfile.TemporaryFile()
        self.old = os.dup(1), os.dup(2)
        os.dup2(self.f.fileno(), 1)
        os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *a):
        try: sys.stdout.flush(); sys.stderr.flush()
        except Exception: pass
        os.dup2(self.old[0], 1)
        os.dup2(self.old[1], 2)
        os.close(self.old[0]); os.close(self.old[1])
        self.f.seek(0)
        self.text = self.f.read()
        self.f.close()


@check.monitor('state', 330, rule='random renderings (also failing ones and ones with imports) by a new or used runtime, through render, translate and parse: the process-wide settings, open descriptors, streams, modules of Python and files of the folder are compared before and after, and the files opened are those imported; non-trivial: every script')
def state_(rng, i, rec):
    from hypertag import HyperHTML
    d = folder(rec)
    rt = HyperHTML()
    au = audit()
    if rng.random() < .5: rt.render('from .shared import *\n| x', __file__=os.path.join(d, 'main.hy'))
    for k in range(3):
        it = Item(rng, simple=.6)
        if rng.random() < .25:
            it = Item.__new__(Item)
            it.script = rng.choice(['from math import $pi as p, $sin\n$p = 3\n| {p}', 'import $json, $math\n| {math}', 'from .holder import %Hold\nHold 3', 'from .holder import *\nTwice\n  | {names}\n  $names = 3',
                                    'from json import $dumps\n$dumps = 2\n| {dumps}', 'from random import $Random\n$r = Random(3)\n| {r.random()}', 'from .holder import $none', 'from .bad import *', 'from ..a.b import $x'])
            it.make, it.check = dict, lambda r: None
        if rng.random() < .12:          # a long or deep script
            it = Item.__new__(Item)
            n = rng.randint(1, 9) ** 2 * rng.choice([1, 5])
            it.script = '\n'.join('| %d' % k for k in range(n)) if rng.random() < .5 else '\n'.join(' ' * k + rng.choice(['p', 'div', 'b .x', 'ul : li', 'if 1', 'for i in [1]', 'try']) for k in range(min(n, 60))) + rng.choice([' ', '\n ?', '']) + '| {1 // %d}' % rng.choice([0, 1, 1])
            if rng.random() < .15: it.script += '\n| {no_such'
            it.make, it.check = dict, lambda r: None
        kw = it.make()
        how = rng.choice(['render', 'render', 'render', 'translate', 'parse'])
        before = state(d)
        au.events = []
        with Streams() as st:
            au.on = True
            res = None
            try:
                if how == 'parse': rt.parse(it.script) if hasattr(rt, 'parse') else None
                else: res = getattr(rt, how)(it.script, os.path.join(d, 'main.hy'), **kw)
            except Exception as ex: res = ex
            finally: au.on = False
        after = state(d)
        rec.event(len(before) + len(au.events))
        rec.stat(how + (' failed' if isinstance(res, Exception) else ''))
        rec.sig(it.script, how)
        for key in before:
            if before[key] != after[key]: return rec.violation('%s changed' % key, diff(before[key], after[key]), it.script)
        if st.text: return rec.violation('output', 'written to stdout or stderr: %r' % st.text[:500], it.script)
        reads = [str(p) for what, p in au.events if what == 'read']
        other = [e for e in au.events if e[0] != 'read']
        if other: return rec.violation('side effects', repr(other[:5])[:1000], it.script)
        rec.stat('files read', len(reads))
        for p in reads:
            if p.startswith(d):
                if os.path.splitext(os.path.basename(p))[0] not in MENTION and os.path.splitext(os.path.basename(p))[0] not in it.script: return rec.violation('an unrelated file was read', p, it.script)
            elif p.endswith('.hy'): return rec.violation('a script of another folder was read', p, it.script)
        if any(p.endswith('.hy') for p in reads) and not re.search(r'\b(from|import)\b', it.script): return rec.violation('a file was read although nothing is imported', repr(reads), it.script)
        del res
    rec.show(it.script)

MENTION = {'shared', 'outer', 'deep'}             # imported by modules


def diff(a, b):
    if isinstance(a, dict): return repr({k: (a.get(k), b.get(k)) for k in list(a) + list(b) if a.get(k) != b.get(k) or (k in a) != (k in b)})[:1500]
    return '%r\nwas %r' % (b, a) if len(repr(a)) < 1500 else 'differs'


# ---------------------------------------------------------------- objects kept alive

class Maker:
    """Creates objects and knows which of them are still alive."""
    def __init__(self):
        self.refs = []

    def __call__(self, *a, **k):
        o = Obj(self)
        self.refs.append(weakref.ref(o))
        return o

    def alive(self):
        for _ in range(3): gc.collect()
        return [r() for r in self.refs if r() is not None]


class Obj:
    n = 0
    def __init__(self, make): self.make = make
    def __str__(self): return 'obj'
    def __len__(self): return 2
    def __bool__(self): return True
    def __iter__(self): return iter([self.make(), self.make()])
    def __getitem__(self, k): return self.make()
    def __add__(self, other): return self.make()
    def __call__(self, *a, **k): return self.make()
    def __eq__(self, other): return False
    def __hash__(self): return 7
    @property
    def attr(self): return self.make()


def fragment(rng, n, depth=0, ctl=False):
    """A piece of a script that makes and uses objects."""
    def sub(c=False):               # c: inside of a control block, where no hypertag can be defined
        t = '\n'.join(fragment(rng, n * 10 + j + 1, depth + 1, ctl or c) for j in range(rng.randint(1, 2))) if depth < 3 else '| {make()}'
        return t.replace('\n', '\n  ')
    e = rng.choice(['make()', 'x', 'x.attr', 'x[1]', 'x + 1', '[make(), x][0]', '(make() if x else 0)', 'dict(a = make())["a"]', 'x("a", b = make())', '(make() : keep)', 'keep(make())', '(0 or make())'])
    forms = [
        lambda: '| {%s}' % e,
        lambda: '$v%d = %s\n| {v%d}' % (n, e, n),
        lambda: '$v%d = %s\n$v%d += 1' % (n, e, n),
        lambda: 'for o%d in %s\n  %s' % (n, rng.choice(['x', 'make()', '[make(), make()]']), sub(True)),
        lambda: 'for i, o%d in enumerate(x)\n  %s' % (n, sub(True)),
        lambda: '$c%d = 0\nwhile c%d < 2 and %s\n  $c%d += 1\n  %s' % (n, n, e, n, sub(True)),
        lambda: 'if %s\n  %s\nelse\n  | n' % (e, sub(True)),
        lambda: 'p title="{%s}"\n  %s' % (e, sub()),
        lambda: 'p title={%s}\n  %s' % (e, sub()),
        lambda: 'try\n  | {make()} {fail(%s)}\nelse\n  %s' % (e, sub(True)),
        lambda: '?p : b {fail(make())}',
        lambda: '| {fail(make())}? {%s}' % e,
        lambda: 'T {%s}\n  %s' % (e, sub()),
        lambda: '$l%d = []\n$ l%d.append(%s)' % (n, n, e),
        lambda: 'Hold {%s}\n  %s' % (e, sub()),
        lambda: 'Twice\n  %s' % sub(),
        lambda: 'custom "el" a={%s}\n  %s' % (e, sub()),
        lambda: 'section\n  %s' % sub(),
        lambda: 'unique\n  %s' % sub(),
        lambda: 'dedent | {%s}' % e,
        lambda: '$b%d = Box(%s)\n| {b%d}' % (n, e, n),
    ]
    if not ctl: forms += [
        lambda: '%%H%d @b a={%s}\n  i title="{a}"\n    @ b\n    | {make()}\nH%d\n  %s\nH%d {x} | t' % (n, e, n, sub(), n),
        lambda: '%%H%d a b=1\n  | {a}{b}{make()}\nH%d {%s} b={x}' % (n, n, e),
        lambda: '%%G%d @b n={%s}\n  p @ b[0]\n  @ b[1:]\nG%d\n  %s\n  b | u' % (n, e, n, sub()),
    ]
    return rng.choice(forms)()


@check.monitor('release', 420, rule='scripts that make and pass around objects of a class that records weak references (variables, loops, attributes, closures, imported tags, alternatives of try, caught and final exceptions), rendered by a runtime that stays alive, by render, or by translate with a dropped result: nothing that was passed in or made is alive afterwards; non-trivial: 2+ objects')
def release(rng, i, rec):
    from hypertag import HyperHTML
    d = folder(rec)
    rt = HyperHTML()
    make = Maker()
    done = []
    for k in range(rng.randint(1, 3)):
        t = 'context $x, $make, $fail, $keep, $Box, %T\nfrom .holder import %Hold, %Twice\n' + '\n'.join(fragment(rng, 10 * k + j + 1) for j in range(rng.randint(1, 4)))
        bad = rng.random()
        if bad < .12: t += '\n| {fail(make())}'
        elif bad < .18: t += '\np\n  | {no_such}'
        elif bad < .24: t += '\np\n  | {x.none.attr / 0}'
        elif bad < .28: t += '\n  p |\n x'
        mode = rng.choice(['render'] * 4 + ['translate', 'module', 'new'])
        done.append(t)
        outcome = once(rt if mode != 'new' else HyperHTML(), mode, t, d, make)
        rec.stat(mode + ' ' + outcome)
    n = len(make.refs)
    left = make.alive()
    rec.event(n)
    if n > 1: rec.sig(*done)
    rec.show(done[0])
    if left: return rec.violation('objects kept alive', '%d of %d objects are alive after the rendering, referred to by %s' % (len(left), n, referrers(left[0])), '\n-----\n'.join(done))


def referrers(o):
    try: return ', '.join(sorted({type(r).__name__ for r in gc.get_referrers(o)}))
    except Exception: return '?'


class Failure(Exception):
    def __init__(self, obj): self.obj = obj

def fail(obj): raise Failure(obj)

def keep(obj): return obj

class Box:
    def __init__(self, v): self.v = v
    def __str__(self): return '[%s]' % self.v


def ext_tag(make):
    """A tag from the outside, recorded like objects."""
    from hypertag.core.tag import Tag
    class T(Tag):
        name = 'T'
        def expand(self, body, attrs, kwattrs): return '(%s%s)' % (attrs[0] if attrs else '', body.render())
    t = T()
    make.refs.append(weakref.ref(t))
    return t


def once(rt, mode, script, d, make):
    kw = dict(x=make(), make=make, fail=fail, keep=keep, Box=Box)
    tags = {'T': ext_tag(make)}
    try:
        if mode in ('translate', 'module'):
            m = rt.translate(script, os.path.join(d, 'main.hy'), None, tags, **kw)
            make.refs.append(weakref.ref(m))
            if mode == 'module': m.dom.render()
        else: rt.render(script, os.path.join(d, 'main.hy'), None, tags, **kw)
    except Exception as ex: return type(ex).__name__
    return 'done'


@check.monitor('django', 90, rule='templates of the Django backend that use such objects, the request and the tokens of the request, rendered twice, some of them failing: the context, what was made and the request are released as soon as the result is there, although engine and template stay alive, and the context dictionary is as before; non-trivial: every template')
def django_(rng, i, rec):
    from hv.checks import c22
    c22.django(rec)
    from django.test import RequestFactory
    engine = c22.engine([])
    make = Maker()
    t = 'context $x, $make, $fail, $keep, $Box, $request, $csrf_token, $csrf_input\n%Hold @b a\n  p title="{a}"\n  @ b\n%Twice @b\n  @ b\n  @ b\n%T @b a\n  | {a}\n  @ b\n' + '\n'.join(fragment(rng, j + 1) for j in range(rng.randint(1, 3))) + '\n' + rng.choice(['| {request.path}', 'p title={csrf_token}', '/ $csrf_input', '| {fail(request)}', '$r = [request]\n| {r[0].path}', '%R a={request}\n  | {a.path}\nR'])
    tpl = engine.from_string(t)
    for k in range(2):
        ctx = dict(x=make(), make=make, fail=fail, keep=keep, Box=Box)
        keys = list(ctx)
        req = RequestFactory().get('/a%d' % k)
        make.refs.append(weakref.ref(req))
        try: tpl.render(ctx, req); rec.stat('done')
        except Exception as ex: rec.stat(type(ex).__name__)
        if list(ctx) != keys: return rec.violation('context changed', repr(list(ctx)), t)
        ctx = req = None
        left = make.alive()
        if left: return rec.violation('objects kept alive', '%d of %d objects are alive after the rendering, referred to by %s' % (len(left), len(make.refs), referrers(left[0])), t)
    rec.event(len(make.refs))
    rec.sig(t)


@check.monitor('missing', 120, rule='imports of scripts and Python modules that are not there, or are broken, or lack the symbol, in random order; the files are created or corrected afterwards, one by one, and the same runtime must then find them, because a failed import leaves no trace; non-trivial: 1+ failure before a success')
def missing(rng, i, rec):
    from hypertag import HyperHTML
    d = os.path.join(rec.tmp, 'missing%d_%d' % (os.getpid(), i))
    os.makedirs(d)
    rt = HyperHTML()
    names = ['hvm_%d_%d_%d' % (os.getpid(), i, k) for k in range(4)]
    kinds = {n: rng.choice(['hy', 'hy', 'py', 'py', 'pkg']) for n in names}
    have = {}
    failed = set()
    log = []
    sys.path.insert(0, d)
    try:
        for step in range(12):
            n = rng.choice(names)
            kind = kinds[n]
            if rng.random() < .3 and have.get(n) != 'good':
                how = have[n] = rng.choice(['good', 'good', 'broken'])
                if kind == 'hy': path, text = n + '.hy', '$x = 5' if how == 'good' else rng.choice(['$x = (', '$x = no_such', '$x = 1 / 0'])
                elif kind == 'py': path, text = n + '.py', 'x = 5\n' if how == 'good' else rng.choice(['x = (\n', 'x = 1 / 0\n', 'import hv_no_such_module_%d\n' % step])
                else: path, text = n + '/__init__.py', 'x = 5\n' if how == 'good' else 'raise ValueError(4)\n'
                os.makedirs(os.path.dirname(os.path.join(d, path)), exist_ok=True)
                with open(os.path.join(d, path), 'w') as f: f.write(text)
                os.utime(os.path.join(d, path), (10 ** 9 + step, 10 ** 9 + step))
                importlib.invalidate_caches()
                log.append('%s: %s' % (path, how))
            else:
                t = 'from %s%s import $x\n| {x}' % ('.' if kind == 'hy' and rng.random() < .5 else '', n)
                try: got = rt.render(t, os.path.join(d, 'main.hy'))
                except Exception as ex: got = type(ex).__name__
                rec.event()
                ok = have.get(n) == 'good'
                log.append('%s -> %s' % (t.split('\n')[0], got))
                if ok != (got == '5'): return rec.violation('a failed import is remembered' if ok and n in failed else 'import', '%r\n%s' % (kinds, '\n'.join(log)), t)
                if not ok:
                    failed.add(n)
                    if n not in have and got != 'ModuleNotFoundEx': return rec.violation('import of a missing module', '\n'.join(log), t)
                elif n in failed:
                    rec.sig(*log)
                    rec.stat('found after a failure, %s' % kind)
    finally:
        sys.path.remove(d)
        for n in names: sys.modules.pop(n, None)
    rec.show('\n'.join(log))


# ---------------------------------------------------------------- memory

BIG = 300000

def used():
    for _ in range(3): gc.collect()
    st = gc.get_stats()
    st = getattr(st, '_s', st)
    own = {}
    for o in gc.get_objects():
        t = type(o)
        if (t.__module__ or '').split('.')[0] in ('hypertag', 'parsimonious'): own[t.__name__] = own.get(t.__name__, 0) + 1
    return own, st.total_gc_memory


@check.monitor('growth', 16, 80, rule='one runtime renders rounds of different scripts, some of which fail: with different texts and names in every round, a long unique text in the script or in the context, or a module read from the disk: after the first rounds neither the number of objects of the library nor the memory in use grows with the number of renderings; non-trivial: every case')
def growth(rng, i, rec):
    from hypertag import HyperHTML
    d = folder(rec)
    rt = HyperHTML()
    kind = i % 4
    def job(k):
        n = '%d_%d' % (k, rng.randint(0, 10 ** 9))
        if kind == 0:           # all sorts of scripts, all names and texts are new
            s, kw = 'context $x, $make, $fail, $keep, $Box, %T\nfrom .holder import %Hold, %Twice\n' + fragment(rng, k + 1).replace('$v', '$v' + n).replace('{v', '{v' + n) + '\n| u%s {x}\n%%Z%s a\n  | {a}\nZ%s "%s"' % (n, n, n, n), dict(make=make)
        elif kind == 1:         # a long text in the script
            s, kw = 'p\n  | %s%s\n$v = "%s"' % (n, 'x' * BIG, n), {}
            if k % 3 == 0: s += '\n| {no_such}'
        elif kind == 2:         # a long value in the context
            s, kw = 'context $y\n$z = y + "%s"\np title={z}\n  | {z}\n%%H a\n  | {a}\nH {y}\ntry | {y[0] / 0}\nelse | e' % n, dict(y=n + 'y' * BIG)
        else:                   # names of files and packages
            s, kw = 'from .holder import %%Hold\nHold "%s%s"' % (n, 'z' * (BIG // 4)), {}
            if k % 2: s = 'from %sm%s%s import $x' % (('', '', 'os.')[k % 3], n, 'z' * BIG)
        return s, kw
    make = lambda *a, **k: Obj(make)
    sizes = []
    per = 6 if kind else 20
    for rnd in range(6):
        for k in range(per):
            s, kw = job(k)
            if kind == 0:
                kw = dict(kw, x=make(), fail=fail, keep=keep, Box=Box)
                tags = {'T': NOTAG()}
            else: tags = None
            try: rt.render(s, os.path.join(d, 'main.hy'), None, tags, **kw)
            except Exception as ex: rec.stat(type(ex).__name__)
            s = kw = tags = None
        sizes.append(used())
    rec.event(6 * per)
    rec.sig(kind, i)
    rec.stat('kind %d' % kind)
    own = [sum(o.values()) for o, _ in sizes]
    rec.show('objects of the library after each round: %r, memory: %r' % (own, [m for _, m in sizes]))
    # a leak adds something in each round; warming up (jit, caches of the parser) is over after the second one
    steps = [b - a for a, b in zip(own[2:], own[3:])]
    if all(s >= per / 2 for s in steps):
        a, b = sizes[2][0], sizes[-1][0]
        return rec.violation('objects accumulate', 'objects after each round of %d renderings: %r; %r' % (per, own, {t: (a.get(t, 0), b[t]) for t in b if b[t] > a.get(t, 0)}))
    mem = [m for _, m in sizes]
    steps = [b - a for a, b in zip(mem[2:], mem[3:])]
    if kind in (1, 2, 3) and all(s > per * BIG / 10 for s in steps): return rec.violation('memory accumulates', 'memory in use after each round of %d renderings: %r' % (per, mem))


def NOTAG():
    from hypertag.core.tag import TagFunction
    def T(body, *a, **k): return '(%s)' % body
    return TagFunction(T)
