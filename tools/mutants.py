"""
Systematic search for blind spots: small mutations of the library's source are applied one at a time in scratch copies; the ones that pass
the tests are run against scaled-down checks, until one of them reports a violation.   mutants.py OUT.jsonl [--files F,..] [--sample N] [--seed S] [--jobs J] [--scale X]
Mutants that no check reports are to be analysed by hand: they are equivalent, outside of all properties, or show a blind spot.
"""
import argparse, ast, concurrent.futures as cf, json, os, queue, random, re, shutil, subprocess, sys, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = 'src/hypertag/'
FILES = ['core/ast.py', 'core/dom.py', 'core/tag.py', 'core/runtime.py', 'core/structs.py', 'core/errors.py', 'core/grammar.py', 'std/builtins.py', 'std/html.py', 'std/registry.py', 'nifty/parsing.py', 'django/backend.py']
ORDER = {'core/dom.py': 'C13 C10 C04 C03 C23', 'core/tag.py': 'C26 C02 C03 C10', 'core/runtime.py': 'C27 C11 C12 C22', 'core/structs.py': 'C06 C20 C09', 'core/errors.py': 'C16 C19', 'core/grammar.py': 'C19 C18 C17 C05 C24',
         'std/builtins.py': 'C15 C27', 'std/html.py': 'C01 C02 C03', 'std/registry.py': 'C27', 'nifty/parsing.py': 'C16 C19 C18', 'django/backend.py': 'C22', 'core/ast.py': 'C06 C09 C05 C08 C25 C07 C16 C19 C03 C04'}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}

def mutants(file, text):
    """Triples (start, end, replacement) of character offsets."""
    tree = ast.parse(text)
    starts = [0]
    for l in text.split('\n'): starts.append(starts[-1] + len(l) + 1)
    lines = text.split('\n')
    def off(line, col): return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())
    def span(n): return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    def src(n): a, b = span(n); return text[a:b]
    out = []
    def put(n, new): a, b = span(n); out.append((a, b, new))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): doc.add(n.body[0]); doc.add(n.body[0].value)
    for n in ast.walk(tree):
        if n in doc: continue
        for f in n._fields:             # f-strings have no reliable positions of their parts
            pass
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            put(n, '(%s %s %s)' % (src(l), CMP[type(n.ops[0])], src(r)))
        elif isinstance(n, ast.BoolOp):
            op = ' and ' if isinstance(n.op, ast.Or) else ' or '
            put(n, '(' + op.join('(%s)' % src(v) for v in n.values) + ')')
            for i in range(len(n.values)): put(n, '(' + (' or ' if op == ' and ' else ' and ').join('(%s)' % src(v) for j, v in enumerate(n.values) if j != i) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): put(n, '(%s)' % src(n.operand))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(n, '(%s %s %s)' % (src(n.left), '-' if isinstance(n.op, ast.Add) else '+', src(n.right)))
            if isinstance(n.op, ast.Add): put(n, '(%s)' % src(n.left)); put(n, '(%s)' % src(n.right))
        elif isinstance(n, ast.Constant) and type(n.value) is int: put(n, repr(n.value + 1)); put(n, '(%r)' % (n.value - 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool: put(n, repr(not n.value))
        elif isinstance(n, ast.Constant) and type(n.value) is str and '%(' not in n.value and len(n.value) < 60 and n.col_offset >= 0: put(n, repr('' if n.value else 'x'))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, '(not (%s))' % src(n.test)); put(n.test, '(True)' if not isinstance(n, ast.While) else '(False)'); put(n.test, '(False)')
        elif isinstance(n, ast.comprehension):
            for t in n.ifs: put(t, 'True')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete)): put(n, 'pass')
        elif isinstance(n, ast.Return) and n.value is not None: put(n, 'return None')
        elif isinstance(n, (ast.Continue, ast.Break)): put(n, 'pass')
        elif isinstance(n, ast.Call):
            for i in range(len(n.args) + len(n.keywords)):
                args = [src(a) for a in n.args] + ['%s%s' % (k.arg + '=' if k.arg else '**', src(k.value)) for k in n.keywords]
                if i == len(args) - 1 and len(args) > 1:
                    del args[i]
                    put(n, '%s(%s)' % (src(n.func), ', '.join(args)))
            if isinstance(n.func, ast.Attribute) and len(n.args) == 0 or isinstance(n.func, ast.Name) and n.func.id in ('list', 'dict', 'str', 'sorted', 'reversed') and len(n.args) == 1:
                put(n, src(n.func.value) if isinstance(n.func, ast.Attribute) else '(%s)' % src(n.args[0]))
        elif isinstance(n, ast.Slice):
            pass
        elif isinstance(n, ast.ExceptHandler) and n.type is not None: put(n.type, 'ZeroDivisionError')
    res = []
    seen = set()
    for a, b, new in out:
        if text[a:b].strip() == new.strip() or (a, b, new) in seen: continue
        seen.add((a, b, new))
        t = text[:a] + new + text[b:]
        try: compile(t, file, 'exec')
        except SyntaxError: continue
        except ValueError: continue
        res.append((a, b, new))
    if file == 'core/grammar.py':
        g = text.index('grammar = '); h = text.index('###  IDENTIFIERS'); h = text.index('"""', h)
        pos = g
        for line in text[g:h].split('\n'):
            body = line.split(' #')[0]
            m = re.match(r'\s*(\w+\s*=)?', body)
            if '=' in body or body.strip().startswith('/'):
                for q in re.finditer(r'(?<=[\w)"\'])([?*+])', body[m.end():]):
                    p = pos + m.end() + q.start()
                    for new in {'?': ['', '*'], '*': ['+', '?', ''], '+': ['*', '']}[q.group(1)]: res.append((p, p + 1, new))
                for q in re.finditer(r' / [^/()\'"]+(?=/|\)|$)', body[m.end():]): res.append((pos + m.end() + q.start(), pos + m.end() + q.end(), ''))
                for q in re.finditer(r'\b(ws|space|nl)\b(?!\s*=)', body[m.end():]): res.append((pos + m.end() + q.start(), pos + m.end() + q.end(), '""' if q.group() != 'ws' else 'space'))
                for q in re.finditer(r'![\w("\']', body[m.end():]): res.append((pos + m.end() + q.start(), pos + m.end() + q.start() + 1, '&'))
            pos += len(line) + 1
    return res

def sh(cmd, cwd, env, timeout):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env)
    p = subprocess.Popen('ulimit -v 8000000; ' + cmd, cwd=cwd, shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, 'timeout'

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('--files', default=','.join(FILES)); ap.add_argument('--sample', type=int, default=10**9); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=7); ap.add_argument('--scale', default='0.15'); ap.add_argument('--list', action='store_true'); ap.add_argument('--tests-only', action='store_true'); ap.add_argument('--rev', default='HEAD'); ap.add_argument('--survivors', help='output of --tests-only')
    a = ap.parse_args()
    todo = []
    for f in a.files.split(','):
        text = subprocess.run(['git', '-C', '/repo', 'show', a.rev + ':' + SRC + f], capture_output=True, text=True, check=True).stdout
        for s, e, new in mutants(f, text): todo.append((f, s, e, new, text))
    random.Random(a.seed).shuffle(todo)
    if a.survivors:
        alive = {(d['file'], d['start'], d['end'], d['new']) for d in map(json.loads, open(a.survivors)) if d['result'] == 'survived'}
        todo = [t for t in todo if t[:4] in alive]
    todo = todo[:a.sample]
    print(len(todo), 'mutants')
    if a.list: return
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out): d = json.loads(l); done.add((d['file'], d['start'], d['end'], d['new']))
    todo = [t for t in todo if t[:4] not in done]
    checks = sorted(f[:-3].upper() for f in os.listdir(ROOT + '/hv/checks') if re.match(r'c\d+\.py', f))
    dirs = queue.Queue()
    base = '/tmp/mutants%d' % os.getpid()
    shutil.rmtree(base, ignore_errors=True)
    for k in range(a.jobs):
        d = '%s/%d' % (base, k); os.makedirs(d)
        subprocess.run('git -C /repo archive %s | tar x -C %s' % (a.rev, d), shell=True, check=True)
        dirs.put(d)
    lock = threading.Lock()
    def one(t):
        f, s, e, new, text = t
        d = dirs.get()
        try:
            path = d + '/' + SRC + f
            with open(path, 'w') as o: o.write(text[:s] + new + text[e:])
            env = dict(PYTHONPATH=d + '/src', PYTHONHASHSEED='0')
            code, o = (0, '') if a.survivors else sh(PY + ' -B -m pytest -q -x -p no:cacheprovider tests', d, env, 90)
            r = dict(file=f, line=text.count('\n', 0, s) + 1, start=s, end=e, old=text[s:e], new=new)
            if code: r['result'] = 'tests'
            elif a.tests_only: r['result'] = 'survived'
            else:
                order = ORDER[f].split()
                order += [c for c in checks if c not in order]
                r['result'] = 'UNCAUGHT'; r['odd'] = []
                for c in order:
                    code, o = sh('%s -B run.py %s --seed 1 --scale %s --workers 1' % (PY, c, a.scale), ROOT, dict(HV_REPO=d, HV_EVIDENCE=d + '/ev'), 400)
                    if code == 1 and 'VIOLATION property=' in o: r['result'] = c; break
                    if code: r['odd'].append([c, code, o[-300:]])
            with open(path, 'w') as o: o.write(text)
            with lock:
                with open(a.out, 'a') as o: o.write(json.dumps(r) + '\n')
        finally: dirs.put(d)
    with cf.ThreadPoolExecutor(a.jobs) as ex: list(ex.map(one, todo))
    shutil.rmtree(base, ignore_errors=True)
main()
