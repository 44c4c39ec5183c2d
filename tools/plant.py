"""
Verifies planted bugs in scratch copies of /repo:  plant.py [ID ...] [--checks own|all|C01,C02] [--seeds 1,2]
For every bug: patch applies, original lines are changed, tests pass, demo is 0 without and nonzero with the patch, and which checks catch it.
Results go to seeded/RESULTS.json.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'd844ad6'
PY = '/opt/venv/bin/python'

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    try: return subprocess.run(cmd, cwd=cwd, shell=True, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 124, '', 'timeout')

def original_lines(patch):
    """Number of removed/replaced lines of the patch that come from the original commit."""
    n = own = 0
    file = None
    for l in patch.splitlines():
        if l.startswith('--- '): file = l[4:].split('/', 1)[1]
        m = re.match(r'@@ -(\d+)', l)
        if m: pos = int(m.group(1)); continue
        if l.startswith('-') and not l.startswith('---'):
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (pos, pos), '--', file], capture_output=True, text=True).stdout
            if b.lstrip('^').startswith(BASE[:6]): n += 1
            else: own += 1
            pos += 1
        elif l.startswith(' '): pos += 1
    return n, own

def prepare(id):
    d = os.path.join(ROOT, 'seeded', id)
    tmp = '/tmp/plant/' + id
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    sh('git -C /repo archive HEAD | tar x -C %s' % tmp, '/')
    r = dict(id=id, property=json.load(open(d + '/meta.json'))['property'])
    r['demo_clean'] = sh('bash %s/demo.sh' % d, tmp).returncode
    patch = open(d + '/patch.diff').read()
    a = sh('git apply --unsafe-paths --directory=%s %s/patch.diff' % (tmp, d), '/')
    if a.returncode: a = sh('patch -p1 < %s/patch.diff' % d, tmp)
    r['applies'] = a.returncode == 0
    r['lines'] = original_lines(patch)
    x = sh('bash %s/demo.sh' % d, tmp)
    r['demo_patched'] = x.returncode
    r['demo_out'] = (x.stdout + x.stderr)[-300:]
    env = dict(PYTHONPATH=tmp + '/src', PYTHONHASHSEED='0')
    pt = PY + ' -m pytest -q -p no:cacheprovider --continue-on-collection-errors -W ignore::DeprecationWarning -rA '
    o = sh(pt + 'tests', tmp, env).stdout + sh(pt + '--doctest-modules --deselect src/hypertag/nifty/util.py::hypertag.nifty.util.timestamp src/hypertag', tmp, env).stdout
    passed = set(re.findall(r'(?m)^PASSED (\S+)', o))
    r['tests'] = len(passed)
    r['tests_ok'] = len(passed) == 47
    r['valid'] = r['demo_clean'] == 0 and r['demo_patched'] not in (0,) and r['applies'] and r['tests_ok'] and r['lines'][0] > 0
    return r

def check(id, c, seed):
    tmp = '/tmp/plant/' + id
    x = sh('%s -B run.py %s --tier quick --seed %s' % (PY, c, seed), ROOT, dict(HV_REPO=tmp, HV_EVIDENCE=tmp + '/evidence'))
    return x.returncode if x.returncode != 1 or 'VIOLATION property=' + c in x.stdout else 3

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*'); ap.add_argument('--checks', default='own'); ap.add_argument('--seeds', default='1')
    a = ap.parse_args()
    ids = a.ids or sorted(x for x in os.listdir(ROOT + '/seeded') if os.path.isdir(ROOT + '/seeded/' + x))
    path = ROOT + '/seeded/RESULTS.json'
    results = json.load(open(path)) if os.path.exists(path) else {}
    checks = sorted(f[:-3].upper() for f in os.listdir(ROOT + '/hv/checks') if re.match(r'c\d+\.py', f))
    with cf.ThreadPoolExecutor(6) as ex: prepared = list(ex.map(prepare, ids))
    for r in prepared:
        id = r['id']
        old = results.get(id, {})
        if not r['valid']: print('INVALID', id, {k: v for k, v in r.items() if k != 'id'}, flush=True)
        else:
            todo = [r['property']] if a.checks == 'own' else checks if a.checks == 'all' else a.checks.split(',')
            todo = [c for c in todo if c in checks]
            codes = {}
            for c in todo: codes[c] = [check(id, c, s) for s in a.seeds.split(',')]
            r['codes'] = dict(old.get('codes', {}), **codes)
            print('%-8s %-28s %s  lines %s' % ('caught' if all(x == 1 for x in codes.get(r['property'], [0])) else 'MISSED', id, {c: v for c, v in codes.items() if any(v) or c == r['property']}, r['lines']), flush=True)
        results[id] = r
        with open(path + '.tmp', 'w') as f: json.dump(results, f, indent=1)
        os.replace(path + '.tmp', path)
        shutil.rmtree('/tmp/plant/' + id, ignore_errors=True)
main()
