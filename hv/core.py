"""
Runner of monitors: generates cases, executes them in parallel worker processes, collects what the monitors observed,
decides the verdict and writes the evidence file.

Verdicts:  0 = held on everything explored,  1 = violated (VIOLATION line printed),  2 = inconclusive (too few observations).
"""
import hashlib, importlib, json, mmap, os, random, resource, select, signal, struct, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('HV_EVIDENCE') or os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')

CPU_LIMIT = 40              # CPU seconds a single case may take; typical cases take milliseconds
WALL_CAP = {'quick': 420, 'thorough': 6 * 3600}
MAX_VIOLATIONS = 6


class CaseTimeout(BaseException):
    pass


class Monitor:
    def __init__(self, name, fun, quick, thorough, rule):
        self.name = name
        self.fun = fun
        self.count = {'quick': quick, 'thorough': thorough}
        self.rule = rule


class Check:
    """A set of monitors that decide one property."""
    def __init__(self, prop, assumptions=()):
        self.prop = prop
        self.monitors = []
        self.assumptions = list(assumptions)

    def monitor(self, name, quick, thorough=None, rule=''):
        def deco(fun):
            self.monitors.append(Monitor(name, fun, quick, thorough if thorough is not None else quick * 25, rule or (fun.__doc__ or '').strip()))
            return fun
        return deco

    def get(self, name):
        for m in self.monitors:
            if m.name == name: return m
        raise KeyError(name)


class Rec:
    """Record of what was observed during one case."""
    def __init__(self):
        self.events = 0
        self.sigs = []
        self.stats = {}
        self.sample = None
        self.violations = []

    def event(self, n=1):
        self.events += n

    def sig(self, *key):
        """Mark the case (or a part of it) as non-trivial; equal keys are counted once."""
        h = hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()
        self.sigs.append(h)

    def stat(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def show(self, text):
        self.sample = text

    def violation(self, kind, detail, script=None, key=None):
        self.violations.append(dict(kind=kind, detail=str(detail)[:6000], script=script, key=key))


def case_rng(prop, monitor, seed, i):
    return random.Random('%s/%s/%s/%s' % (prop, monitor, seed, i))


_expired = 0

def _on_timer(sig, frame):
    raise CaseTimeout()


def run_case(check, mon, seed, i, limit=CPU_LIMIT):
    rec = Rec()
    rng = case_rng(check.prop, mon.name, seed, i)
    rec.tmp = os.environ.get('HV_TMP')
    old = signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        try:
            mon.fun(rng, i, rec)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except CaseTimeout:
        rec.violation('timeout', 'no result after %s s of CPU time' % limit)
    except Exception as ex:
        # the library raised an exception where the monitor expects none
        # ... or it couldn't interpret the result, although on a correct library it always can
        if isinstance(ex, (OSError, MemoryError)) and not from_library(ex): raise
        rec.violation('unexpected exception' if from_library(ex) else 'uninterpretable result', traceback.format_exc()[-3000:])
    signal.signal(signal.SIGPROF, old)
    return rec


def from_library(ex):
    import hypertag
    root = os.path.dirname(os.path.realpath(hypertag.__file__)) + os.sep
    tb = ex.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root): return True
        tb = tb.tb_next
    return False


def worker(check, plan, seed, k, n, fd, slot, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    out = os.fdopen(fd, 'w', buffering=1, encoding='utf-8')
    last = time.time()
    agg = new_agg()
    def flush():
        nonlocal agg, last
        out.write(json.dumps(agg) + '\n')
        out.flush()
        agg = new_agg()
        last = time.time()
    # monitors are interleaved, so that all of them get a share also when time runs out
    todo = [(m, list(range(k, cnt, n))) for m, cnt in plan]
    total = sum(len(l) for _, l in todo) or 1
    order = []
    for mi, (m, l) in enumerate(todo):
        for j, i in enumerate(l): order.append(((j + .5) / len(l), mi, i))
    order.sort()
    for _, mi, i in order:
        if time.time() > deadline:
            agg['cut'] += 1
            continue
        m = todo[mi][0]
        s = ('%s %d' % (m.name, i)).encode()
        slot[:len(s) + 1] = s + b'\0'
        try:
            rec = run_case(check, m, seed, i)
        except BaseException:
            agg['errors'].append([m.name, i, traceback.format_exc()[-4000:]])
            if len(agg['errors']) > 20: break
            continue
        a = agg['mon'].setdefault(m.name, dict(cases=0, events=0, sigs=[], stats={}))
        a['cases'] += 1
        a['events'] += rec.events
        a['sigs'] += rec.sigs
        for s, v in rec.stats.items(): a['stats'][str(s)] = a['stats'].get(str(s), 0) + v
        if rec.sample and (i < 3 * n and len(agg['samples']) < 8): agg['samples'].append([m.name, i, rec.sample[:1500]])
        for v in rec.violations: agg['violations'].append(dict(v, monitor=m.name, index=i, seed=seed))
        if agg['violations'] or time.time() - last > .7: flush()
    slot[:1] = b'\0'
    flush()
    out.close()


def new_agg():
    return dict(mon={}, samples=[], violations=[], errors=[], cut=0)


def known_keys(prop):
    keys = {}
    try: lines = open(KNOWN, encoding='utf-8').read().splitlines()
    except OSError: return keys
    for l in lines:
        w = l.split(None, 3)
        if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + prop and w[2].startswith('key='):
            keys[w[2][4:]] = w[3]
    return keys


def load(prop):
    return importlib.import_module('hv.checks.' + prop.lower()).check


def run(prop, tier, seed, workers=None, scale=1.0, only=None):
    t0 = time.time()
    check = load(prop)
    os.makedirs(os.path.join(EVIDENCE, 'replays'), exist_ok=True)
    n = workers or min(8, os.cpu_count() or 1)
    plan = [(m, max(1, int(m.count[tier] * scale))) for m in check.monitors if m.count[tier] and (not only or m.name == only)]
    deadline = t0 + WALL_CAP[tier]
    kids = {}
    sys.stdout.flush(); sys.stderr.flush()
    for k in range(n):
        r, w = os.pipe()
        slot = mmap.mmap(-1, 256)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for kid in kids.values(): os.close(kid['fd'])
                worker(check, plan, seed, k, n, w, slot, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        os.close(w)
        kids[r] = dict(pid=pid, fd=r, buf=b'', slot=slot, k=k)
    mons = {m.name: dict(cases=0, events=0, sigs=set(), stats={}) for m, _ in plan}
    samples, violations, errors, cut = [], [], [], 0
    known = known_keys(prop)
    seen_known = {}
    stop = False
    crashes = []
    while kids:
        ready, _, _ = select.select(list(kids), [], [], 2)
        for fd in ready:
            kid = kids[fd]
            data = os.read(fd, 1 << 16)
            if data:
                kid['buf'] += data
                *lines, kid['buf'] = kid['buf'].split(b'\n')
                for line in lines:
                    agg = json.loads(line)
                    for name, a in agg['mon'].items():
                        m = mons[name]
                        m['cases'] += a['cases']
                        m['events'] += a['events']
                        m['sigs'].update(a['sigs'])
                        for s, v in a['stats'].items(): m['stats'][s] = m['stats'].get(s, 0) + v
                    if len(samples) < 6: samples += agg['samples']
                    errors += agg['errors']
                    cut += agg['cut']
                    for v in agg['violations']:
                        if v['key'] in known: seen_known[v['key']] = known[v['key']]
                        else: violations.append(v)
            else:
                os.close(fd)
                del kids[fd]
                _, status = os.waitpid(kid['pid'], 0)
                if status and not stop:
                    cur = bytes(kid['slot'][:]).split(b'\0')[0].decode()
                    crashes.append((cur, status))
        if len(violations) >= MAX_VIOLATIONS and not stop:
            stop = True
            for kid in kids.values():
                try: os.kill(kid['pid'], signal.SIGKILL)
                except OSError: pass
        if time.time() > deadline + 300 and not stop:
            stop = True
            errors.append(['-', -1, 'workers did not stop'])
            for kid in kids.values(): os.kill(kid['pid'], signal.SIGKILL)
    for cur, status in crashes:
        # a worker process died: find out whether the case does it again, in a process of its own
        if not cur: errors.append(['-', -1, 'worker ended with status %s' % status]); continue
        name, i = cur.split()
        if confirm_crash(check, check.get(name), seed, int(i)):
            violations.append(dict(kind='crash', detail='the process was killed, status %s' % status, monitor=name, index=int(i), seed=seed, script=None, key=None))
        else: errors.append([name, int(i), 'worker died with status %s, not reproduced' % status])
    # verdict and evidence
    evaluations = sum(m['cases'] for m in mons.values())
    distinct = sum(len(m['sigs']) for m in mons.values())
    paths = []
    for j, v in enumerate(violations[:MAX_VIOLATIONS]):
        path = os.path.join(EVIDENCE, 'replays', '%s-%s-%d-%d.json' % (prop, v['monitor'], seed, v['index']))
        with open(path, 'w', encoding='utf-8') as f: json.dump(dict(v, property=prop, tier=tier), f, indent=1)
        paths.append(path)
    starved = []
    for m, cnt in plan:
        a = mons[m.name]
        if a['cases'] < max(1, cnt * .2) or not a['events']: starved.append('%s: %d of %d cases, %d events' % (m.name, a['cases'], cnt, a['events']))
    cov = dict(
        evaluations=evaluations, distinct_nontrivial=distinct,
        rule=' | '.join('%s: %s' % (m.name, m.rule) for m, _ in plan),
        samples=['[%s #%d] %s' % tuple(s) for s in samples[:6]] or ['(no sample)'],
        events_observed=sum(m['events'] for m in mons.values()),
        monitors={name: dict(cases=m['cases'], events=m['events'], distinct=len(m['sigs']), stats=dict(sorted(m['stats'].items(), key=lambda kv: -kv[1])[:60])) for name, m in mons.items()},
        cases_cut_by_time=cut, errors=errors[:5], known_findings_seen=sorted(seen_known))
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov, assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    tmp = os.path.join(EVIDENCE, '.%s.tmp' % prop)
    with open(tmp, 'w', encoding='utf-8') as f: json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(tmp, os.path.join(EVIDENCE, prop + '.json'))
    print('%s %s seed=%d: %d cases, %d events, %d distinct non-trivial, %.1f s' % (prop, tier, seed, evaluations, cov['events_observed'], distinct, time.time() - t0))
    for key, text in sorted(seen_known.items()): print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if violations:
        for v, p in list(zip(violations, paths))[:3]:
            print('--- [%s #%d] %s' % (v['monitor'], v['index'], v['kind']))
            if v['script']: print(v['script'][:1500])
            print(v['detail'][:2500])
        for p in paths[:1]: print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if errors or starved:
        for e in errors[:3]: print('ERROR [%s #%s]\n%s' % tuple(e))
        for s in starved: print('INCONCLUSIVE ' + s)
        return 2
    return 0


def confirm_crash(check, mon, seed, i):
    pid = os.fork()
    if pid == 0:
        try: run_case(check, mon, seed, i)
        except BaseException: pass
        os._exit(0)
    _, status = os.waitpid(pid, 0)
    return status != 0


def replay(path):
    v = json.load(open(path, encoding='utf-8'))
    check = load(v['property'])
    rec = run_case(check, check.get(v['monitor']), v['seed'], v['index'], limit=200)
    known = known_keys(v['property'])
    for x in rec.violations:
        print('--- %s' % x['kind'])
        if x['script']: print(x['script'])
        print(x['detail'])
    if any(x['key'] not in known for x in rec.violations):
        print('VIOLATION property=%s replay=%s' % (v['property'], path))
        return 1
    print('not reproduced')
    return 0
