"""Differential monitor: executes a script with the real library and compares with the reference interpreter."""
import random
import re

from . import expr as X
from . import doc as D
from . import gen as G
from . import stdmodel as S

_base = None

def base_symbols():
    global _base
    if _base is None: _base = S.symbols()
    return dict(_base)


class Outcome:
    """Result of one execution: output or exception, and a log of probe events."""
    def __init__(self, out=None, exc=None, log=()):
        self.out = out
        self.exc = exc          # exception instance
        self.log = list(log)

    @property
    def error(self):
        if self.exc is None: return None
        return self.exc.name if isinstance(self.exc, X.Model) else type(self.exc).__name__

    def __repr__(self):
        return repr(self.out) if self.exc is None else 'EXC %s: %s' % (self.error, self.exc)


def run_model(blocks, context=None, probes=False, symbols=None, interp=None, modules=None, fault=None):
    """(Outcome, interpreter); context: {name: value} of variables."""
    rec = S.Recorder(fault)
    ctx = {'$' + n: v for n, v in (context or {}).items()}
    if probes: ctx.update({'$' + n: f for n, f in rec.probes().items()})
    base = base_symbols()
    for k, v in (symbols or {}).items(): ctx[k] = v
    it = (interp or D.Interp)(base, context=ctx)
    if modules is not None: it.modules = modules
    it.log = rec.log
    try:
        return Outcome(it.run(blocks), None, rec.log), it
    except OverflowError:
        raise
    except BaseException as ex:
        if not isinstance(ex, Exception) and not fault: raise
        return Outcome(None, ex, rec.log), it


def run_real(script, context=None, tags=None, runtime=None, probes=False, file=None, package=None, fault=None):
    from hypertag import HyperHTML
    rec = S.Recorder(fault)
    rt = runtime or HyperHTML()
    kw = dict(context or {})
    if probes: kw.update(rec.probes())
    try:
        return Outcome(rt.render(script, file, package, tags, **kw), None, rec.log)
    except BaseException as ex:
        if not isinstance(ex, Exception) and not fault: raise
        return Outcome(None, ex, rec.log)


def agree(model, real, log=True):
    """None if both outcomes agree, a description of the difference otherwise."""
    if (model.exc is None) != (real.exc is None): return 'expected %r\n     got %r' % (model, real)
    if model.exc is not None:
        names = [c.__name__ for c in type(real.exc).__mro__]
        if model.error == 'StopIteration' and 'RuntimeError' in names: pass         # PEP 479: Python itself makes this conversion in a generator
        elif model.error not in names: return 'expected exception %r, got %r' % (model, real)
    elif model.out != real.out: return 'expected %r\n     got %r' % (model.out, real.out)
    if model.error == 'NameError': return None                  # undefined names may be reported before anything is evaluated
    if log and model.log != real.log: return 'expected events %r\n     got events %r' % (model.log, real.log)
    return None


def write(blocks, seed, **kw):
    rng = random.Random(seed)
    vary = kw.pop('vary', 0.15)
    return D.Writer(X.Ser(rng, vary), rng, vary, **kw).script(blocks)


def compare(blocks, seed, probes=False, context=None, wkw=None, real=None, model=None):
    """(description of a difference or None, script, model outcome, interpreter, real outcome)"""
    try: script = write(blocks, seed, **(wkw or {}))
    except ValueError: return None, None, None, None, None
    try: m, it = (model or run_model)(blocks, context=context, probes=probes)
    except OverflowError: return None, script, None, None, None
    r = (real or run_real)(script, context=context, probes=probes)
    return agree(m, r), script, m, it, r


def kind(d):
    """Coarse kind of a difference, to be kept by shrinking."""
    m = re.search(r'got EXC (\w+)', d)
    n = re.search(r'expected EXC (\w+)', d)
    return (m and m.group(1), n and n.group(1), 'events' if d.startswith('expected events') else '')


def shrunk(blocks, seed, d, budget=300, **kw):
    """Smaller document that shows a difference of the same kind: (description, script)."""
    from . import shrink as SH
    def fails(bs):
        r = compare(bs, seed, **kw)
        return r[0] and ' at 0x' not in r[0] and kind(r[0]) == kind(d)
    blocks = SH.shrink(blocks, fails, budget)
    d2, script = compare(blocks, seed, **kw)[:2]
    return d2, script


def diff_case(rng, rec, profile=None, feature=None, context=None, make=None, wkw=None, accept=None, real=None, model=None, post=None):
    """
    One case of the differential monitor: a random document, or the one returned by make(generator), is executed by the library and
    by the reference interpreter. feature(stats, script): true if the case is non-trivial for the property.
    """
    g = G.DocGen(rng, profile, context)
    blocks = make(g) if make else g.document()
    probes = g.p['probes']
    ctx = {n: v for n, (_, v) in (context or {}).items()}
    seed = rng.random()
    kw = dict(probes=probes, context=ctx, wkw=wkw, real=real, model=model)
    d, script, m, it, r = compare(blocks, seed, **kw)
    if m is None:
        rec.stat('skipped')
        return None
    if accept is not None and not accept(m, it):
        rec.stat('rejected')
        return None
    rec.event(1 + len(m.log))
    rec.stat('ok' if m.exc is None else 'exc:' + str(m.error))
    for k, v in it.stats.items():
        if k[0] in ('block', 'mod', 'try', 'iter', 'expand', 'embed'):
            rec.stat(' '.join(str(x) for x in k) if k[0] != 'expand' else 'expand', v)
    if feature is None or feature(it.stats, script): rec.sig(script)
    rec.show(script)
    if d:
        try: d2, s2 = shrunk(blocks, seed, d, **kw)
        except Exception: d2, s2 = d, script
        rec.violation('output' if not d.startswith('expected exc') else 'exception', (d2 or d), s2 or script)
        return None
    if post: post(blocks, script, m, it, r, rec)
    return blocks, script, m, it, r
