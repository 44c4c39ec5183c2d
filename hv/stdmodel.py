"""Independent implementations of Hypertag's standard functions and tags, written from their documentation."""
import builtins as _builtins
import itertools
import re

from .doc import MMarkup, MCustom, MComment, MFun
from .expr import ProbeError


VOID = "area base br col command embed hr img input link meta param source track wbr".split()
NONVOID = """a abbr acronym address applet article aside audio b basefont bdi bdo big blockquote body button canvas caption center cite
code colgroup data datalist dd del details dfn dialog dir div dl dt em fieldset figcaption figure font footer form frame frameset
h1 h2 h3 h4 h5 h6 head header html i iframe ins kbd label legend li main map mark meter nav noframes noscript object ol optgroup
option output p picture pre progress q rp rt ruby s samp script section select small span strike strong style sub summary sup svg
table tbody td template textarea tfoot th thead time title tr tt u ul var video""".split()


def upper(s): return s.upper()
def lower(s): return s.lower()
def inline(s): return s.replace('\n', '&#10;')
def merge(s): return re.sub(r'\s+', ' ', s).strip()
def doctype(s, value='html'): return '<!DOCTYPE %s>' % value

def unique(s, strip=True):
    out = []
    for line in s.splitlines():
        if strip:
            line = line.strip()
            if not line: continue
        if line not in out: out.append(line)
    return '\n'.join(out)

def dedent(s, full=True):
    if full:
        # remove all whitespace at the beginning of lines (also entire empty lines)
        out = []
        i = 0
        start = True
        while i < len(s):
            if start:
                while i < len(s) and s[i].isspace(): i += 1
                start = False
                continue
            out.append(s[i])
            start = s[i] == '\n'
            i += 1
        return ''.join(out)
    lines = s.split('\n')
    full_lines = [l for l in lines if l.strip()]
    n = 0
    if full_lines:
        first = full_lines[0]
        while all(len(l) > n and l[n].isspace() and l[n] == first[n] for l in full_lines): n += 1
    pre = full_lines[0][:n] if full_lines else ''
    return '\n'.join(l[n:] if l.startswith(pre) else l for l in lines)

def crop(s, length=255, end='...', killwords=False, maxdrop=10, leeway=0):
    assert isinstance(s, str) and length >= len(end) and leeway >= 0
    if len(s) <= length + leeway: return s
    room = length - len(end)
    cut = s[:room]
    if not killwords:
        k = cut.rfind(' ')
        word = cut[:k] if k >= 0 else cut
        if len(word) >= room - maxdrop: cut = word
    return cut + end

def cycle(*seqs, **params):
    stop = params.pop('stop', 'first')
    if params: raise Exception('unrecognized')
    seqs = [list(s) for s in seqs]
    if not seqs: return iter([])
    if stop == 'first': n = len(seqs[0])
    elif stop == 'longest': n = max(map(len, seqs))
    else: n = None
    def gen():
        if not all(seqs): return
        i = 0
        while n is None or i < n:
            yield tuple(s[i % len(s)] for s in seqs)
            i += 1
    return gen()

def changes(seq, first=True):
    out = []
    for i, v in enumerate(seq):
        out.append((v, first if i == 0 else v != seq[i - 1] if hasattr(seq, '__getitem__') else v != out[-1][0]))
    return iter(out)


def symbols():
    """Symbols available in every script: {'$name': value, '%name': model tag}."""
    s = {}
    for name in dir(_builtins):
        s['$' + name] = getattr(_builtins, name)
    for f in (upper, lower, inline, merge, doctype, unique, dedent, crop, cycle, changes):
        s['$' + f.__name__] = f
    s['$truncate'] = crop
    for f in (upper, lower, inline, merge, doctype, unique, dedent):
        s['%' + f.__name__] = MFun(f.__name__, f)
    for n in VOID:
        for m in (n, n.upper()): s['%' + m] = MMarkup(m, True)
    for n in NONVOID:
        for m in (n, n.upper()): s['%' + m] = MMarkup(m, False)
    s['%custom'] = MCustom()
    s['%comment'] = MComment()
    return s


class Recorder:
    """Log of events from probe functions; one instance per execution."""
    def __init__(self, fault=None):
        self.log = []
        self.fault = fault          # (k, exception class): the k-th call of P raises the exception
        self.calls = 0

    def probes(self):
        log = self.log
        def P(id, value=None):
            log.append(('P', id, type(value).__name__, repr(value)))
            self.calls += 1
            if self.fault and self.calls == self.fault[0]: raise self.fault[1]('planned')
            return value
        def boom(id, *args):
            log.append(('boom', id))
            raise ProbeError(id)
        return {'P': P, 'boom': boom}
