"""Layout: indentation, margins, headlines and inlining follow the script."""
from hv.core import Check
from hv import regress, doc as D, expr as X, gen as G
from hv.difftest import diff_case, run_real, write, run_model

check = Check('C04')

PROFILE = dict(hostile=.1, stdtags=.03, text=14, texttail=.5, margins=.4, mods=.15, head=.45, null=3, chain=.3, comments=.05, hyper=7, def_=4, maxdepth=6, budget=24, exprdepth=1, attrs=.1, inline_ctl=.35, expr=.5)

@check.monitor('documents', 3600, rule='random documents with various indentation units, margins, headlines, tails of text, inlined and dedented blocks; compared with the reference interpreter character by character; non-trivial: 2+ lines of output')
def documents(rng, i, rec):
    diff_case(rng, rec, PROFILE, lambda stats, script: script.count('\n') > 1)


NOTAIL = dict(PROFILE, texttail=.3, mods=0, inline_ctl=0)

@check.monitor('nesting', 1500, rule='the output of a document wrapped in a tag is the original output, indented; non-trivial: 3+ lines of output')
def nesting(rng, i, rec):
    g = G.DocGen(rng, NOTAIL)
    blocks = g.document()
    seed = rng.random()
    try: script = write(blocks, seed)
    except ValueError: return
    try: m, it = run_model(blocks)
    except OverflowError: return
    if m.exc is not None or any(l.startswith('from ') for l in script.split('\n')): return
    unit = rng.choice(['  ', '    ', '\t', ' '])
    # indent all non-empty lines; lines of text are relative to the indentation of their block
    wrapped = 'section\n' + '\n'.join(unit + l if l.strip() else l for l in script.split('\n'))
    a = run_real(script)
    b = run_real(wrapped)
    rec.event(2)
    rec.show(wrapped)
    if a.exc is not None or b.exc is not None:
        return rec.violation('exception', '%r\n%r' % (a, b), wrapped)
    want = '<section>\n' + '\n'.join(unit + l if l else l for l in a.out.split('\n')) + '\n</section>'
    if a.out == '': return
    if a.out.count('\n') > 1: rec.sig(script)
    if first_inline(it): return
    if b.out != want: rec.violation('nested layout differs', 'expected %r\n     got %r' % (want, b.out), wrapped)

def first_inline(it):
    """True if the document doesn't begin with an outlined block (so there's no newline between the opening tag and the body)."""
    return not (it.items and it.items[0].outline)

regress.probes(check)
