"""Plain text reaches the output exactly once escaped, markup and verbatim text reaches it unmodified."""
from hv.core import Check
from hv import values, htmltok, regress
from hv.difftest import diff_case, run_real

check = Check('C01', ['the output is read by an independent strict HTML tokenizer and a decoder of character references',
                      'values that contain newlines are only embedded in non-indented blocks, where no indentation is added to their lines'])

TAGS = ['p', 'div', 'b', 'li', 'td', 'pre']


def place(rng, kind, embed, newline, other):
    """A script where `embed` occurs inside a text block of a given kind, between the sentinels."""
    body = 'Qa7%sQb7' % embed
    noise = lambda: rng.choice(['', 'x ', other + ' '])
    x = rng.randint(0, 13)
    if newline: x = x % 5
    k = kind
    if x == 0: return '%s %s%s' % (k, noise(), body)
    if x == 1: return 'p %s %s%s end' % (k, noise(), body)
    if x == 2: return '%s %s\n  %s%s' % (k, 'head', noise(), body)
    if x == 3: return '%%H a\n  %s %s\nH {1}' % (k, body)
    if x == 4: return '%%H @b\n  @ b\nH %s %s' % (k, body)
    if x == 5: return 'div\n  ul\n    li %s %s%s\n    li\n      %s %s' % (k, noise(), body, k, 'z')
    if x == 6: return 'for i in [1]\n  p\n    %s %s\n' % (k, body)
    if x == 7: return 'try\n  p : b %s %s%s\nelse\n  | no' % (k, noise(), body)
    if x == 8: return 'if 1 %s %s\n' % (k, body)
    if x == 9: return '%%H @b t\n  div\n    %s {t}\n    @ b\nH "x"\n  p\n    %s %s' % (k, k, body)
    if x == 10: return '?%s %s' % (k, body)
    if x == 11: return '. : %s %s' % (k, body) if False else '.\n  %s a\n    b %s\n  %s c' % (k, body, k)
    if x == 12: return 'div: %s\n  p' % ''.join([]) + '\n  %s %s' % (k, body)
    return 'section\n  < %s %s\n  ... %s more' % (k, body, k)


def segment(out):
    a = out.find('Qa7')
    b = out.find('Qb7')
    if a < 0 or b < 0 or out.count('Qa7') != 1 or out.count('Qb7') != 1: return None
    return out[a + 3:b]


def forms(rng):
    return rng.choice(['{x}', '{x}', '{ x }', '$x', '{$x}', "{'' x}", '{x : str}', "{'{x}'}", '{"$x"}', '{[x][0]}', "{x if 1 else 0}", '{x ""}', "{ {'k': x}['k'] }"])


@check.monitor('values', 6000, rule='a random hostile value is passed as a variable and embedded in a plain-text block at a random place of a script; non-trivial: contains a special character')
def values_(rng, i, rec):
    newline = rng.random() < .3
    v, s = values.any_value(rng, newline)
    form = forms(rng)
    if not isinstance(v, str) and form == '{x ""}': form = '{x}'
    if form == '{x}' and rng.random() < .1: form = '{x}' + rng.choice('?!')
    if form[-1] == '!' and not v: form = '{x}'
    if form == '$x' or form[-1] in '?!':
        form += '{""}' if form == '$x' else ''
    if form[-1] == '?' and not v: s = ''
    script = place(rng, '|', form, '\n' in s or '\r' in s, rng.choice(['&', '<', "'", '"', '>>', '&amp;']))
    r = run_real('context $x\n' + script, context={'x': v})
    rec.event()
    if any(c in s for c in '<>&"\''): rec.sig(script, s)
    rec.show('%s   x=%r' % (script, v))
    if r.exc is not None: return rec.violation('exception', repr(r) + ' for x=%r' % (v,), script)
    seg = segment(r.out)
    if seg is None: return rec.violation('lost text', 'x=%r, output %r' % (v, r.out), script)
    try: got = htmltok.decode(seg)
    except htmltok.BadHTML as ex: return rec.violation('bad escaping', '%s; x=%r, output %r' % (ex, v, r.out), script)
    if '<' in seg or '>' in seg: return rec.violation('markup injected', 'x=%r, output %r' % (v, r.out), script)
    if got != s: return rec.violation('escaped text differs', 'decodes to %r instead of %r, output %r' % (got, s, r.out), script)


@check.monitor('literals', 3000, rule='random hostile text written literally in a plain-text block; non-trivial: contains a special character')
def literals(rng, i, rec):
    s = values.text(rng, newline=False, control=False)
    embed = s.replace('{', '{{').replace('}', '}}').replace('$', '$$')
    script = place(rng, '|', embed, False, rng.choice(['&', '<', "'", '"', '>>', '&amp;']))
    r = run_real(script)
    rec.event()
    if any(c in s for c in '<>&"\''): rec.sig(script)
    rec.show(script)
    if r.exc is not None: return rec.violation('exception', repr(r), script)
    seg = segment(r.out)
    if seg is None: return rec.violation('lost text', 'output %r' % r.out, script)
    try: got = htmltok.decode(seg)
    except htmltok.BadHTML as ex: return rec.violation('bad escaping', '%s; output %r' % (ex, r.out), script)
    if '<' in seg or '>' in seg or got != s: return rec.violation('escaped text differs', 'decodes to %r instead of %r, output %r' % (got, s, r.out), script)


@check.monitor('markup', 3000, rule='the same for markup (/) and verbatim (!) blocks: the text must come out unmodified; non-trivial: contains a special character')
def markup(rng, i, rec):
    kind = rng.choice('/!')
    if kind == '/':
        newline = rng.random() < .3
        v, s = values.any_value(rng, newline)
        script = place(rng, '/', rng.choice(['{x}', '{ x }', '$x{""}', "{'' x}"]), '\n' in s or '\r' in s, 'w')
    else:
        v = s = values.text(rng, newline=False, control=False)
        script = place(rng, '!', s, False, 'w')
    if 'Qa7' in s: return
    r = run_real('context $x\n' + script, context={'x': v})
    rec.event()
    if any(c in s for c in '<>&"\''): rec.sig(script, s)
    rec.show('%s   x=%r' % (script, v))
    if r.exc is not None: return rec.violation('exception', repr(r) + ' for x=%r' % (v,), script)
    if segment(r.out) != s: return rec.violation('text modified', 'text %r, output %r' % (s, r.out), script)


ATTR_PLACES = [
    'p title={x}', 'div\n  p title={x} | z', 'div\n  ul class="q"\n    li title={x}\n      b | z', 'for i in [1]\n  div\n    p title={x}\n      | z',
    '%H @b a\n  p title={a}\n    @ b\ndiv\n  H {x}\n    i | z', 'div\n  %H @b a\n    div\n      p title={a} @ b\n  section\n    H a={x} | z', 'div : p title={x} : b | z',
    'div\n  img title={x}', 'div\n  custom "my-el" title={x} id="q" | z', 'try\n  div\n    p title={x}\n      | z', '%H @b\n  div\n    @ b\nul\n  H\n    p title={x}\n      | z',
    '.\n  p title=x\n    | z', 'div\n  if 1\n    p title=$x\n      | z', 'div\n  p title={"" x} id="q"', 'div\n  < p title={x}\n    | z', 'div\n  | text {div("z", title=x)}'.replace('{div', '{%div'),
    'div\n  / text {%p("z", title=x)}', 'div\n  p .{x} | z', 'div\n  p #{x}\n    | z', 'div : p .a .{x} .b\n  | z']

@check.monitor('attributes', 4000, rule='a random hostile value (also multi-line) is passed to an attribute of an element at some depth of a document; the tokenizer must recover exactly one such attribute, with a value that decodes to the original; non-trivial: contains a special character')
def attributes(rng, i, rec):
    v, s = values.any_value(rng)
    place = rng.choice(ATTR_PLACES)
    if isinstance(v, bool) or '.{x}' in place and not isinstance(v, str): v = s = values.text(rng)
    script = 'context $x\n' + place
    r = run_real(script, context={'x': v})
    rec.event()
    if any(c in s for c in '<>&"\'\n'): rec.sig(script, s)
    rec.show('%s   x=%r' % (script, v))
    if r.exc is not None: return rec.violation('exception', repr(r) + ' for x=%r' % (v,), script)
    out = r.out
    if '| text' in place:
        import re
        out = out.replace('&lt;', '<').replace('&gt;', '>').replace('&amp;', '&')       # a tag printed as plain text is escaped once more
    try: toks = htmltok.tokens(out)
    except htmltok.BadHTML as ex: return rec.violation('bad HTML', '%s; x=%r, output %r' % (ex, v, r.out), script)
    found = [htmltok.decode(val) if val is not None else None for t in toks if t[0] == 'start' for n, val in t[2] if n == 'title' or 'p .' in place and n == 'class' and t[1] == 'p' or 'p #' in place and n == 'id']
    want = s if '.a .' not in place else 'a %s b' % s
    if found != [want]: return rec.violation('attribute value differs', 'expected %r, got %r in %r' % ([want], found, r.out), script)
    if [t[1] for t in toks if t[0] == 'start'] != [t[1] for t in htmltok.tokens(run_real(script, context={'x': 'v'}).out.replace('&lt;', '<').replace('&gt;', '>')) if t[0] == 'start']: return rec.violation('elements differ', 'x=%r, output %r' % (v, r.out), script)


PROFILE = dict(hostile=.8, stdtags=0, text=18, mods=0, margins=.05, comments=0, attrs=.1, expr=0, pass_=0, while_=0, budget=14, maxdepth=3)

@check.monitor('documents', 1800, rule='random documents full of special characters, compared with the reference interpreter; non-trivial: the output contains a character reference')
def documents(rng, i, rec):
    ctx = {'c%d' % k: ('str', values.text(rng, newline=False)) for k in range(rng.randint(0, 2))}
    diff_case(rng, rec, PROFILE, lambda stats, script: '&' in script or '<' in script, context=ctx)


class Mark:
    pass

@check.monitor('custom-escape', 600, rule='a runtime with its own escaping function: the function sees the text of every plain-text block, and only this text, once')
def custom_escape(rng, i, rec):
    from hypertag import HyperHTML
    calls = []
    def esc(s):
        calls.append(s)
        return s.replace('<', '[LT]')
    class RT(HyperHTML):
        escape = staticmethod(esc)
    v, s = values.any_value(rng, False)
    kind = rng.choice('||/!')
    script = place(rng, kind, '{x}', True, 'w')
    r = run_real('context $x\n' + script, context={'x': v}, runtime=RT())
    rec.event(1 + len(calls))
    rec.sig(script, s)
    if r.exc is not None: return rec.violation('exception', repr(r) + ' for x=%r' % (v,), script)
    want = s.replace('<', '[LT]') if kind == '|' else s if kind == '/' else '{x}'
    if segment(r.out) != want: return rec.violation('custom escape function not applied exactly once to plain text', 'x=%r, output %r' % (v, r.out), script)

regress.probes(check)
