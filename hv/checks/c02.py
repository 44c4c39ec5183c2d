"""Attribute values survive the way to the output, booleans follow the HTML/XHTML convention."""
from hv.core import Check
from hv import values, htmltok, regress
from hv.difftest import diff_case, run_real

check = Check('C02', ['the output is read by an independent strict tokenizer; newline, tab and CR inside a value must come out as character references (or else they would be re-indented and normalized)'])


def attr_value(rng):
    """(value, expected attribute: text | True | None if the attribute is dropped)"""
    x = rng.random()
    if x < .55:
        s = values.text(rng)
        return s, s
    if x < .63: return True, True
    if x < .71: return False, None
    if x < .75: return None, 'None'
    if x < .8:
        v = rng.choice([0, 1, 1.0, 0.0, -5, 10 ** 18, 2.5])
        return v, str(v)
    v, s = values.any_value(rng)
    if v is True: return True, True
    if v is False: return False, None
    return v, s


def check_tag(rec, out, name, expected, script, xhtml=False, what=''):
    """The first tag of the output must have exactly the expected attributes."""
    try:
        toks = [t for t in htmltok.tokens(out) if t[0] == 'start' and t[1] == name]
        attrs = [(a, htmltok.decode(v) if v is not None else None) for a, v in toks[0][2]]
    except (htmltok.BadHTML, IndexError) as ex:
        return rec.violation('malformed tag', '%s: %s; output %r %s' % (type(ex).__name__, ex, out, what), script)
    want = []
    for a, v in expected:
        if v is None: continue
        want.append((a, (a if xhtml else None) if v is True else v))
    if attrs != want: return rec.violation('attributes differ', 'expected %r\n     got %r\n  output %r' % (want, attrs, out), script)
    for a, v in toks[0][2]:
        if v and any(c in v for c in '\n\r\t'): return rec.violation('raw whitespace', 'a newline or tab inside an attribute value: %r' % out, script)


@check.monitor('values', 6000, rule='a tag with random attributes (names, values of various types, passed as variables or literals) at a random depth; non-trivial: some value contains a special character or is a boolean')
def values_(rng, i, rec):
    from hypertag import Markup
    ctx, expected, parts, seen = {}, [], [], set()
    for k in range(rng.randint(1, 4)):
        name = values.attr_name(rng)
        if name in seen: continue
        seen.add(name)
        v, e = attr_value(rng)
        var = 'x%d' % k
        y = rng.random()
        if isinstance(v, str) and type(v) is str and y < .3 and not any(ord(c) < 32 and c not in '\n\t\r' for c in v): src = values.hy_string(rng, v)
        elif v is True or v is False and y < .5: src = repr(v)
        else:
            ctx[var] = v
            src = rng.choice(['$%s', '%s', '{%s}', '{ %s }', '{[%s][0]}', '{$%s}']) % var
        eq = rng.choice(['=', '=', '=', ' = ', '= ', ' ='])
        parts.append('%s%s%s' % (name, eq, src))
        expected.append((name, e))
    mode = rng.choice(['std', 'std', 'std', 'void', 'xhtml', 'xvoid', 'html', 'custom'])
    tags = {}
    name = {'std': rng.choice(['p', 'div', 'A', 'span', 'option']), 'void': rng.choice(['input', 'br', 'IMG']), 'custom': 'my-el'}.get(mode, 'tg')
    head = name
    if mode == 'custom': head = 'custom "my-el"'
    if mode in ('xhtml', 'xvoid'): tags['tg'] = Markup('tg', mode == 'xvoid', 'XHTML')
    if mode == 'html': tags['tg'] = Markup('tg', False, 'HTML')
    body = '' if mode in ('void', 'xvoid') else rng.choice(['', ' | text', ': | text', ' / <i>x</i>'])
    line = head + ' ' + ' '.join(parts) + ('' if body == ': | text' else '') + body.replace(': |', ' |')
    wrap = rng.randint(0, 4)
    if wrap == 1: line = 'section\n  article\n    ' + line
    if wrap == 2: line = 'for i in [1]\n  ' + line
    if wrap == 3: line = '%H @b\n  ul\n    @ b\nH\n  ' + line
    if wrap == 4: line = 'em : ' + line
    pre = []
    if ctx: pre += ['$' + n for n in ctx]
    if tags: pre += ['%' + n for n in tags]
    script = ('context ' + ', '.join(pre) + '\n' if pre else '') + line
    r = run_real(script, context=ctx, tags=tags)
    rec.event()
    rec.stat('mode ' + mode)
    if any(isinstance(e, str) and any(c in e for c in '<>&"\'\n\t') or not isinstance(e, str) for _, e in expected): rec.sig(script, expected)
    rec.show('%s   %r' % (script, ctx))
    if r.exc is not None: return rec.violation('exception', repr(r) + ' for %r' % ctx, script)
    check_tag(rec, r.out, name, expected, script, mode in ('xhtml', 'xvoid'), repr(ctx))


@check.monitor('in-function', 1500, rule='tags called as functions in expressions, and markup classes expanded directly from Python, produce the same attributes')
def in_function(rng, i, rec):
    from hypertag import Markup, DOM
    xhtml = rng.random() < .5
    void = rng.random() < .3
    kw, expected = {}, []
    for k in range(rng.randint(0, 4)):
        name = values.attr_name(rng)
        if name in kw: continue
        v, e = attr_value(rng)
        kw[name] = v
        expected.append((name, e))
    tag = Markup('tg', void, 'XHTML' if xhtml else 'HTML')
    rec.event()
    rec.sig(sorted((k, str(v)) for k, v in kw.items()), xhtml, void)
    if rng.random() < .5:
        body = DOM() if void else DOM.text('B')
        out = tag.expand(body, (), kw)
    else: out = tag(None if void else 'B', **kw) if not void else tag.expand(DOM(), [], kw)
    check_tag(rec, out, 'tg', expected, 'Markup(%r, %r).expand(%r)' % ('tg', void, kw), xhtml, '')
    if not void and not out.endswith('>B</tg>'): rec.violation('body', 'output %r' % out, None)
    if void and not out.endswith(' />'): rec.violation('void', 'output %r' % out, None)


PROFILE = dict(hostile=.6, attrs=.95, tag=25, text=6, hyper=8, margins=.05, mods=.02, stdtags=.02, voids=.2, budget=12, dupattrs=.2)

@check.monitor('documents', 1800, rule='random documents with many attributes, compared with the reference interpreter; non-trivial: has an attribute with a value')
def documents(rng, i, rec):
    ctx = {'c%d' % k: ('str', values.text(rng)) for k in range(rng.randint(0, 2))}
    p = dict(PROFILE)
    if ctx: p['text'] = 3
    diff_case(rng, rec, p, lambda stats, script: '=' in script, context=ctx, wkw=None)

regress.probes(check)
