"""Errors: class, position, propagation."""
import os, re
from hv.core import Check
from hv import gen as G, doc as D
from hv.checks.c06 import lists
from hv.difftest import run_real, run_model, write

check = Check('C16', ['errors of rendering proper (raised by tags, not by the translation of a script) carry no position', 'syntax errors name a line only',
                      'the text around the position in a message is only checked to be an excerpt of the script'])

FILL = ['a', 'two words', 'ąęść', '😀', '{{x}}', '$$', '\\n', '&amp;', '"q"', "it's", '{1}', '#', '-- x', '{[1, 2][0]}', '\xa0', 'e\u0301', '{"😀" * 2}', '.', 'a\u2028b', 'a\x0cb', 'a\x85b', 'x\x1dy', 'x\x0by', 'x\u2029y']

def fill(r, n=3):
    return ' '.join(r.choice(FILL) for _ in range(r.randint(0, n)))

def pre(r):
    f = fill(r)
    return f + ' ' if f else ''

# expressions with an undefined name; ¦ marks the position
def bad_name(r):
    return r.choice(['¦zq', '¦zq', '1 + ¦zq', 'len(¦zq)', '[1, ¦zq]', '({"k": ¦zq})', '(1, ¦zq)[0]', '"a" : ¦zq', '"a" : crop(¦zq)', '"x" ¦zq', 'not ¦zq', '-¦zq', '1 if ¦zq else 2', '[1][¦zq]', '[1][¦zq:]', '¦zq.a.b', '¦zq(1)', '"a{¦zq}b"', "'ł$¦zq'",
                     'dict(a = ¦zq)', '1 < 2 < ¦zq', 'True and ¦zq', '  ¦zq', '"ąę" + ¦zq', '%¦zq'.replace('%¦', '¦%'), 'str(1,  ¦zq )', '2 ** ¦zq', 'range(3)[¦zq]', '"a" in ¦zq', '(((¦zq)))', '[[[¦zq]]]', '1 | ¦zq', 'True or ¦zq', '1 if True else ¦zq'])

def none_expr(r):
    """An expression that must not be None where it stands."""
    return r.choice(['{¦None}', '{¦dict().get(1)}', '{¦None if True else 1}', '{"a" ¦None}', '{"a" ¦None "b"}', '{¦[None][0]}'])

def false_expr(r):
    return r.choice(['{¦0}!', '{¦""}!', '{¦[]!}', '{1 + ¦0! }', '{¦dict().get(1)!}', '{¦False and 1}!', '{¦{}!}'.replace('{}', 'dict()')])

STATIC = ['name', 'name', 'name', 'tag', 'tagexpr', 'dup', 'posarg', 'augment', 'context', 'import', 'importmod', 'defname', 'cntl']
RUNTIME = ['none', 'none', 'false', 'false', 'unbound', 'unpack', 'args', 'args', 'embed', 'notatag', 'unboundtag', 'nonestr']

def snippet(r, kind):
    """(lines with the mark ¦, class name)"""
    p = pre(r)
    q = lambda: r.choice(['p', 'div', 'div : b', 'H1', 'a href="x"', 'p .c', 'p title="ą"'])
    if kind == 'name':
        e = bad_name(r)
        plain = e == '¦zq'
        par = '(%s)' % e if any(x in e for x in (' if ', ' : ', ' | ')) else e
        return r.choice([
            lambda: ['| %s{%s}' % (p, e)], lambda: ['/ %s{%s}' % (p, e)], lambda: ['%s | %s{%s}' % (q(), p, e)], lambda: ['%s title={%s}' % (q(), e)], lambda: ['p .{%s}' % e], lambda: ['p %s title={%s} | x' % ('.b', e)],
            lambda: ['| first', '  %s{%s}' % (p, e)], lambda: ['|', '    first', '    %s{%s}' % (p, e)], lambda: ['| first', '', '', '  second', '     %s{%s}' % (p, e)], lambda: ['$v9 = %s' % par], lambda: ['$ %s' % par], lambda: ['if %s' % par, '  | x'],
            lambda: ['for k9 in %s' % par, '  | x'], lambda: ['while (%s)' % e, '  | x'], lambda: ['@ %s' % par], lambda: ['p', '  b', '    ul', '      | %s{%s}' % (p, e)], lambda: ['p', '\tb', '\t\t\t| %s{%s}' % (p, e)],
            lambda: ['try', '  | {%s}' % e], lambda: ['? p | {%s}' % e], lambda: ['if True', '  | x', 'else', '  | %s{%s}' % (p, e)], lambda: ['if False | x', 'elif (%s) | y' % e], lambda: ['for k9 in []', '  | x', 'else', '  p title={%s}' % e],
            lambda: ['p: | %s' % p.strip() or 'x', '  | {%s}' % e], lambda: ['custom "x-y" a={%s}' % e], lambda: ['$a9, b9 = 1, %s' % par], lambda: ['| %s$%s' % (p, '¦zq')], lambda: ['p $¦zq'], lambda: ['p a=$¦zq'], lambda: ['p a=¦zq.b b=1'],
            lambda: ['! x {%s}' % 'zq', '| {%s}' % e], lambda: ['# {zq}', '| {%s}' % e], lambda: ['| {%s} {zq}' % e], lambda: ['p -- {zq}', '  | {%s}' % e],
        ])(), ('NameErrorEx')
    if kind == 'defname':
        e = bad_name(r)
        return r.choice([lambda: ['%%H9 a={%s}' % e, '  | x'], lambda: ['%H9 a', '  | {%s}' % e], lambda: ['%%H9 @b a b9={%s}' % e, '  @ b'], lambda: ['%H9', '  p', '    @ ¦zq'], lambda: ['%H9 a9', '  | x', '| %s$¦a9' % p], lambda: ['%H9 a=1 | $a', 'H9 {¦zq}']])(), 'NameErrorEx'
    if kind == 'tag':
        return r.choice([lambda: ['¦zq'], lambda: ['¦zq | %s' % p], lambda: ['%s : ¦zq a=1' % q()], lambda: ['p : ¦zq : b | x'], lambda: ['%s' % q(), '  ¦zq .c', '    | x'], lambda: ['try ', '  ¦zq | x'], lambda: ['?¦zq | x'], lambda: ['for k9 in [1]', '  p', '    ¦zq'], lambda: ['¦Div'], lambda: ['¦zq "a" b=1'], lambda: ['p', '  %H9' if False else '  b', '¦H9z']])(), 'UndefinedTagEx'
    if kind == 'tagexpr': return r.choice([lambda: ['@ ¦%zq'], lambda: ['| %s{¦%%zq("a")}' % p], lambda: ['| {"a" : ¦%zq}'], lambda: ['$t9 = ¦%zq']])(), 'NameErrorEx'
    if kind == 'dup': return ['¦%%H9 %s' % r.choice(['a a', 'a b a', 'a b=1 b=2', '@b b', '@b a a=1']), '  | x'], 'SyntaxErrorEx'
    if kind == 'posarg': return r.choice([lambda: ['p a=1 ¦5'], lambda: ['custom a=1 b=2 ¦"x" | %s' % p], lambda: ['div : p .c ¦{1} a=2']])(), 'SyntaxErrorEx'
    if kind == 'augment': return ['¦$a9, b9 %s= 1' % r.choice(['+', '-', '*', '//'])], 'SyntaxErrorEx'
    if kind == 'context': return ['p', '¦context $x'] , 'SyntaxErrorEx'
    if kind == 'import': return r.choice([lambda: ['from builtins import ¦$zq'], lambda: ['from builtins import $len as l9, ¦$zq'], lambda: ['from hypertag.html import ¦%zq as t9, %p']])(), 'ImportErrorEx'
    if kind == 'importmod': return ['from no.such.module import ¦$x'], 'ModuleNotFoundEx'
    if kind == 'cntl': return r.choice([lambda: ['if 1', '  ¦%H9', '    | x'], lambda: ['for k9 in [1]', '  p', '    ¦%H9 a', '      | x'], lambda: ['try', '  ¦from builtins import $len'], lambda: ['while 0', '    ¦from builtins import $len, $max']])(), 'SyntaxErrorEx'
    if kind == 'none':
        e = none_expr(r)
        return r.choice([lambda: ['| %s%s' % (p, e)], lambda: ['%s | %s%s' % (q(), p, e)], lambda: ['p title="%s%s"' % ('' if '"' in e else 'ą ', e.replace('"', "'"))], lambda: ['| x', '   %s%s' % (p, e)], lambda: ['%H9', '  p | ' + e, 'p : H9'], lambda: ['$v9 = "a%s"' % e.replace('"', "'")], lambda: ['for k9 in [1]', '  p', '    | %s' % e], lambda: ['p {"" "a%s"}' % e.replace('"', "'")]])(), 'NoneStringEx'
    if kind == 'nonestr': return r.choice([lambda: ['p title={"a" ¦None}'], lambda: ['$x9 = "a" ¦dict().get(1) "b"'], lambda: ['$ "a" "b" ¦None']])(), 'NoneStringEx'
    if kind == 'false':
        e = false_expr(r)
        return r.choice([lambda: ['| %s%s' % (p, e)], lambda: ['%s | %s%s' % (q(), p, e)], lambda: ['%H9', '  p | ' + e, 'p : H9'], lambda: ['p title=¦{0}!'.replace('¦{', '{¦')], lambda: ['if True', '  | ' + e]])(), 'FalseValueEx'
    if kind == 'unbound':
        return r.choice([lambda: ['if False', '  $u9 = 1', '| %s{1 + ¦u9}' % p], lambda: ['for u9 in []', 'p title=$¦u9'], lambda: ['while 0', '  $u9 = 1', 'div', '  p | $¦u9'], lambda: ['if 1', '  | x', 'else', '  $u9 = 2', '$¦u9 += 1'], lambda: ['try', '  $ [][0]', '  $u9 = 1', '| %s$¦u9.a' % p]])(), 'UnboundLocalEx'
    if kind == 'unpack':
        return r.choice([lambda: ['$¦a9, b9 = [1]'], lambda: ['$¦a9, b9 = 1, 2, 3'], lambda: ['for ¦a9, b9 in [(1, 2), (3,)]', '  | x'], lambda: ['$a9, (¦b9, c9) = 1, [2]'], lambda: ['p', '  $ ¦a9, = [1, 2]'], lambda: ['for ¦a9, b9 in ["ab", "abc"]', '  $ 1']])(), 'ValueErrorEx'
    if kind == 'args':
        d, u, c = r.choice([('a', '¦H9', 'TypeErrorEx'), ('a b', '¦H9 1', 'TypeErrorEx'), ('a', '¦H9 1 2', 'TypeErrorEx'), ('', '¦H9 1', 'TypeErrorEx'), ('a=1', '¦H9 zq=2', 'TypeErrorEx'), ('a', '¦H9 1 a=2', 'TypeErrorEx'), ('@b a', '¦H9 1 b=2', 'TypeErrorEx'), ('a', '¦H9 1 | x', 'VoidTagEx'), ('', '¦H9 | x', 'VoidTagEx'), ('a=1', 'p : ¦H9 1 2', 'TypeErrorEx'), ('a', 'p : ¦H9 : b', 'TypeErrorEx'), ('@b a=1', 'p .c : ¦H9 x=5 | t', 'TypeErrorEx'), ('a', '| %s{¦%%H9("x")}' % p, 'TypeErrorEx'), ('', '| {¦%H9("x")}', 'VoidTagEx'), ('a', '| {¦%H9(None, 1, 2)}', 'TypeErrorEx')])
        return ['%H9 ' + d, '  | x', u], c
    if kind == 'embed': return r.choice([lambda: ['¦@ 5'], lambda: ['¦@ len'], lambda: ['%s' % q(), '  ¦@ None'], lambda: ['for k9 in [1]', '  p', '      ¦@ 1 + 2'], lambda: ['%H9', '  ¦@ 1.5', 'H9'], lambda: ['p ¦@ 5']])(), 'TypeErrorEx'
    if kind == 'unboundtag': return r.choice([lambda: ['$t9 = 5', '¦zq | x']])(), 'UndefinedTagEx'
    if kind == 'notatag': return ['from hypertag.html import %p as t9', '¦zq'], 'UndefinedTagEx'
    raise KeyError(kind)


MARK = 'MARKzq'

def all_lists(blocks):
    yield blocks
    for b in blocks:
        for s in D.sub_bodies(b):
            if isinstance(s, list): yield from all_lists(s)


def plant(r, lines, static, noise=True):
    """A document with the given lines planted at a random place where they are translated; (script, prefix of these lines) or None."""
    g = G.DocGen(r, dict(budget=r.choice([0, 4, 12, 20]), exprdepth=1, hostile=.3, margins=.3, comments=.15 if noise else 0, errors=0, fails=0, mods=0))
    blocks = g.document()
    try:
        if run_model(blocks)[0].exc is not None: return None
    except (ValueError, OverflowError): return None
    deff = any(l.lstrip('¦').startswith(('%', 'from')) for l in lines)
    if static and not deff: spots = list(all_lists(blocks))
    elif static: spots = list(lists(blocks))
    else: spots = list(lists(blocks))
    bs = r.choice(spots)
    k = r.randint(0, len(bs))
    new = D.Text(kind='|', lines=[('', [MARK])])
    new.margin = r.choice([0, 0, 0, 1, 2]) if k else 0
    if k == 0 and bs: bs[0].margin = 0
    bs.insert(k, new)
    try: script = write(blocks, r.random())
    except ValueError: return None
    if script.count(MARK) != 1: return None
    out = []
    for l in script.split('\n'):
        if MARK not in l: out.append(l); continue
        m = re.fullmatch(r'([ \t]*)\|\s?\s*MARKzq\s*', l)
        if not m: return None                                           # it was put into a headline
        ind = m.group(1)
        out += [ind + x if x else x for x in lines]
        out.append(ind + '| ' + 'end')
    if r.random() < .5:                                                 # lines of special text before
        head = []
        for _ in range(r.randint(1, 3)): head.append(r.choice(['| .%s.' % fill(r), 'p | .%s.' % fill(r), '', '-- c .%s.' % fill(r), '/ .%s.' % fill(r), '|\n   .%s.\n\n  .%s.' % (fill(r), fill(r))]))
        out = head + out
    if r.random() < .02: out = r.choice([['p | filler'], ['| a', ''], ['div', '  b .c | x']]) * r.choice([60, 130, 300, 600]) + out      # a long script
    return '\n'.join(out)


def split(script):
    """(script without the mark, line, column)"""
    p = script.index('¦')
    before = script[:p]
    return script[:p] + script[p + 1:], before.count('\n') + 1, p - (before.rfind('\n') + 1) + 1


POS = re.compile(r"(?: in '(?P<file>[^']*)',| at) line (?P<line>\d+), column (?P<col>\d+) \((?P<text>.*)\)$", re.S)

def verify(rec, r, cls, script, line, col, file=None):
    from hypertag.core import errors as E
    if r.exc is None: return rec.violation('error not reported', 'expected %s at %d:%d, got %r' % (cls, line, col, r), script)
    if type(r.exc).__name__ != cls: return rec.violation('wrong class of error', 'expected %s at %d:%d, got %r' % (cls, line, col, r), script)
    if not isinstance(r.exc, E.HError) or not isinstance(r.exc, getattr(__import__('builtins'), {'NameErrorEx': 'NameError', 'TypeErrorEx': 'TypeError', 'ValueErrorEx': 'ValueError', 'SyntaxErrorEx': 'SyntaxError', 'UnboundLocalEx': 'UnboundLocalError', 'ImportErrorEx': 'ImportError', 'ModuleNotFoundEx': 'ImportError'}.get(cls, 'Exception'))):
        return rec.violation('base classes of the error', '%s: %s' % (cls, type(r.exc).__mro__), script)
    m = POS.search(str(r.exc))
    if not m: return rec.violation('no position in the message', str(r.exc), script)
    if (int(m['line']), int(m['col'])) != (line, col): return rec.violation('wrong position', 'expected line %d, column %d\n%s: %s' % (line, col, cls, r.exc), script)
    if (m['file'] or None) != file: return rec.violation('wrong file', 'expected %r: %s' % (file, r.exc), script)
    text = m['text'].split('\n')[0]
    if text.endswith('...'): text = text[:-3]
    if not script.split('\n')[line - 1][col - 1:].startswith(text.rstrip()): return rec.violation('excerpt in the message', 'line %d, column %d: %r' % (line, col, m['text']), script)


@check.monitor('static', 2600, rule='a static mistake (undefined name, tag, duplicate, misplaced block, failed import ...) planted at a random place of a correct random document, with random text before it; class, base classes, line, column and excerpt in the message must be exact; non-trivial: distinct script')
def static(rng, i, rec):
    one(rng, rec, STATIC, True)

@check.monitor('runtime', 1600, rule='a mistake that shows up at run time (None in text, false obligatory value, unbound variable, wrong unpacking, wrong arguments of a hypertag, invalid embedding) planted at an executed place; class, line and column must be exact; non-trivial: distinct script')
def runtime(rng, i, rec):
    one(rng, rec, RUNTIME, False)

def one(rng, rec, kinds, static):
    kind = rng.choice(kinds)
    lines, cls = snippet(rng, kind)
    for _ in range(6):
        script = plant(rng, lines, static)
        if script: break
    else: return rec.stat('skipped')
    script, line, col = split(script)
    r = run_real(script)
    rec.event()
    rec.stat(kind)
    rec.sig(script)
    rec.show(script)
    verify(rec, r, cls, script, line, col)


BAD_LINES = ['p a=', '| {1 +}', '$x9 =', 'for in 3', '| {}', 'if', 'p {', '$1x = 2', '| {1', 'p : : b', '%', '@', '%H9 a=', '%H9 {a}', 'for x in', 'while', '$x, = ', 'p b={1', 'p {1} {2', '| a {', '| a }', '/ {x y z', 'p "a', "p 'a", '$x = [1', '$x = (1', '$x = 1 +', 'from x', 'from x import', 'from x import y', 'p .', 'p a = ', '.x', '| {"a}', '1p', 'p 1p', '$x + = 1', '$ = 5', '| {a..b}', '| {1 2 +}', '=', '*', '&lt;', '| {x[}', '| {x(1,,2)}', ') p', 'p, b', 'p a=1 | {']

BAD_LINES += r'''
| {1??}
| {1!!}
| {1?!}
| {1 ++}
| {1 ** ** 2}
| {** 2}
| {1 * / 2}
| {--1}
| {- - 1}
| {+1}
| {~1}
| {1 not 2}
| {1 is}
| {is 1}
| {not}
| {1 and}
| {or 1}
| {1 if}
| {1 if 2 else}
| {if 1 else 2}
| {1 else 2}
| {1 in}
| {1 not in}
| {1 is not}
| {x=1}
| {1 := 2}
| {[x for x in [1]]}
| {len(a=)}
| {len(=1)}
| {len(1 2 +)}
| {len(,)}
| {len(1,,2)}
| {len(,1)}
| {len(*[1])}
| {len(**{})}
| {dict(a b=1)}
| {[,]}
| {[1,,2]}
| {[,1]}
| {(,)}
| {(,1)}
| {(1,,2)}
| {{1:2}
| { {1:} }
| { {:1} }
| { {1:2,,3:4} }
| {[1}
| {1]}
| {(1]}
| {[1)}
| {(1}
| {1)}
| {1.2.3}
| {1e}
| {1e+}
| {0x1F}
| {1_000}
| {1j}
| {1L}
| {.}
| {a.}
| {.a}
| {a.1}
| {a.if}
| {a.not}
| {a . . b}
| {x[]}
| {x[1:2:3:4]}
| {x[:,]}
| {x[1}
| {'a}
| {"a'}
| {r"a}
| {f"a"}
| {b"a"}
| {u"a"}
| {"""a"""}
| {"a" + }
| {a b c +}
| {1 : 2 : }
| {1 : }
| {: len}
| {1 : len(}
| {1 : len : }
| {1 <}
| {< 1}
| {1 = 1}
| {1 === 1}
| {1 <=> 1}
| {1 =< 1}
| {1 && 2}
| {1 || 2}
| {!1}
| {1 % % 2}
| {1 @ 2}
| {1; 2}
| {1, }}
| {1\}
| {a?b}
| {a ? b : c}
| {None.}
| {True False +}
| {{1}
| {1}}
| }
| {
| a }} }
| $x[1}
$
$ 
$x =
$x = 
$ = 1
$x =+ 
$x += 
$x **=
$x => 1
$x := 1
$x = = 1
$x.y = 1
$x[0] = 1
$x() = 1
$(x) = 
$(x, = 1
$x) = 1
$x, , y = 1, 2
$, x = 1
$*x = 1
$x, *y = 1, 2
$1 = 1
$x1$ = 1
$x y = 1
$if = 1
$for = 1
$in = 1
$not = 1
$x = 1 2 +
$x = if
$x = 1 |
$x = %
$x = y = 1
%H a=
%H a =
%H a= 1 2 +
%H 1
%H "a"
%H a b=1 c d=
%H @
%H @b=1
%H .c
%H a.b
%H $a
%H a, b
%H a=*
%1H
%if
%H-a
%H.a
%H : p
%H a: b: c
%H (a)
@ 
@ 1 +
@x y +
@ | x
@ = 1
if 
if 1 +
if x =
if 1 : p
if 1 else | 2
if | x
if 1 2 +
for
for x
for x in 
for in [1]
for 1 in [1]
for x, in
for x y in [1]
for x of [1]
for x.y in [1]
for $x in [1]
for x = [1]
for (x in [1]
for x) in [1]
for x in in [1]
for *x in [1]
while 
while 1 +
while | x
try 1
try x | y
try : p
break
break 1
continue 1
continue | x
break | x
pass 1
pass | x
from
from x import 
from x import $
from x import %
from x import $y,
from x import , $y
from x import $y $z
from x import $y as
from x import $y as $z
from x import $y as z as w
from x import * as y
from x import $*
from x import %y.z
from x import ($y)
from import $x
from . import
from x y import $z
import
import x
import $x as
import $x as y as z
import x.y
import *
context $
context $x as
context $x as $y
context $x, 
context $x $y
context $x = 1
context *
context $x.y
p a =
p a =1 +
p a==1
p a=1 2 +
p =1
p = 1
p {1
p 1}
p {1} }
p ..a
p .a.b.
p . a
p .{1
p .{}
p .1 +
p a b +
p a,
p ,a
p a, b
p a=[1
p a={1
p a=(1
p a="x
p a="x' b
p a=1b
p a=1=2
p a=b=c
p :b | {
p | a : {b
p : 1
p : "b"
p : {b}
p : .c
p : $b
p / {
p : if 1
p : for x in [1]
p : %H
p ; b
p > b
p + b
p * 3
p -
p -a
p - -
1
"a"
'a'
{1}
{
}
(
)
[
]
==
+
,
;
:
: p
: | x
:p
..
.a
&
&amp;
??
?p?
?1
?| {
?? p
? ? p
?if 1
?for x in [1]
?$x = 1
?%H
?@ x +
^
~
`
"
'
\
<<
<<p
<p | {
>
>p
....p
.... p
<... p
...<p
|{
||{
/{
'''.strip('\n').split('\n')

@check.monitor('syntax', 1200, rule='one or two syntactically wrong lines planted in a correct random document; SyntaxErrorEx must name the first wrong line and quote its beginning; non-trivial: distinct script')
def syntax(rng, i, rec):
    bad = BAD_LINES[i % len(BAD_LINES)] if i < 2 * len(BAD_LINES) else rng.choice(BAD_LINES)
    if bad == '@' and rng.random() < .5: bad = '@ '
    n = rng.choice([1, 1, 2])
    for _ in range(6):
        script = plant(rng, ['¦' + bad] + [rng.choice(['', 'p | x', '| y']) for _ in range(rng.randint(0, 2))] + ([rng.choice(BAD_LINES)] if n == 2 else []), False)
        if script: break
    else: return rec.stat('skipped')
    script, line, col = split(script)
    r = run_real(script)
    rec.event()
    rec.sig(script)
    rec.show(script)
    if type(r.exc).__name__ != 'SyntaxErrorEx': return rec.violation('syntax error not reported', 'line %d, got %r' % (line, r), script)
    m = re.fullmatch(r'invalid syntax near line (\d+): (.*)', str(r.exc), re.S)
    if not m: return rec.violation('message of a syntax error', str(r.exc), script)
    if int(m[1]) != line: return rec.violation('wrong line of a syntax error', 'expected line %d: %s' % (line, r.exc), script)
    if not bad.strip().startswith(m[2].rstrip('.')): return rec.violation('excerpt of a syntax error', 'expected %r: %s' % (bad, r.exc), script)


@check.monitor('indentation', 900, rule='indentation of some lines of a random document is changed to another mixture of spaces and tabs; IndentationError must name the first line whose indentation is not compatible with the previous one, and be raised only if there is one; non-trivial: 1+ incompatible line')
def indentation(rng, i, rec):
    g = G.DocGen(rng, dict(budget=rng.choice([6, 14]), exprdepth=1, hostile=.2, margins=.2, errors=0))
    try: script = write(g.document(), rng.random())
    except ValueError: return
    if 'while' in script: return                                    # a moved line may make it endless
    lines = script.split('\n')
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.randrange(len(lines))
        body = lines[k].lstrip(' \t')
        lines[k] = ''.join(rng.choice('  \t') for _ in range(rng.randint(0, 6))) + body
    cur, want = '', None
    for n, l in enumerate(lines, 1):
        l = l.rstrip()
        if not l.lstrip(' \t'): continue
        ind = l[:len(l) - len(l.lstrip(' \t'))]
        if not (ind.startswith(cur) or cur.startswith(ind)):
            want = n
            break
        cur = ind
    script = '\n'.join(lines)
    r = run_real(script)
    rec.event()
    if want: rec.sig(script)
    bad = type(r.exc) is IndentationError
    if want is None:
        if bad: rec.violation('IndentationError without a reason', str(r.exc), script)
        return
    if not bad: return rec.violation('wrong indentation not reported', 'line %d, got %r' % (want, r), script)
    m = re.search(r'line (\d+)', str(r.exc))
    if not m or int(m[1]) != want: rec.violation('line of IndentationError', 'expected line %d: %s' % (want, r.exc), script)


class Planned(Exception):
    def __init__(self, a, b): Exception.__init__(self, a, b)

class PlannedBase(BaseException):
    pass


class Trap:
    """An object all operations of which fail."""
    def __init__(self, ex): self._ex = ex
    def _fail(self, *a, **k): raise self._ex
    __str__ = __repr__ = __iter__ = __len__ = __bool__ = __eq__ = __lt__ = __add__ = __radd__ = __getitem__ = __call__ = __contains__ = __neg__ = __iadd__ = __or__ = __mul__ = __format__ = _fail
    __hash__ = object.__hash__
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        raise self._ex


USER = ['| {f(1)}', '| a {t}', '| {t.x}', '| {t()}', '| {t[0]}', '| {t + 1}', '| {1 + t}', '| {not t}', '| {t == 1}', '| {t < 1}', '| {"a" t}', '| {1 : f}', '| {1 : f(2)}', 'p title={f(1)}', 'p title=$t', 'p .{t}', 'if t\n  | x', 'while t\n  | x', 'for x in t\n  | x', 'for x in g()\n  p | $x',
        '@ f(1)', '$x9 = f(1)', '$ f(1)', '$x9, y9 = t', '$x9 = t\n$x9 += 1', '%H9 a={f(1)}\n  | $a\np : H9', '%H9 a\n  | {f(a)}\nH9 1', '%H9 @b\n  @ b\nH9\n  | {f(1)}', 'T | x', 'p : T a=1', 'T\n  p | x', 'upper : T | x', '| {len(t)}', '| {1 in t}', '| {t and 1}', '| {t or 1}', '| {1 if t else 2}', '| {-t}', '$x9 = "a{t}"', '| {str(t)}', '| {[1, f(1)]}', '| {%T("x")}',
        '/ {f(1)}', '| {t | 1}', '| {t * 2}', 'p | {sorted([t, t])}', '| {t!}', 'for x, y in [(1, 2), t]\n  | x', 'from .modf import %M9\nM9 f']

def from_user(ex, mods):
    from hypertag import Tag
    class T(Tag):
        name = 'T'
        def expand(self, body, attrs, kwattrs): raise ex
    def f(*a): raise ex
    def g():
        yield 1
        raise ex
    return dict(f=f, t=Trap(ex), g=g), {'T': T()}


@check.monitor('propagation', 2400, rule='functions, operators, iterators, conversions and tags of the user raise exceptions of various classes at all kinds of places: the very same exception object must come out of render(), also BaseException through try blocks and ? qualifiers; non-trivial: distinct place and class')
def propagation(rng, i, rec):
    d = os.path.join(rec.tmp, 'err%d' % os.getpid())
    if not os.path.exists(d):
        os.makedirs(d)
        with open(d + '/modf.hy', 'w') as f: f.write('%M9 f\n  p\n    | {f(1)}')
    ex = rng.choice([Planned(1, 2), Planned(3, 4), ValueError('x'), KeyError('k'), TypeError('t'), NameError('n'), AttributeError('a'), UnicodeDecodeError('utf-8', b'x', 0, 1, 'r'), OSError(2, 'x'), LookupError(), IndexError(5), RecursionError('r'), AssertionError(), SyntaxError('s'), ImportError('i'),
                     PlannedBase(1), KeyboardInterrupt(), SystemExit(3), GeneratorExit(), MemoryError(), ZeroDivisionError()])
    base = not isinstance(ex, Exception)
    ctx, tags = from_user(ex, d)
    place = rng.choice(USER)
    if isinstance(ex, AttributeError) and ('t' in re.findall(r'\w+', place)): place = '| {f(1)}'
    if '%T' in place and False: return
    script = place
    if rng.random() < .5:
        imp = [l for l in script.split('\n') if l.startswith('from')]
        rest = [l for l in script.split('\n') if not l.startswith('from')]
        deff = script.startswith('%') 
        wrap = rng.choice(['p', 'div : b', '.', 'if True', 'for w9 in [1, 2]', 'T0']) if not deff else rng.choice(['p', '.'])
        script = '\n'.join(imp + [wrap] + ['  ' + l for l in rest])
    if base and rng.random() < .6 and not any(l.strip().startswith(('%', 'from')) for l in script.split('\n')):
        script = 'try\n' + '\n'.join('  ' + l for l in script.split('\n')) + '\nelse\n  | swallowed'
        if place in ('T | x', 'p : T a=1', 'T\n  p | x', 'upper : T | x'): pass
    script = 'context $f, $t, $g, %T, %T0\n' + script + '\n| end'
    from hypertag import Tag, HyperHTML
    class T0(Tag):
        name = 'T0'
        def expand(self, body, attrs, kwattrs): return body.render()
    rec.event()
    rec.sig(place, type(ex).__name__, script)
    rec.stat(type(ex).__name__)
    try: out = HyperHTML().render(script, d + '/main.hy', None, dict(tags, T0=T0()), **ctx)
    except BaseException as e:
        if e is not ex: rec.violation('exception of the user is replaced', '%r instead of %r' % (e, ex), script)
        return
    rec.violation('exception of the user is swallowed', '%r, output %r' % (ex, out), script)


@check.monitor('files', 700, rule='a mistake planted in an imported file: in its top level, in a hypertag used by the importing script, or in the arguments given by the importing script; the message names the right file, line and column; non-trivial: distinct scripts')
def files(rng, i, rec):
    d = os.path.join(rec.tmp, 'errf%d' % os.getpid())
    os.makedirs(d + '/sub', exist_ok=True)
    form = rng.choice(['static', 'runtime', 'hyper', 'hyper', 'caller', 'main'])
    pad = lambda: rng.choice(['', '\n', '# c\n\n', '$z9 = 1\n', 'p\n  b | ą\n\n', '%G9\n\t\t| x\n'])
    sub = rng.random() < .4
    mod = d + ('/sub/m.hy' if sub else '/m.hy')
    imp = 'from .sub.m import ' if sub else 'from .m import '
    main_file = d + '/main.hy'
    if form in ('static', 'runtime'):
        for _ in range(6):
            lines, cls = snippet(rng, rng.choice(STATIC if form == 'static' else RUNTIME))
            bad = plant(rng, lines, form == 'static')
            if bad: break
        else: return
        main = pad() + rng.choice([imp + '*\n| x', imp + '$zz\n| x'])
        which = 'mod'
    elif form == 'hyper':
        e, cls = rng.choice([(none_expr, 'NoneStringEx'), (false_expr, 'FalseValueEx')])
        bad = pad() + '%%H a\n  p\n%s    | %s%s' % (pad() if False else rng.choice(['', '\n', '    # c\n']), pre(rng), e(rng))
        main = pad() + imp + '%H\n' + pad() + rng.choice(['H 1', 'div\n  p : H 1', 'for i in [1]\n   H 2'])
        which = 'mod'
    elif form == 'caller':
        bad = pad() + '%H a\n  | $a'
        u, cls = rng.choice([('¦H', 'TypeErrorEx'), ('¦H 1 2', 'TypeErrorEx'), ('¦H 1 b=2', 'TypeErrorEx'), ('¦H 1 | x', 'VoidTagEx'), ('p : ¦H', 'TypeErrorEx')])
        main = pad() + imp + '%H\n' + pad() + rng.choice(['%s', 'div\n\n  %s', 'ul : li\n\t%s']) % u
        which = 'main'
    else:
        bad = '$zz = 1'
        for _ in range(6):
            lines, cls = snippet(rng, rng.choice(STATIC))
            main = plant(rng, lines, True)
            if main: break
        else: return
        which = 'main'
    if which == 'mod': bad, line, col = split(bad)
    else: main, line, col = split(main)
    with open(mod, 'w', newline='') as f: f.write(bad)
    r = run_real(main, file=main_file)
    rec.event()
    rec.stat(form)
    rec.sig(bad, main)
    rec.show(bad + '\n-----\n' + main)
    file = mod if which == 'mod' else main_file
    text = bad if which == 'mod' else main
    if r.exc is not None and 'no.such.module' in text: pass
    verify(rec, r, cls, text, line, col, file)

from hv import regress
regress.probes(check)
