"""
Fixed scenarios of defects found in Hypertag: repaired ones (must stay repaired) and known findings (keys listed in known_findings.txt).
Each: (property, key, script, context, expected output | ('exc', class name)).
"""
from .difftest import run_real


class NoTruth:
    """A value that has no truth value, like an array, and whose comparisons give such values."""
    def __bool__(self): raise ValueError('truth value is ambiguous')
    def __str__(self): return 'nt'
    def __lt__(self, other): return self


class OneTruth:
    """A value whose truth can be tested only once."""
    def __init__(self, truth): self.truth, self.tested = truth, 0
    def __bool__(self):
        self.tested += 1
        if self.tested > 1: raise ValueError('tested again')
        return self.truth
    def __str__(self): return 'one'


SCENARIOS = [
    ('C05', 'pow-assoc', "| {2**3**2} {(2**3)**2}", {}, '512 64'),
    ('C05', 'chained-comparison', "| {1 < 3 < 2} {1 < 2 < 3} {3 > 2 == 2} {1 < 3 > 2}", {}, 'False True True True'),
    ('C05', 'keyword-prefix', "$Trueish = 1\n$Nonempty = 2\n$Falsehood = 3\n| {Trueish + Nonempty + Falsehood}", {}, '6'),
    ('C05', 'not-equal-unspaced', "$x = 3\n| {x!=4} {x!=3}\nif x!=4\n  | y", {}, 'True False\ny'),
    ('C05', 'single-tuple', "$x = 5,\n| {x} {len(x)}", {}, '(5,) 1'),
    ('C05', 'double-negation', "| {not not 5} {not not ''} {not not not []}", {}, 'True False True'),
    ('C24', 'dot-space', "$x = 'Bo'\n| Hi $x. How are you", {}, 'Hi Bo. How are you'),
    ('C05', 'dot-space', "$x = 'Bo'\n| Hi $x. How are you", {}, 'Hi Bo. How are you'),
    ('C06', 'single-target', "$x, = [7]\n| $x", {}, '7'),
    ('C06', 'single-target-loop', "for x, in [[1], [2]]\n  | $x", {}, '1\n2'),
    ('C06', 'KF-branch-assignment', "$x = 1\np\n  if True\n    $x = 2\n  | $x", {}, '<p>\n  2\n</p>'),
    ('C07', 'for-else-body', "for x in []\n  | a\nelse\n  $y = 5\n  | b{y}", {}, 'b5'),
    ('C07', 'bodyless-for-else', "for x in [1, 2, 3]\nelse\n  | b", {}, ''),
    ('C09', 'own-state', "%H @b n\n  $y = n * 10\n  p title={y}\n    @ b\n    | {y}\nH 1\n  H 2\n    | in", {}, '<p title="10">\n  <p title="20">\n    in\n    20\n  </p>\n  10\n</p>'),
    ('C10', 'body-twice', "%H @b\n  p\n    @ b\n  div\n    ul\n      @ b\nH\n  | one\n  i | two", {}, '<p>\n  one\n  <i>two</i>\n</p>\n<div>\n  <ul>\n    one\n    <i>two</i>\n  </ul>\n</div>'),
    ('C10', 'dom-slice', "%H @b\n  @ b[:1]\n  div\n    @ b[1:]\nH\n  | one\n  i | two", {}, 'one\n<div>\n  <i>two</i>\n</div>'),
    ('C13', 'dom-slice', "%H @b\n  @ b[:1]\n  div\n    @ b[1:]\nH\n  | one\n  i | two", {}, 'one\n<div>\n  <i>two</i>\n</div>'),
    ('C10', 'select-no-attrs', "%H @b\n  @ b.select('p', 'title')\nH\n  | one\n  p title='x' | two\n  p | three", {}, '<p title="x">two</p>'),
    ('C10', 'chain-outlined', "%H @b\n  div\n    @ b\nH : p\n  | a\n  | b", {}, '<div>\n  <p>\n    a\n    b\n  </p>\n</div>'),
    ('C16', 'lost-type-error', "| {len(5)}", {}, ('exc', 'TypeError')),
    ('C17', 'nbsp-indent', "p\n  | a\n   \xa0b", {}, None),
    ('C24', 'value-newlines', "p\n  | {x}", {'x': 'a\n   b\n\n c'}, '<p>\n  a\n     b\n\n   c\n</p>'),
    ('C07', 'else-no-body', "if 0\n  p\nelse\n| x", {}, 'x'),
    ('C07', 'else-no-body-loop', "for x in []\n  p\nelse\n| x", {}, 'x'),
    ('C16', 'control-inline-comment', "if 1 # c\n| x", {}, 'x'),
    ('C16', 'try-inline-comment', "for x in [1] # c\np\n  | y", {}, '<p>\n  y\n</p>'),
    ('C19', 'malformed-escape', "p title='\\U00110000'", {}, ('exc', 'SyntaxErrorEx')),
    ('C19', 'malformed-escape', "| {'\\U00110000'}", {}, ('exc', 'SyntaxErrorEx')),
    ('C20', 'list-merge', "context $v\np class=v .a", {'v': ['x']}, ('exc', 'TypeError')),
    ('C21', 'call-in-text', "%H\n  p\n    i | a\n    b | c\n| q\n/ {%H()}", {}, 'q\n<p>\n  <i>a</i>\n  <b>c</b>\n</p>'),
    ('C21', 'call-with-dom', "%H @b\n  @ b.select('p')\n  | z\n$x = %H('t')\n| $x", {}, 'z'),
    ('C25', 'no-truth', "| {x} $x {x < 1}\np title=x", lambda: {'x': NoTruth()}, 'nt nt nt\n<p title="nt"></p>'),
    ('C25', 'one-truth', "| {x and 1} {y or 1}", lambda: {'x': OneTruth(False), 'y': OneTruth(True)}, 'one one'),
    ('C05', 'no-truth', "| {1 < x < 3 if 0 else x < 3}", lambda: {'x': NoTruth()}, 'nt'),
]


def probes(check):
    """Registers a monitor of the scenarios that belong to the check's property."""
    items = [s for s in SCENARIOS if s[0] == check.prop and s[4] is not None]
    if not items: return

    @check.monitor('scenarios', len(items), len(items), rule='fixed scripts of defects found earlier, each with a known expected result')
    def scenarios(rng, i, rec):
        prop, key, script, context, expected = items[i]
        if callable(context): context = context()
        if context: script = 'context ' + ', '.join('$' + n for n in context) + '\n' + script
        r = run_real(script, context=context)
        rec.event()
        rec.sig(script)
        got = r.out if r.exc is None else ('exc', r.error)
        if got != expected: rec.violation('scenario ' + key, 'expected %r\n     got %r' % (expected, got), script, key=key)
    return scenarios
