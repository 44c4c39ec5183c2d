"""Generators of hostile values and names shared by monitors."""
from .expr import HOSTILE, WORDS

CHARS = '<>&"\'=/!-;#{}$|:%@\\?.[]()`~^*+, ' + 'abcXYZ019_' + 'ąż中😀é' + '\xa0\u2003\u200b\ufeff\u0301'
CONTROL = '\x01\x08\x0b\x0c\x1b\x1f\x7f\x85\u2028\u2029'

def text(rng, newline=True, control=True, maxlen=6, tab=True):
    """A hostile string."""
    out = []
    for _ in range(rng.randint(0, maxlen)):
        x = rng.random()
        if x < .45: out.append(rng.choice(HOSTILE))
        elif x < .6: out.append(rng.choice(WORDS))
        elif x < .75: out.append(''.join(rng.choice(CHARS) for _ in range(rng.randint(1, 6))))
        elif x < .8: out.append(chr(rng.choice([rng.randint(0x20, 0x7e), rng.randint(0xa1, 0x17f), rng.randint(0x4e00, 0x4fff), rng.randint(0x1f300, 0x1f5ff)])))
        elif x < .84 and tab: out.append('\t')
        elif x < .9 and newline: out.append(rng.choice(['\n', '\n', '\n\n', '\n  ', '\r\n', '\r']))
        elif x < .93 and control: out.append(rng.choice(CONTROL))
        else: out.append(' ')
    return ''.join(out)

class Obj:
    """Object with a custom string representation."""
    def __init__(self, s): self.s = s
    def __str__(self): return self.s
    def __repr__(self): return '<Obj %r>' % self.s

class SubStr(str):
    def __html__(self): return str(self)

def any_value(rng, newline=True):
    """(value, its expected text)"""
    x = rng.random()
    if x < .6: v = text(rng, newline)
    elif x < .65: v = Obj(text(rng, newline))
    elif x < .7: v = SubStr(text(rng, newline))
    elif x < .75: v = rng.randint(-10 ** 6, 10 ** 20)
    elif x < .8: v = rng.uniform(-1e3, 1e20)
    elif x < .85: v = [text(rng, newline), rng.randint(0, 9)]
    elif x < .9: v = {text(rng, newline): text(rng, newline)}
    elif x < .93: v = (text(rng, newline), None)
    elif x < .95: v = rng.choice([True, False])
    elif x < .97: v = text(rng, newline).encode('utf-8')
    else: v = range(rng.randint(0, 4))
    return v, str(v)

def attr_name(rng):
    """A random valid XML attribute name."""
    x = rng.random()
    if x < .5: return rng.choice(['title', 'href', 'id', 'class', 'data-x', 'xml:lang', 'aria-label', 'style', 'X', 'a1', 'on.click', 'ns:a-b', '_x', 'if', 'for', 'async', 'not'])
    s = rng.choice('abcXYZ_éż中') + ''.join(rng.choice('abcXYZ019_-.:éż中') for _ in range(rng.randint(0, 6)))
    while s[-1] in ':': s = s[:-1] + 'z'
    return s

def hy_string(rng, s):
    """A Hypertag string literal of value `s`."""
    from .expr import Ser
    return Ser(rng, 0).ser(('str', [s]))
