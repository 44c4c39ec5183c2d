"""Random element trees and independent selection over them, shared by monitors of the DOM."""
from . import htmltok

TAGS = ['p', 'div', 'ul', 'li', 'i', 'b']
CLASSES = ['x', 'y', 'x y', '']
MISSING = object()


class E:
    """Element with unique id."""
    n = 0
    def __init__(self, tag, attrs, kids=(), text=None):
        self.tag, self.attrs, self.kids, self.text = tag, attrs, list(kids), text
    def walk(self, order='preorder', skip=None):
        if skip and skip(self): return
        if order == 'preorder': yield self
        for k in self.kids: yield from k.walk(order, skip)
        if order == 'postorder': yield self
    def script(self, pre=''):
        line = pre + self.tag + ''.join(' %s=%s' % (k, "'%s'" % v if isinstance(v, str) else v) for k, v in self.attrs.items())
        if self.text is not None: return line + ' | ' + self.text
        return '\n'.join([line] + [k.script(pre + '  ') for k in self.kids])
    def expected(self):
        attrs = [(k, None if v is True else str(v)) for k, v in self.attrs.items() if v is not False]
        kids = [k.expected() for k in self.kids]
        if self.text is not None: kids.append([self.text])
        return [self.tag, attrs, kids]
    def copy(self, drop=None):
        return E(self.tag, dict(self.attrs), [k.copy(drop) for k in self.kids if not (drop and drop(k))], self.text)


def rand_forest(rng, n, depth=3, uid=None):
    uid = uid if uid is not None else [0]
    return [rand_element(rng, depth, uid) for _ in range(n)]

def rand_element(rng, depth, uid):
    uid[0] += 1
    attrs = {}
    if rng.random() < .8: attrs['id'] = 'n%d' % uid[0]
    if rng.random() < .6: attrs['class'] = rng.choice(CLASSES)
    if rng.random() < .3: attrs['title'] = rng.choice(['t', 'u', 5, True, False])
    if depth > 0 and rng.random() < .6: return E(rng.choice(TAGS), attrs, [rand_element(rng, depth - 1, uid) for _ in range(rng.randint(1, 3))])
    return E(rng.choice(TAGS), attrs, text='T%d' % uid[0] if rng.random() < .7 else None)

def matches(e, tag=None, attrs=None):
    if tag is not None and e.tag != tag: return False
    for k, v in (attrs or {}).items():
        if k not in e.attrs: return False
        if v is not MISSING and e.attrs[k] != v: return False
    return True

def select(forest, tag=None, attrs=None, order='preorder'):
    return [n for e in forest for n in e.walk(order) if matches(n, tag, attrs)]

def skip(forest, tag=None, attrs=None):
    return [e.copy(lambda k: matches(k, tag, attrs)) for e in forest if not matches(e, tag, attrs)]

def constraint(rng):
    """(arguments of select/skip in Hypertag, tag, attrs)"""
    tag = rng.choice(TAGS) if rng.random() < .6 else None
    attrs, args = {}, []
    if tag: args.append(rng.choice(["'%s'", "tag='%s'", "%%%s"]) % tag)
    x = rng.random()
    kw = []
    positional = bool(args) and not args[0].startswith('tag=')
    def val():
        k = rng.choice(['class', 'title', 'id'])
        return k, rng.choice({'class': CLASSES, 'title': ['t', 'u', 5, True, False], 'id': ['n1', 'n2', 'n3']}[k])
    if x < .3 or tag is None:
        k, v = val()
        if rng.random() < .5:
            attrs[k] = MISSING
            args.append("'%s'" % k if positional else "attr='%s'" % k)
        else:
            attrs[k] = v
            if positional and rng.random() < .5: args += ["'%s'" % k, repr(v)]
            else: args += ["attr='%s'" % k, 'value=%r' % (v,)]
    elif x < .55:
        k, v = val()
        if k != 'class':
            attrs[k] = v
            args.append('%s=%r' % (k, v))
    return args, tag, attrs
