"""
Abstract Hypertag documents: blocks, their serialization to a script, and a reference interpreter that predicts the output.

The interpreter follows the language description (README.md, docs/index.md), not the implementation: environments are
chains of dicts, a rendered block is a string whose lines are relative to the block's own indentation.
"""
from .expr import Model, ev, to_str, walk


# ---------------------------------------------------------------------------------------------------------------------
#  BLOCKS

class Block:
    margin = 0          # number of blank lines above
    mod = ''            # '', '<' or '...'
    noise = ()          # comment lines to be inserted above the block
    line = None         # 1-based line number in the script, set by serialization

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join('%s=%r' % kv for kv in self.__dict__.items()))


class Text(Block):
    """Text block. lines: [(extra indentation, spans)] or None for a blank line; spans: str | ('{', expr, qual) | ('$', expr)."""
    kind = '|'
    gap = ' '
    lead = None         # column (1-based) of the marker, set by serialization

class Embed(Block):
    """@ expr"""
    expr = None

class Tag(Block):
    """chain: [(name, attrs)]; attrs: ('pos', e) | ('kw', name, e) | ('short', '.'|'#', str | e). Body is one of: nothing; `text` (Text); `embed` (expr); head (Text) + body."""
    chain = ()
    text = None
    embed = None
    head = None
    colon = None        # force (True) the trailing colon
    body = ()
    unit = '  '

class Assign(Block):
    """targets: name | list of targets; op: '' or an operator."""
    targets = None
    op = ''
    expr = None

class Expr(Block):
    expr = None

class If(Block):
    """clauses: [(cond, Body)]; else_: Body | None"""
    clauses = ()
    else_ = None

class For(Block):
    targets = None
    expr = None
    body = None
    else_ = None

class While(Block):
    cond = None
    body = None
    else_ = None

class Try(Block):
    """branches: [Body]"""
    branches = ()

class Short(Block):
    """?tag or ?|text; block: Tag | Text"""
    block = None

class Def(Block):
    """params: [(name, default | None)]; bodyattr: name | None; same kinds of body as Tag"""
    name = None
    bodyattr = None
    params = ()
    text = None
    embed = None
    head = None
    colon = None
    body = ()
    unit = '  '

class Pass(Block):
    pass

class Context(Block):
    """items: [(symbol, rename | None)]"""
    items = ()

class Import(Block):
    path = None
    items = ()          # [(symbol, rename | None)] or '*'

class Body:
    """Body of a control clause: blocks (list) or text (Text)."""
    def __init__(self, blocks=None, text=None, unit='  ', colon=None):
        self.blocks = blocks
        self.text = text
        self.unit = unit
        self.colon = colon
    def __repr__(self):
        return 'Body(%r, %r)' % (self.blocks, self.text)


def sub_bodies(b):
    """Lists of blocks nested directly in block `b`."""
    out = []
    if isinstance(b, (Tag, Def)): out.append(b.body)
    if isinstance(b, If): out += [x.blocks for _, x in b.clauses if x.blocks] + ([b.else_.blocks] if b.else_ and b.else_.blocks else [])
    if isinstance(b, (For, While)): out += [x.blocks for x in (b.body, b.else_) if x and x.blocks]
    if isinstance(b, Try): out += [x.blocks for x in b.branches if x.blocks]
    if isinstance(b, Short): out += sub_bodies(b.block)
    return [x for x in out if x]

def walk_blocks(blocks):
    for b in blocks:
        yield b
        if isinstance(b, Short): yield b.block
        for s in sub_bodies(b): yield from walk_blocks(s)


# ---------------------------------------------------------------------------------------------------------------------
#  SERIALIZATION

class Writer:
    def __init__(self, ser, rng, vary=0.15, trailing=0.0, blank_ws=0.0):
        self.ser = ser
        self.rng = rng
        self.vary = vary
        self.trailing = trailing        # probability of trailing whitespace in a line
        self.blank_ws = blank_ws        # probability that a blank line contains whitespace
        self.lines = []

    def script(self, blocks):
        self.lines = []
        for b in blocks: self.block(b, '')
        return '\n'.join(self.lines)

    def emit(self, ind, s):
        assert '\n' not in s, s
        if self.trailing and self.rng.random() < self.trailing: s += self.rng.choice([' ', '  ', '\t', ' \t'])
        self.lines.append(ind + s)
        return len(self.lines)

    def blank(self, n):
        for _ in range(n):
            self.lines.append(self.rng.choice([' ', '    ', '\t']) if self.blank_ws and self.rng.random() < self.blank_ws else '')

    def spans(self, spans, kind):
        out = []
        for s in spans:
            if isinstance(s, str):
                out.append(s if kind == '!' else s.replace('$', '$$').replace('{', '{{').replace('}', '}}'))
            elif s[0] == '{':
                out.append('{' + self.ser.braced(s[1]) + '}' + (s[2] or ''))
            else:
                out.append('$' + self.ser.prim(s[1]).lstrip('$') + (s[2] if len(s) > 2 and s[2] else ''))
        return ''.join(out)

    def text(self, t, prefix, ind, first=True):
        """Emit a full text block; `prefix` is what precedes the marker in the 1st line."""
        head = t.lines[0]
        t.lead = len(prefix) + 1
        s = self.spans(head[1], t.kind)
        t.src = [s if not s else t.gap + s]
        n = self.emit_raw(ind, prefix + t.kind + t.src[0])
        t.rel = ['']
        for l in t.lines[1:]:
            if l is None:
                self.blank(1)
                t.src.append('')
                t.rel.append('')
            else:
                s = self.spans(l[1], t.kind)
                t.src.append(s)
                t.rel.append(l[0])
                self.emit_raw(ind + l[0], s)
        return n

    def emit_raw(self, ind, s):
        return self.emit(ind, s)

    def attrs(self, attrs):
        out = ''
        glue = True                     # shortcuts may be glued to the preceding name or shortcut
        for a in attrs:
            if a[0] == 'short':
                s = a[1] + (a[2] if isinstance(a[2], str) else self.ser.brace(a[2]))
                out += s if glue and self.rng.random() < .6 else ' ' + s
            elif a[0] == 'pos':
                out += ' ' + self.ser.strict(a[1])
                glue = False
            else:
                eq = '=' if self.rng.random() >= self.vary else self.rng.choice([' =', '= ', ' = '])
                out += ' ' + a[1] + eq + self.ser.strict(a[2])
                glue = False
        return out

    def block(self, b, ind):
        for c in b.noise:
            self.lines.append(ind + c)
        self.blank(b.margin)
        prefix = {'': '', '<': '< ', '...': '... '}[b.mod]
        if prefix and self.rng.random() < self.vary: prefix = prefix.strip()
        if b.mod == '...' and prefix == '...' : prefix = '... '
        b.line = len(self.lines) + 1
        getattr(self, 'w_' + type(b).__name__)(b, prefix, ind)

    def w_Text(self, b, prefix, ind):
        self.text(b, prefix, ind)

    def w_Embed(self, b, prefix, ind):
        self.emit(ind, prefix + '@' + self.ser.ws(' ') + self.ser.ser(b.expr))

    def struct(self, b, line, ind):
        """Emit a body of a tag or a hypertag definition, `line` is the preceding text."""
        if b.text is not None:
            if self.ser.ws(' ') or line[-1:].isalnum() or b.text.kind == '!': line += ' '
            self.text(b.text, line, ind)
        elif b.embed is not None:
            self.emit(ind, line + ' @' + self.ser.ws(' ') + self.ser.ser(b.embed))
        elif b.head is not None:
            line += self.ser.ws() + ':' + self.ser.ws(' ')
            self.text(b.head, line, ind)
            for x in b.body: self.block(x, ind + b.unit)
        else:
            colon = b.colon if b.colon is not None else self.rng.random() < .3
            if colon: line += self.ser.ws() + ':'
            self.emit(ind, line)
            for x in b.body: self.block(x, ind + b.unit)

    def chain(self, chain):
        return ' : '.join(name + self.attrs(attrs) for name, attrs in chain)

    def w_Tag(self, b, prefix, ind):
        self.struct(b, prefix + self.chain(b.chain), ind)

    def w_Def(self, b, prefix, ind):
        line = '%' + self.ser.ws() + b.name
        if b.bodyattr: line += ' @' + b.bodyattr
        for name, default in b.params:
            line += ' ' + name
            if default is not None:
                eq = '=' if self.rng.random() >= self.vary else ' = '
                line += eq + self.ser.strict(default)
        self.struct(b, prefix + line, ind)

    def targets(self, t):
        if isinstance(t, str): return t
        return self._targets(t)

    def _targets(self, t):
        items = [x if isinstance(x, str) else '(' + self._targets(x) + ')' for x in t]
        return (',' + self.ser.ws(' ')).join(items) + (',' if len(items) == 1 else '')

    def w_Assign(self, b, prefix, ind):
        self.emit(ind, prefix + '$' + self.ser.ws() + self.targets(b.targets) + self.ser.ws(' ') + b.op + '=' + self.ser.ws(' ') + self.ser.tail(b.expr))

    def w_Expr(self, b, prefix, ind):
        self.emit(ind, prefix + '$ ' + self.ser.tail(b.expr))

    def clause(self, line, body, ind):
        if body is None or (body.text is None and not body.blocks):
            self.emit(ind, line)
        elif body.text is not None:
            self.text(body.text, line + ' ', ind)
        else:
            colon = body.colon if body.colon is not None else self.rng.random() < .3
            self.emit(ind, line + (self.ser.ws() + ':' if colon else ''))
            for x in body.blocks: self.block(x, ind + body.unit)

    def w_If(self, b, prefix, ind):
        for i, (cond, body) in enumerate(b.clauses):
            self.clause((prefix + 'if ' if i == 0 else 'elif ') + self.ser.header(cond, body.text is not None), body, ind)
        if b.else_ is not None: self.clause('else', b.else_, ind)

    def w_For(self, b, prefix, ind):
        self.clause(prefix + 'for ' + self.targets(b.targets) + ' in ' + self.ser.header(b.expr, bool(b.body and b.body.text)), b.body, ind)
        if b.else_ is not None: self.clause('else', b.else_, ind)

    def w_While(self, b, prefix, ind):
        self.clause(prefix + 'while ' + self.ser.header(b.cond, bool(b.body and b.body.text)), b.body, ind)
        if b.else_ is not None: self.clause('else', b.else_, ind)

    def w_Try(self, b, prefix, ind):
        for i, body in enumerate(b.branches):
            self.clause(prefix + 'try' if i == 0 else 'else', body, ind)

    def w_Short(self, b, prefix, ind):
        inner = b.block
        inner.line = b.line
        if isinstance(inner, Text): self.text(inner, prefix + '?', ind)
        else: self.struct(inner, prefix + '?' + self.ser.ws() + self.chain(inner.chain), ind)

    def w_Pass(self, b, prefix, ind):
        self.emit(ind, 'pass')

    def w_Context(self, b, prefix, ind):
        self.emit(ind, 'context ' + ', '.join(s + (' as ' + r if r else '') for s, r in b.items))

    def w_Import(self, b, prefix, ind):
        items = '*' if b.items == '*' else ', '.join(s + (' as ' + r if r else '') for s, r in b.items)
        self.emit(ind, 'from ' + b.path + ' import ' + items)


# ---------------------------------------------------------------------------------------------------------------------
#  REFERENCE INTERPRETER

class Env:
    """Scope of names: {'$x': value, '%x': tag}."""
    def __init__(self, parent=None, symbols=None):
        self.parent = parent
        self.symbols = dict(symbols or {})

    def lookup(self, key):
        e = self
        while e is not None:
            if key in e.symbols: return e.symbols[key]
            e = e.parent
        raise KeyError(key)

    def get_var(self, name):
        try: return self.lookup('$' + name)
        except KeyError: raise Model('NameError', name)

    def get_tag(self, name):
        try: t = self.lookup('%' + name)
        except KeyError: raise Model('NameError', '%' + name)
        if isinstance(t, MHyper): return t.callable(self)
        return t

    def set(self, name, value):
        self.symbols['$' + name] = value


class View:
    """Names visible at the place of a definition: later ones, which would shadow them, are not visible inside the definition."""
    def __init__(self, env):
        self.chain = []
        while env is not None:
            if isinstance(env, View):
                self.chain += env.chain
                break
            self.chain.append((env, {k: v for k, v in env.symbols.items()}))
            env = env.parent

    parent = None

    @property
    def symbols(self): return self

    def __contains__(self, key): return any(key in names for _, names in self.chain)

    def __getitem__(self, key):
        for env, names in self.chain:
            if key in names: return env.symbols[key] if key[0] == '$' else names[key]
        raise KeyError(key)

    lookup = __getitem__
    get_var = Env.get_var
    get_tag = Env.get_tag


class MNode:
    """Node of a model DOM."""
    def __init__(self, tag=None, attrs=(), kwattrs=None, items=(), outline=False, rel='', text=None):
        self.tag = tag
        self.attrs = attrs
        self.kwattrs = kwattrs or {}
        self.items = list(items)
        self.outline = outline
        self.rel = rel              # indentation of the block relative to the enclosing block
        self.text = text

    def copy(self):
        return MNode(self.tag, self.attrs, dict(self.kwattrs), [x.copy() for x in self.items], self.outline, self.rel, self.text)

    @property
    def name(self):
        return self.tag.name if self.tag is not None else None

    def render(self):
        if self.text is not None: s = self.text
        elif self.tag is not None: s = self.tag.expand(Frag(self.items), self.attrs, self.kwattrs)
        else: s = render_items(self.items)
        return add_indent(('\n' if self.outline else '') + s, self.rel)


def add_indent(s, ind):
    if not ind: return s
    lines = s.split('\n')
    return '\n'.join(lines[:1] + [ind + l if l else l for l in lines[1:]])


def render_items(items):
    return ''.join(x.render() for x in items)


class Frag:
    """A list of model nodes, as passed to a tag or bound to a body attribute."""
    def __init__(self, items):
        self.nodes = list(items)
    def __bool__(self): return bool(self.nodes)
    def __len__(self): return len(self.nodes)
    def __iter__(self): return iter(self.nodes)
    def render(self): return render_items(self.nodes)
    def __getitem__(self, i):
        if isinstance(i, slice): return Frag(self.nodes[i])
        if isinstance(i, int): return self.nodes[i]
        return self.select(i)
    def walk(self, order='preorder'):
        for n in self.nodes:
            if order == 'preorder': yield n
            yield from Frag(n.items).walk(order)
            if order != 'preorder': yield n
    def select(self, tag=None, attr=None, **kw):
        return Frag([n for n in self.walk(kw.pop('order', 'preorder')) if match(n, tag, attr, kw)])
    def skip(self, tag=None, attr=None, **kw):
        def strip(nodes):
            out = []
            for n in nodes:
                if match(n, tag, attr, kw): continue
                n = n.copy()
                n.items = strip(n.items)
                out.append(n)
            return out
        return Frag(strip(self.nodes))


_MISSING = object()

def match(n, tag, attr, kw):
    kw = dict(kw)
    value = kw.pop('value', _MISSING)
    if tag is not None and n.name != tag: return False
    if attr is not None:
        if attr not in n.kwattrs: return False
        if value is not _MISSING and n.kwattrs[attr] != value: return False
    for k, v in kw.items():
        if k not in n.kwattrs or n.kwattrs[k] != v: return False
    return True


class MMarkup:
    """Standard markup tag."""
    def __init__(self, name, void=False, mode='HTML'):
        self.name = name
        self.void = void
        self.mode = mode

    def expand(self, body, attrs, kwattrs):
        if attrs: raise Model('TypeErrorEx')
        return self.out(self.name, body, kwattrs)

    def out(self, name, body, kwattrs):
        out = '<' + name
        for k, v in kwattrs.items():
            if v is True: out += ' ' + k if self.mode == 'HTML' else ' %s="%s"' % (k, k)
            elif v is False: continue
            else: out += ' %s=%s' % (k, quote_attr(str(v)))
        s = body.render()
        if self.void:
            if s: raise Model('VoidTagEx')
            return out + ' />'
        return out + '>' + s + ('\n' if s.startswith('\n') else '') + '</' + name + '>'

    def __call__(self, body=None, *attrs, **kw):
        return self.expand(Frag([MNode(text=str(body))] if body is not None else []), attrs, kw)


def heavy(v, cap):
    """Approximate length of the textual form of a value, counted up to a cap."""
    if isinstance(v, str): return len(v)
    if isinstance(v, int): return v.bit_length() // 3
    n = 1
    if isinstance(v, (list, tuple, set, dict)):
        for x in (list(v.items()) if isinstance(v, dict) else v):
            n += heavy(x, cap - n)
            if n > cap: break
    return n


def quote_attr(v):
    v = v.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\n', '&#10;').replace('\r', '&#13;').replace('\t', '&#9;')
    if '"' not in v: return '"' + v + '"'
    if "'" not in v: return "'" + v + "'"
    return '"' + v.replace('"', '&quot;') + '"'


def escape(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


class MCustom(MMarkup):
    def __init__(self): MMarkup.__init__(self, 'custom')
    def expand(self, body, attrs, kwattrs):
        if len(attrs) != 1: raise Model('TypeErrorEx')
        return self.out(attrs[0], body, kwattrs)


class MComment(MMarkup):
    def __init__(self): MMarkup.__init__(self, 'comment')
    def expand(self, body, attrs, kwattrs):
        if attrs or kwattrs: raise Model('TypeErrorEx')
        s = body.render()
        return '<!--' + s + ('\n' if s.startswith('\n') else '') + '-->'


class MFun:
    """External tag implemented by a python function."""
    def __init__(self, name, fun, dom=False):
        self.name = name
        self.fun = fun
        self.dom = dom
    def expand(self, body, attrs, kwattrs):
        return self.fun(body if self.dom else body.render(), *attrs, **kwattrs)
    def __call__(self, body=None, *attrs, **kw):
        return self.expand(Frag([MNode(text=str(body))] if body is not None else []), attrs, kw)


class Native:
    """Marks nodes produced by a hypertag."""
    def __init__(self, name): self.name = name
    def expand(self, body, attrs, kwattrs): return body.render()


class MNull:
    name = 'null'
    def expand(self, body, attrs, kwattrs): return body.render()


class MHyper:
    """Native hypertag."""
    def __init__(self, d, env, interp):
        self.d = d
        self.env = View(env)
        self.interp = interp

    def expand(self, body, attrs, kwattrs):
        d = self.d
        names = [n for n, _ in d.params]
        if len(attrs) > len(names): raise Model('TypeErrorEx', 'too many')
        if d.bodyattr and d.bodyattr in kwattrs: raise Model('TypeErrorEx', 'body assigned')
        for k in kwattrs:
            if k not in names: raise Model('TypeErrorEx', 'unexpected ' + k)
        values = dict(kwattrs)
        dom = {}
        for n, v in zip(names, attrs):
            if n in values: raise Model('TypeErrorEx', 'multiple ' + n)
            values[n] = v
            dom[n] = v
        dom.update(kwattrs)
        for n, default in d.params:
            if n not in values:
                if default is None: raise Model('TypeErrorEx', 'missing ' + n)
                values[n] = ev(default, self.env)
        env = Env(self.env)
        for n, v in values.items(): env.set(n, v)
        if d.bodyattr: env.set(d.bodyattr, body)
        elif body: raise Model('VoidTagEx')
        self.interp.note('expand', d.name)
        items = self.interp.struct_body(d, env, flat=True)
        if items: items[0].outline = False
        return MNode(Native(d.name), (), dom, items)

    def callable(self, env):
        def call(body=None, *attrs, **kw):
            frag = Frag([MNode(text=str(body))] if body is not None else [])
            return self.expand(frag, attrs, kw).render()
        return call


class Interp:
    """Reference interpreter of abstract documents."""

    MAX_STEPS = 4000
    escape = staticmethod(escape)

    def __init__(self, symbols, context=None, modules=None):
        self.base = symbols                     # built-in symbols: {'$len': ..., '%p': ...}
        self.context = context or {}
        self.modules = modules or {}
        self.stats = {}
        self.steps = 0

    def note(self, *key):
        self.stats[key] = self.stats.get(key, 0) + 1

    def run(self, blocks):
        """Expected output of a script."""
        self.top = Env(Env(None, self.base))
        items = self.items = self.blocks(blocks, self.top, '')
        root = render_items(items)
        return root[1:] if root.startswith('\n') else root

    # -- blocks

    def blocks(self, blocks, env, rel, flat=False):
        out = []
        for b in blocks: out += self.block(b, env, rel)
        return out

    def block(self, b, env, rel):
        """List of nodes a block renders to, in a parent body whose relative indentation is `rel`."""
        self.steps += 1
        if self.steps > self.MAX_STEPS: raise OverflowError('too many steps')
        self.note('block', type(b).__name__)
        out = []
        if b.margin: out.append(MNode(text='\n' * b.margin, rel=rel))
        nodes = getattr(self, 'b_' + type(b).__name__)(b, env)
        if nodes:
            nodes = [n.copy() for n in nodes]
            for n in nodes: n.rel = rel
            if b.mod != '...': nodes[0].outline = True
            if b.mod == '<':
                for n in nodes: n.rel = ''
            if b.mod: self.note('mod', b.mod)
        return out + nodes

    def text_value(self, t, env):
        """Rendered text of a text block, with relative indentation of lines resolved."""
        src, out = [], []
        for i, l in enumerate(t.lines):
            if l is None:
                src.append('')
                out.append('')
                continue
            value = ''
            for s in l[1]:
                if isinstance(s, str): value += s
                else: value += self.span(s, env)
            if t.kind == '|': value = self.escape(value)
            if i == 0:
                pre = ' ' * t.lead + (t.gap if t.src[0] else '')
                src.append(' ' * t.lead + t.src[0])
            else:
                pre = t.rel[i]
                src.append(pre + t.src[i])
            out.append(pre + value)
        # common indentation of all lines (of the source), up to one column after the marker
        common = None
        for s in src:
            if not s.strip(): continue
            ws = s[:len(s) - len(s.lstrip())]
            if common is None: common = ws
            else:
                n = 0
                while n < min(len(common), len(ws)) and common[n] == ws[n]: n += 1
                common = common[:n]
        common = (common or '')[:t.lead + 1]
        res = [o[len(common):] if s.startswith(common) else o for s, o in zip(src, out)]
        if len(common) < t.lead:
            drop = t.lead - len(common)
            if t.src[0].startswith(' '): drop += 1
            res[0] = res[0][drop:]
        return '\n'.join(res)

    def span(self, s, env):
        qual = s[2] if len(s) > 2 else None
        if qual: return to_str(ev(('q', s[1], qual), env))
        return to_str(ev(s[1], env))

    def b_Text(self, b, env):
        return [MNode(text=self.text_value(b, env))]

    def b_Embed(self, b, env):
        return self.embed(b.expr, env)

    def embed(self, expr, env):
        v = ev(expr, env)
        self.note('embed')
        try: nodes = [v] if isinstance(v, MNode) else list(v)
        except Exception: raise Model('TypeErrorEx')
        out = []
        for n in nodes:
            if n is None: continue
            if isinstance(n, MNode): out.append(n.copy())
            elif isinstance(n, Frag): out += [x.copy() for x in n]
            else: raise Model('TypeErrorEx')
        for n in out: n.rel = ''
        return out

    def struct_body(self, b, env, flat=False):
        """Body nodes of a tag or a hypertag; `flat`: nested blocks are laid out at the level of the parent."""
        if b.text is not None: return [MNode(text=self.text_value(b.text, env))]
        if b.embed is not None: return self.embed(b.embed, env)
        out = []
        if b.head is not None: out.append(MNode(text=self.text_value(b.head, env)))
        return out + self.blocks(b.body, env, '' if flat else b.unit)

    def eval_attrs(self, attrs, env):
        pos, kw = [], {}
        for a in attrs:
            if a[0] == 'pos':
                pos.append(ev(a[1], env))
                continue
            if a[0] == 'kw': name, value = a[1], ev(a[2], env)
            else: name, value = {'.': 'class', '#': 'id'}[a[1]], a[2] if isinstance(a[2], str) else ev(a[2], env)
            if name in kw: kw[name] = kw[name] + ' ' + value
            else: kw[name] = value
        return pos, kw

    def b_Tag(self, b, env):
        inner = Env(env)
        items = self.struct_body(b, inner)
        for name, attrs in reversed(b.chain):
            self.note('tag', name)
            if name == '.':
                items = [MNode(MNull(), items=items)]
                continue
            pos, kw = self.eval_attrs(attrs, env)
            try: tag = env.lookup('%' + name)
            except KeyError: raise Model('UndefinedTagEx', name)
            if isinstance(tag, MHyper): items = [tag.expand(Frag(items), pos, kw)]
            else: items = [MNode(tag, pos, kw, items)]
        return items

    def assign(self, targets, value, env):
        if isinstance(targets, str):
            if heavy(value, 20000) > 20000: raise OverflowError('a value grows too big')
            env.set(targets, value)
            return
        values = list(value)
        for t, v in zip(targets, values): self.assign(t, v, env)
        if len(values) != len(targets): raise Model('ValueErrorEx')

    def b_Assign(self, b, env):
        value = ev(b.expr, env)
        if b.op:
            from .expr import BIN_FUN
            value = BIN_FUN[b.op](env.get_var(b.targets), value)
        self.assign(b.targets, value, env)
        return []

    def b_Expr(self, b, env):
        ev(b.expr, env)
        return []

    def clause(self, body, env):
        if body is None: return []
        if body.text is not None: return [MNode(text=self.text_value(body.text, env))]
        return self.blocks(body.blocks or [], env, '')

    def b_If(self, b, env):
        for cond, body in b.clauses:
            if ev(cond, env): return self.clause(body, env)
        return self.clause(b.else_, env)

    def b_For(self, b, env):
        out = []
        empty = True
        for v in ev(b.expr, env):
            empty = False
            self.assign(b.targets, v, env)
            out += self.clause(b.body, env)
            self.note('iter')
        if empty: return self.clause(b.else_, env)
        return out

    def b_While(self, b, env):
        out = []
        empty = True
        while ev(b.cond, env):
            empty = False
            out += self.clause(b.body, env)
            self.note('iter')
            self.steps += 1
            if self.steps > self.MAX_STEPS: raise OverflowError('too many steps')
        if empty: return self.clause(b.else_, env)
        return out

    def b_Try(self, b, env):
        for i, body in enumerate(b.branches):
            try:
                out = self.clause(body, env)
                self.note('try', i)
                return out
            except OverflowError: raise
            except Exception: pass
        self.note('try', 'none')
        return []

    def b_Short(self, b, env):
        try: return getattr(self, 'b_' + type(b.block).__name__)(b.block, env)
        except OverflowError: raise
        except Exception: return []

    def b_Def(self, b, env):
        env.symbols['%' + b.name] = MHyper(b, env, self)
        return []

    def b_Pass(self, b, env):
        return []

    def b_Context(self, b, env):
        for s, rename in b.items:
            if s not in self.context: raise Model('ImportErrorEx', s)
            env.symbols[(s[0] + rename) if rename else s] = self.context[s]
        return []

    def b_Import(self, b, env):
        return self.do_import(b, env)
