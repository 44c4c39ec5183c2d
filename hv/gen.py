"""
Random generator of abstract Hypertag documents. Produces only documents whose meaning is defined by the language
description; the probability of every construct is set by a profile (dict of weights).
"""
from . import expr as X
from .doc import *
from .stdmodel import NONVOID, VOID

TAGS = ['p', 'div', 'b', 'i', 'u', 'span', 'ul', 'li', 'h1', 'a', 'DIV', 'table', 'td', 'section', 'pre', 'em']
VOIDS = ['br', 'hr', 'img', 'input', 'BR', 'link']
ATTRS = ['title', 'href', 'id', 'class', 'data-x', 'xml:lang', 'aria-label', 'style', 'X', 'a1', 'on.click', 'ns:a-b']
UNITS = ['  ', '  ', '  ', '    ', '\t', ' ', '   '] * 3 + ['\t\t', ' \t', '\t ', ' ' * 9, ' ' * 17]

DEFAULT = dict(
    text=10, tag=14, assign=5, expr=1, if_=3, for_=3, while_=1, try_=2, short=1, def_=3, hyper=5, pass_=.5, embed=0, null=.8,
    mods=.06, margins=.2, comments=.05, chain=.25, texttail=.25, head=.25, attrs=.5, voids=.08, stdtags=.06,
    maxdepth=4, budget=22, hostile=.25, exprdepth=2, errors=0.0, dupattrs=.1, units=UNITS, probes=False, embedexpr=.25, inline_ctl=.2, fails=.35, big=.02)


class Frame:
    def __init__(self, kind):
        self.kind = kind            # 'top' | 'tag' | 'def'
        self.vars = {}              # definitely assigned variables: {name: type}
        self.tags = {}              # hypertags: {name: Def}
        self.body = None            # name of the body attribute


PREFIX = {'int': 'n', 'str': 's', 'list': 'l', 'bool': 'f', 'dict': 'd', 'strlist': 'w', 'num': 'q', 'any': 'z'}


class DocGen:

    def __init__(self, rng, profile=None, context=None):
        self.rng = rng
        self.p = dict(DEFAULT, **(profile or {}))
        self.frames = [Frame('top')]
        self.control = [0]          # nesting of control blocks within each frame
        self.context = context or {}        # {name: (type, value)} of variables passed as context
        for n, (t, _) in self.context.items(): self.frames[0].vars[n] = t
        self.budget = self.p['budget']
        self.uid = 0
        self.probe_id = 0
        self.in_try = 0
        self.loops = 0              # enclosing loops: repetitions multiply
        self.xg = X.Gen(rng, self.scope, hostile=self.p['hostile'], probe='P' if self.p['probes'] else None, errors=self.p['errors'])

    def count(self, usual, low, high):
        """A number of items: a usual one, rarely a large one."""
        return self.rng.randint(low, high) if self.rng.random() < self.p['big'] else self.rng.choice(usual)

    # -- scope

    def visible(self):
        names = {}
        for f in self.frames: names.update(f.vars)
        return names

    def scope(self):
        out = {}
        for name, t in self.visible().items(): out.setdefault(t, []).append(name)
        return out

    def visible_tags(self):
        out = {}
        for f in self.frames: out.update(f.tags)
        return out

    def fresh(self, prefix):
        self.uid += 1
        return '%s%d' % (prefix, self.uid)

    def target(self, t):
        """Name of a variable that can be assigned a value of type `t` at the current position, and registers it."""
        r = self.rng
        frame = self.frames[-1]
        own = [n for n, tt in frame.vars.items() if tt == t]
        if self.control[-1]:
            outer = []
        else:
            outer = [n for n, tt in self.visible().items() if tt == t and n not in frame.vars and n not in self.reserved()]
        x = r.random()
        own = [n for n in own if n not in self.reserved()]
        if own and x < .45: return r.choice(own)
        if outer and x < .75: name = r.choice(outer)
        else: name = self.fresh(PREFIX[t])
        frame.vars[name] = t
        return name

    def reserved(self):
        return self._reserved

    _reserved = frozenset()

    # -- expressions

    def e(self, t, d=None):
        return self.xg.gen(t, self.p['exprdepth'] if d is None else d)

    def etype(self):
        return self.rng.choice(['str', 'str', 'int', 'any', 'bool', 'num', 'list'])

    # -- text

    def literal(self, first=False, last=False, verbatim=False):
        r = self.rng
        s = self.xg.text(3)
        if not s: s = r.choice(X.WORDS)
        s = s.replace('\n', ' ')
        if first: s = s.lstrip()
        if last: s = s.rstrip()
        return s or 'w'

    def spans(self, kind, first=True):
        """Spans of a single line."""
        r = self.rng
        if kind == '!': return [self.literal(first, True)]
        out = []
        n = r.randint(1, 4)
        for i in range(n):
            last = i == n - 1
            if r.random() < .55 or not (self.p['embedexpr'] or out):
                s = self.literal(first and not out, last)
                if out:
                    prev = out[-1]
                    if isinstance(prev, str): s = ' ' + s
                    elif prev[0] == '$':
                        if s[0].isalnum() or s[0] in '_.([?!' or ord(s[0]) > 127: s = ' ' + s
                    elif s[0] in '?!': s = ' ' + s
                out.append(s)
            else:
                out.append(self.embedded())
        return out

    def embedded(self):
        r = self.rng
        if r.random() < .35:
            names = list(self.visible())
            if names:
                n = r.choice(names)
                t = self.visible()[n]
                e = ('var', n)
                if t == 'str' and r.random() < .3: e = r.choice([('call', ('attr', e, 'upper'), [], []), ('slice', e, [('num', '1'), None])])
                if t == 'list' and r.random() < .3: e = ('slice', e, [None, ('num', '2')])
                return ('$', e)
        e = self.e(self.etype())
        if r.random() < .06: return ('{', e, '?')
        if r.random() < .04: return ('{', r.choice([('str', ['']), ('num', '0'), self.xg.failing() if self.p['errors'] else ('list', [])]), '?')
        return ('{', e, None)

    def text(self, tail=None, kind=None, gap=True):
        r = self.rng
        kind = kind or r.choice('||||/!')
        t = Text(kind=kind)
        t.gap = ' ' if r.random() < .85 else r.choice(['', '  ']) if gap else ' '
        lines = [('', self.spans(kind))]
        if t.gap == '' and isinstance(lines[0][1][0], str) and lines[0][1][0][:1] in ' \t': t.gap = ' '
        if tail is None: tail = r.random() < self.p['texttail']
        if tail:
            k = r.choice([1, 2, 2, 3, 4, 5, 7])
            for i in range(self.count([1, 2, 3, 4], 5, 40)):
                if i and r.random() < .15: lines += [None] * self.count([1], 2, 12)
                lines.append((' ' * k, self.spans(kind)))
                if r.random() < .4: k = max(1, k + r.choice([-3, -2, -1, 1, 2, 4]))
        t.lines = lines
        return t

    # -- blocks

    def document(self):
        blocks = []
        n = self.rng.randint(2, 6)
        while (len(blocks) < n or self.rng.random() < .5) and self.budget > 0:
            blocks += self.blocks_at(0, first=False, count=1)
        if blocks: blocks[0].margin = 0
        items = [('$' + n, None) for n in self.context] + ([('$P', None), ('$boom', None)] if self.p['probes'] else [])
        if items: blocks.insert(0, Context(items=items))
        # repeated assignments like $s = s + s may produce values of any size
        from .difftest import run_model
        try: run_model(blocks, context={n: v for n, (t, v) in self.context.items()}, probes=self.p['probes'])
        except OverflowError: blocks = blocks[:1 if items else 0] + [Text(lines=[('', ['x'])])]
        return blocks

    def body(self, depth, count=None, minimum=1):
        r = self.rng
        n = count or self.count([1, 1, 2, 2, 3, 4], 5, 30)
        out = self.blocks_at(depth, True, n)
        if len(out) < minimum: out.append(self.b_text(depth))
        out[0].margin = 0
        return out

    def blocks_at(self, depth, first, count):
        out = []
        for _ in range(count):
            if self.budget <= 0 and out: break
            self.budget -= 1
            new = self.block(depth)
            for b in new:
                if self.rng.random() < self.p['margins']: b.margin = self.count([1, 1, 2, 3], 4, 40)
                if self.rng.random() < self.p['comments']:
                    b.noise = [self.rng.choice(['#', '--']) + self.rng.choice(['', ' c', ' {x', ' $', ' p | x', '%'])]
            out += new
        if self.p['mods'] and depth > 0:
            for i, b in enumerate(out):
                if isinstance(b, (Tag, Text)) and self.rng.random() < self.p['mods']:
                    b.mod = self.rng.choice(['<', '...'] if i else ['<'])
        return out

    def block(self, depth):
        r = self.rng
        p = self.p
        choices = [('text', p['text']), ('assign', p['assign']), ('expr', p['expr']), ('pass', p['pass_'])]
        if depth < p['maxdepth']:
            choices += [('tag', p['tag']), ('if', p['if_']), ('for', p['for_']), ('while', p['while_']), ('try', p['try_']), ('null', p['null'])]
            if not sum(self.control): choices.append(('def', p['def_']))
            if self.visible_tags(): choices.append(('hyper', p['hyper']))
        choices.append(('short', p['short']))
        bodies = [f.body for f in self.frames if f.body]
        if bodies and self.frames[-1].kind in ('tag', 'def'): choices.append(('embed', p['embed'] or 8))
        total = sum(w for _, w in choices)
        x = r.random() * total
        for name, w in choices:
            x -= w
            if x < 0: break
        res = getattr(self, 'b_' + name)(depth)
        return res if isinstance(res, list) else [res]

    def b_text(self, depth): return self.text()

    def b_pass(self, depth): return Pass()

    def b_expr(self, depth):
        return Expr(expr=self.e('any'))

    def b_assign(self, depth):
        r = self.rng
        t = r.choice(['int', 'int', 'str', 'str', 'list', 'bool', 'dict', 'strlist', 'num'])
        x = r.random()
        if x < .15:
            ts = [r.choice(['int', 'str', 'list']) for _ in range(r.randint(1, 3))]
            e = [self.e(tt, 1) for tt in ts]
            kind = r.choice(['utuple', 'tuple', 'list'])
            nested = len(ts) == 2 and r.random() < .4
            inner = self.e('int', 1)
            targets = []
            for tt in ts: targets.append(self.target_unique(tt, targets))
            if nested:
                n2 = self.target_unique('int', targets)
                n3 = self.target_unique('int', targets)
                targets.append([n2, n3])
                e.append(('list', [inner, ('num', '7')]))
            return Assign(targets=targets, op='', expr=(kind, e))
        if x < .35:
            frame = self.frames[-1]
            names = [(n, tt) for n, tt in (frame.vars if self.control[-1] else self.visible()).items() if tt in ('int', 'str', 'list') and n not in self._reserved]
            if names:
                n, tt = r.choice(names)
                op = r.choice(['+', '-', '*', '&', '|', '^', '//', '%', '<<', '>>']) if tt == 'int' else '+'
                if op in ('//', '%'): e = ('num', str(r.randint(1, 9)))
                elif op in ('<<', '>>', '*'): e = ('num', str(r.randint(0, 3)))
                else: e = self.e(tt, 1)
                frame.vars[n] = tt
                return Assign(targets=n, op=op, expr=e)
        e = self.e(t)
        return Assign(targets=self.target(t), op='', expr=e)

    def target_unique(self, t, taken):
        flat = []
        for x in taken: flat += [x] if isinstance(x, str) else x
        for _ in range(20):
            n = self.target(t)
            if n not in flat: return n
        n = self.fresh(PREFIX[t])
        self.frames[-1].vars[n] = t
        return n

    def qualified(self, e, t='str'):
        """A value of an attribute, rarely with a qualifier."""
        if self.rng.random() >= .06: return e
        if self.rng.random() < .1: return ('q', e, '!')
        return ('q', e, '?') if t == 'str' else e

    # attributes of regular tags

    def attr_list(self, allow_pos=False):
        r = self.rng
        out = []
        if r.random() >= self.p['attrs']: return out
        used = set()
        short_first = []
        for _ in range(self.count([1, 2, 3], 4, 16)):
            x = r.random()
            if x < .25:
                mark = r.choice('.#')
                name = {'.': 'class', '#': 'id'}[mark]
                if name in used and r.random() > self.p['dupattrs'] * 3: continue
                if used & {'!' + name}: continue
                out.append(('short', mark, r.choice(['a', 'b-c', 'X_1', 'abc'] + (['7'] if mark == '#' else [])) if r.random() < .75 else self.qualified(self.e('str', 1))))
                used.add(name)
                continue
            name = r.choice(ATTRS)
            if name in used:
                if r.random() < self.p['dupattrs'] * 5 and '!' + name not in used:
                    out.append(('kw', name, self.qualified(self.e('str', 1))))
                continue
            used.add(name)
            if r.random() < .15:
                out.append(('kw', name, ('const', r.random() < .6)))
                used.add('!' + name)
            elif r.random() < .3:
                out.append(('kw', name, self.e(r.choice(['int', 'num', 'any']), 1)))
                used.add('!' + name)
            else:
                out.append(('kw', name, self.e('str', 1)))
        return out

    def enter(self, kind):
        self.frames.append(Frame(kind))
        self.control.append(0)

    def leave(self):
        self.control.pop()
        return self.frames.pop()

    def struct_body(self, b, depth, allow=True):
        """Fill in the body of a tag or a hypertag definition. The frame has been entered by the caller."""
        r = self.rng
        x = r.random()
        if not allow or x < .08: return b
        bodies = [f.body for f in self.frames if f.body]
        if x < .38:
            b.text = self.text()
        elif x < .44 and bodies and not (isinstance(b, Def) and not b.params and not b.bodyattr):
            b.embed = self.embed_expr(r.choice(bodies))
        else:
            b.unit = r.choice(self.p['units'])
            if r.random() < self.p['head'] and not (isinstance(b, Tag) and b.chain[0][0] == '.'):
                b.head = self.text(tail=False)
                if b.head.gap == '': b.head.gap = ' '
            b.body = self.body(depth + 1)
        return b

    def embed_expr(self, name):
        r = self.rng
        x = r.random()
        if x < .75: return ('var', name)
        if x < .82: return ('slice', ('var', name), [None, ('num', str(r.randint(0, 2)))])
        if x < .88: return ('slice', ('var', name), [('num', '1'), None])
        if x < .94: return ('call', ('attr', ('var', name), 'select'), [('str', [r.choice(TAGS)])], [])
        return ('call', ('attr', ('var', name), 'skip'), [('str', [r.choice(TAGS)])], [])

    def b_embed(self, depth):
        bodies = [f.body for f in self.frames if f.body]
        return Embed(expr=self.embed_expr(self.rng.choice(bodies)))

    def tag_name(self):
        r = self.rng
        if r.random() < self.p['stdtags']: return r.choice(['upper', 'lower', 'merge', 'inline', 'unique', 'dedent', 'comment', 'custom'])
        return r.choice(TAGS) if r.random() < .9 else r.choice(NONVOID)

    def regular(self):
        r = self.rng
        name = self.tag_name()
        if name in ('upper', 'lower', 'merge', 'inline', 'unique', 'comment'): return (name, [])
        if name == 'dedent': return (name, [] if r.random() < .5 else [('pos', ('const', r.random() < .5))])
        if name == 'custom': return (name, [('pos', ('str', [r.choice(['my-el', 'x-y', 'T'])]))] + self.attr_list())
        return (name, self.attr_list())

    def b_tag(self, depth):
        r = self.rng
        self.enter('tag')
        if r.random() < self.p['voids']:
            b = Tag(chain=[(r.choice(VOIDS), self.attr_list())], colon=False)
            self.leave()
            return b
        b = Tag(chain=())
        chain = [self.regular()]
        longest = self.count([4], 5, 12)
        while r.random() < (self.p['chain'] if longest == 4 else .9) and len(chain) < longest: chain.append(self.regular() if r.random() < .8 or not self.visible_tags() else self.hyper_use()[0])
        b.chain = chain
        allow = all(self.takes_body(n) for n, _ in chain[-1:])
        # attributes are evaluated after the body, in the scope of the block: names assigned inside must not matter,
        # so they are generated before the body
        self.struct_body(b, depth, allow)
        self.leave()
        return b

    def takes_body(self, name):
        d = self.visible_tags().get(name)
        return d.bodyattr is not None if d else name.lower() not in VOID

    def b_null(self, depth):
        self.enter('tag')
        b = Tag(chain=[('.', [])])
        self.struct_body(b, depth)
        self.leave()
        return b

    # hypertags

    def b_def(self, depth):
        r = self.rng
        d = Def(name=self.fresh(r.choice(['H', 'tag_', 'Item'])))
        self.enter('def')
        frame = self.frames[-1]
        d.bodyattr = self.fresh('body') if r.random() < .55 else None
        params = []
        types = {}
        optional = False
        for _ in range(self.count([0, 1, 1, 2, 2, 3], 4, 12)):
            t = r.choice(['str', 'str', 'int', 'list', 'bool'])
            name = self.fresh(PREFIX[t]) if r.random() < .7 else r.choice([n for n, tt in self.visible().items() if tt == t and n not in types] or [self.fresh(PREFIX[t])])
            default = self.qualified(self.e(t, 1), t) if r.random() < .5 else None
            params.append((name, default))
            types[name] = t
        d.params = params
        d.types = types
        frame.vars.update(types)
        frame.body = d.bodyattr
        saved = self._reserved
        self.struct_body(d, depth)
        if d.bodyattr and r.random() < .6 and not any(isinstance(b, Embed) for b in d.body) and d.text is None and d.embed is None:
            d.body = list(d.body) + [Embed(expr=('var', d.bodyattr))]
        self._reserved = saved
        self.leave()
        self.frames[-1].tags[d.name] = d
        return d

    def hyper_use(self):
        """((name, attrs), definition) of a hypertag in scope."""
        r = self.rng
        tags = self.visible_tags()
        name = r.choice(list(tags))
        d = tags[name]
        pos, kw = [], []
        positional = True
        for n, default in d.params:
            if positional and r.random() < .6:
                pos.append(('pos', self.qualified(self.e(d.types[n], 1), d.types[n])))
                continue
            positional = False
            if default is not None and r.random() < .5: continue
            kw.append(('kw', n, self.qualified(self.e(d.types[n], 1), d.types[n])))
        r.shuffle(kw)
        return (name, pos + kw), d

    def b_hyper(self, depth):
        r = self.rng
        self.enter('tag')
        use, d = self.hyper_use()
        chain = [use]
        allow = d.bodyattr is not None
        if allow and r.random() < self.p['chain']: chain.append(self.regular())
        elif r.random() < self.p['chain']: chain.insert(0, self.regular())
        b = Tag(chain=chain)
        self.struct_body(b, depth, allow or len(chain) > 1 and chain[-1] is not use)
        self.leave()
        return b

    # control blocks

    def clause(self, depth, extra=None, header_ok=True):
        """Body of a control clause. Variables first assigned inside are forgotten afterwards."""
        r = self.rng
        frame = self.frames[-1]
        saved = dict(frame.vars)
        self.control[-1] += 1
        if header_ok and not extra and r.random() < self.p['inline_ctl']:
            body = Body(text=self.text(tail=r.random() < .2))
        else:
            unit = r.choice(self.p['units'])
            blocks = self.body(depth + 1, count=r.choice([1, 1, 2, 3]))
            if extra: blocks = blocks + extra
            body = Body(blocks=blocks, unit=unit)
        self.control[-1] -= 1
        frame.vars = saved
        return body

    def b_if(self, depth):
        r = self.rng
        clauses = []
        for _ in range(self.count([1, 1, 1, 2, 3], 4, 8)):
            c = self.e('bool') if r.random() < .8 else self.e('any')
            clauses.append((c, self.clause(depth)))
        return If(clauses=clauses, else_=self.clause(depth) if r.random() < .5 else None)

    def b_for(self, depth):
        r = self.rng
        frame = self.frames[-1]
        x = r.random()
        reuse = None
        if x < .6:
            t = r.choice(['list', 'strlist'])
            e = self.e(t)
            if r.random() < .15: e = ('list', [])
            if t == 'list' and r.random() < self.p['big'] * 2 and not self.loops: e = ('call', ('var', 'range'), [('num', str(r.randint(5, 12)))], [])
            et = {'list': 'int', 'strlist': 'str'}[t]
            targets = self.loop_var(et)
            new = [(targets, et)]
        elif x < .75:
            t = r.choice(['list', 'strlist'])
            e = ('call', ('var', 'enumerate'), [self.e(t)], [])
            a, b = self.fresh('n'), self.fresh('x')
            targets = [a, b]
            new = [(a, 'int'), (b, {'list': 'int', 'strlist': 'str'}[t])]
        elif x < .88:
            e = ('list', [('tuple', [self.e('int', 1), ('tuple', [self.e('str', 1), self.e('bool', 1)])]) for _ in range(r.randint(0, 3))])
            a, b, c = self.fresh('n'), self.fresh('s'), self.fresh('f')
            targets = [a, [b, c]]
            new = [(a, 'int'), (b, 'str'), (c, 'bool')]
        else:
            e = ('utuple', [self.e('int', 1) for _ in range(r.randint(2, 3))])
            targets = self.fresh('n')
            new = [(targets, 'int')]
        saved = dict(frame.vars)
        for n, t in new: frame.vars[n] = t
        # loop variables can be modified in the body
        self.loops += 1
        body = self.clause(depth)
        self.loops -= 1
        frame.vars = saved
        else_ = self.clause(depth) if r.random() < .4 else None
        return For(targets=targets, expr=e, body=body if r.random() < .95 else None, else_=else_)

    def loop_var(self, t):
        frame = self.frames[-1]
        own = [n for n, tt in frame.vars.items() if tt == t and n not in self._reserved]
        if own and self.rng.random() < .3: return self.rng.choice(own)
        return self.fresh(PREFIX[t])

    def b_while(self, depth):
        r = self.rng
        frame = self.frames[-1]
        n = self.fresh('n')
        init = Assign(targets=n, op='', expr=('num', str(r.randint(0, 4) if self.loops else self.count([0, 1, 2, 3, 4], 5, 12))))
        frame.vars[n] = 'int'
        saved = self._reserved
        self._reserved = saved | {n}
        dec = Assign(targets=n, op='-', expr=('num', '1'))
        self.loops += 1
        body = self.clause(depth, extra=[dec])
        self.loops -= 1
        else_ = self.clause(depth) if r.random() < .4 else None
        self._reserved = saved
        c = ('cmp', ('var', n), [('>', ('num', '0'))]) if r.random() < .7 else ('var', n)
        return [init, While(cond=c, body=body, else_=else_)]

    def failing_block(self, depth):
        """A block that raises an exception when translated."""
        r = self.rng
        x = r.random()
        bad = self.xg.failing()
        if self.p['probes'] and r.random() < .5: bad = ('call', ('var', 'boom'), [('num', str(r.randint(100, 999)))], [])
        if x < .4: return Text(kind='|', lines=[('', ['x', ('{', bad, None)])])
        if x < .6: return Expr(expr=bad)
        if x < .8:
            self.enter('tag')
            t = Tag(chain=[(r.choice(TAGS), [('kw', 'title', bad)])])
            self.struct_body(t, depth)
            self.leave()
            return t
        self.enter('tag')
        t = Tag(chain=[(r.choice(TAGS), [])], unit=r.choice(self.p['units']))
        t.body = self.body(depth + 1, count=1) + [Text(kind='|', lines=[('', [('{', bad, None)])])] + self.body(depth + 1, count=1)
        self.leave()
        return t

    def b_try(self, depth):
        r = self.rng
        branches = []
        n = self.count([1, 2, 2, 3], 4, 8)
        for i in range(n):
            body = self.clause(depth)
            if r.random() < self.p['fails']:
                if body.text is not None: body = Body(blocks=[body.text], unit='  ')
                self.control[-1] += 1
                saved = dict(self.frames[-1].vars)
                bad = self.failing_block(depth + 1)
                self.frames[-1].vars = saved
                self.control[-1] -= 1
                k = r.randint(0, len(body.blocks))
                body.blocks.insert(k, bad)
                body.blocks[0].margin = 0
            branches.append(body)
        return Try(branches=branches)

    def b_short(self, depth):
        r = self.rng
        if r.random() < .4:
            t = self.text()
            if r.random() < self.p['fails']: t.kind = '|'; t.lines = [('', ['x ', ('{', self.xg.failing(), None)])]
            return Short(block=t)
        self.control[-1] += 1
        saved = dict(self.frames[-1].vars)
        t = self.b_tag(depth)
        if r.random() < self.p['fails'] and t.chain[0][0] not in ('upper', 'lower', 'merge', 'inline', 'unique', 'comment', 'dedent', 'custom'):
            t.chain = [(t.chain[0][0], [('kw', 'title', self.xg.failing())])] + list(t.chain[1:])
        self.frames[-1].vars = saved
        self.control[-1] -= 1
        return Short(block=t)
