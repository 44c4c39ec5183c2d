"""Shrinking of abstract documents: removes and simplifies blocks as long as a predicate holds."""
import copy
from . import doc as D
from . import expr as X


def _lists(blocks):
    """All mutable lists of blocks in the document."""
    yield blocks
    for b in list(D.walk_blocks(blocks)):
        for s in D.sub_bodies(b): yield s


def candidates(blocks):
    """Yield functions, each performing one reduction step on a given (copied) document; addressed by indices."""
    n_lists = len(list(_lists(blocks)))
    for li in range(n_lists):
        size = len(list(_lists(blocks))[li])
        for i in range(size):
            yield ('drop', li, i)
    nodes = list(D.walk_blocks(blocks))
    for i, b in enumerate(nodes):
        if b.margin or b.mod or b.noise: yield ('plain', i)
        if isinstance(b, (D.Tag, D.If, D.For, D.While, D.Try, D.Short)): yield ('hoist', i)
        if isinstance(b, D.Tag):
            if len(b.chain) > 1:
                for k in range(len(b.chain)): yield ('unchain', i, k)
            for k, (n, attrs) in enumerate(b.chain):
                for j in range(len(attrs)): yield ('unattr', i, k, j)
            if b.head is not None: yield ('unhead', i)
        if isinstance(b, D.If) and len(b.clauses) > 1:
            for k in range(len(b.clauses)): yield ('unclause', i, k)
        if isinstance(b, (D.If, D.For, D.While)) and b.else_ is not None: yield ('unelse', i)
        if isinstance(b, D.Try) and len(b.branches) > 1:
            for k in range(len(b.branches)): yield ('unbranch', i, k)
        for t in texts(b):
            pass
        ts = texts(b)
        for k, t in enumerate(ts):
            if len(t.lines) > 1:
                for j in range(1, len(t.lines)): yield ('unline', i, k, j)
            for j, l in enumerate(t.lines):
                if l and len(l[1]) > 1:
                    for m in range(len(l[1])): yield ('unspan', i, k, j, m)
        for k in range(len(exprs(b))): yield ('simple', i, k)


def texts(b):
    out = [b] if isinstance(b, D.Text) else []
    for name in ('text', 'head'):
        t = getattr(b, name, None)
        if isinstance(t, D.Text): out.append(t)
    bodies = []
    if isinstance(b, D.If): bodies = [x for _, x in b.clauses] + [b.else_]
    if isinstance(b, (D.For, D.While)): bodies = [b.body, b.else_]
    if isinstance(b, D.Try): bodies = b.branches
    out += [x.text for x in bodies if x is not None and x.text is not None]
    return out


def exprs(b):
    """Settable locations of expressions in block `b`: list of (get, set)."""
    out = []
    def loc(o, k): out.append((lambda: o[k], lambda v: o.__setitem__(k, v)))
    for t in texts(b):
        for l in t.lines:
            if not l: continue
            for m, s in enumerate(l[1]):
                if not isinstance(s, str) and s[0] == '{':
                    out.append((lambda l=l, m=m: l[1][m][1], lambda v, l=l, m=m: l[1].__setitem__(m, ('{', v) + tuple(l[1][m][2:]))))
    if isinstance(b, D.Tag):
        for n, attrs in b.chain:
            for j, a in enumerate(attrs):
                if not isinstance(a[-1], str):
                    out.append((lambda attrs=attrs, j=j: attrs[j][-1], lambda v, attrs=attrs, j=j: attrs.__setitem__(j, attrs[j][:-1] + (v,))))
    if isinstance(b, D.If):
        for k in range(len(b.clauses)):
            out.append((lambda k=k: b.clauses[k][0], lambda v, k=k: b.clauses.__setitem__(k, (v, b.clauses[k][1]))))
    for name in ('expr', 'cond'):
        if isinstance(getattr(b, name, None), tuple):
            out.append((lambda name=name: getattr(b, name), lambda v, name=name: setattr(b, name, v)))
    return out


def simpler(e):
    """Simpler variants of an expression."""
    subs = [x for x in X.walk(e) if x is not e]
    seen = []
    for s in sorted(subs, key=lambda s: len(repr(s))):
        if s not in seen: seen.append(s)
    return seen[:12]


def apply(blocks, step):
    """Apply a reduction step in place; returns the new list of blocks or None if not applicable. Multi-valued for 'simple'."""
    op = step[0]
    if op == 'drop':
        l = list(_lists(blocks))[step[1]]
        if l is not blocks and len(l) == 1: return None
        if step[2] >= len(l): return None
        del l[step[2]]
        return blocks
    nodes = list(D.walk_blocks(blocks))
    b = nodes[step[1]]
    if op == 'plain':
        b.margin = 0; b.mod = ''; b.noise = ()
    elif op == 'hoist':
        for l in _lists(blocks):
            for i, x in enumerate(l):
                if x is b:
                    subs = D.sub_bodies(b)
                    new = subs[0] if subs else texts(b)[:1]
                    if isinstance(b, D.Short): new = [b.block]
                    if not new: return None
                    l[i:i + 1] = new
                    return blocks
        return None
    elif op == 'unchain':
        b.chain = list(b.chain); del b.chain[step[2]]
    elif op == 'unattr': del b.chain[step[2]][1][step[3]]
    elif op == 'unhead': b.head = None
    elif op == 'unclause': b.clauses = list(b.clauses); del b.clauses[step[2]]
    elif op == 'unelse': b.else_ = None
    elif op == 'unbranch': b.branches = list(b.branches); del b.branches[step[2]]
    elif op == 'unline': del texts(b)[step[2]].lines[step[3]]
    elif op == 'unspan': del texts(b)[step[2]].lines[step[3]][1][step[4]]
    return blocks


def shrink(blocks, fails, budget=400):
    """`fails(blocks)` must be True for the initial document. Returns a smaller one."""
    progress = True
    while progress and budget > 0:
        progress = False
        for step in list(candidates(blocks)):
            if budget <= 0: break
            if step[0] == 'simple':
                try:
                    e = exprs(list(D.walk_blocks(blocks))[step[1]])[step[2]][0]()
                except IndexError: break
                done = False
                for s in simpler(e):
                    new = copy.deepcopy(blocks)
                    exprs(list(D.walk_blocks(new))[step[1]])[step[2]][1](s)
                    budget -= 1
                    if check(fails, new):
                        blocks = new
                        progress = done = True
                        break
                if done: break
                continue
            new = copy.deepcopy(blocks)
            try: new = apply(new, step)
            except (IndexError, AttributeError, TypeError): continue
            if new is None or not new: continue
            budget -= 1
            if check(fails, new):
                blocks = new
                progress = True
                break
    return blocks


def check(fails, blocks):
    try: return bool(fails(blocks))
    except Exception: return False
