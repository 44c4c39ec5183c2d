"""Strict tokenizer of the HTML produced by Hypertag, independent of the library."""
import html
import re


class BadHTML(Exception):
    pass


NAME = re.compile(r'[^\s<>/="\']+')

def tokens(s):
    """List of ('text', str) | ('start', name, [(attr, value|None)], selfclosing) | ('end', name) | ('comment', str) | ('doctype', str)."""
    out = []
    i, n = 0, len(s)
    while i < n:
        if s[i] != '<':
            j = s.find('<', i)
            if j < 0: j = n
            t = s[i:j]
            if '>' in t: raise BadHTML('bare > in text: %r' % t)
            out.append(('text', t))
            i = j
        elif s.startswith('<!--', i):
            j = s.find('-->', i + 4)
            if j < 0: raise BadHTML('unclosed comment')
            out.append(('comment', s[i + 4:j]))
            i = j + 3
        elif s.startswith('<!', i):
            j = s.index('>', i)
            out.append(('doctype', s[i:j + 1]))
            i = j + 1
        elif s.startswith('</', i):
            j = s.find('>', i)
            name = s[i + 2:j]
            if j < 0 or not NAME.fullmatch(name): raise BadHTML('bad closing tag %r' % s[i:i + 30])
            out.append(('end', name))
            i = j + 1
        else:
            m = NAME.match(s, i + 1)
            if not m: raise BadHTML('bad tag %r' % s[i:i + 30])
            name = m.group()
            i = m.end()
            attrs = []
            closing = False
            while True:
                if i >= n: raise BadHTML('unclosed tag')
                if s[i] == '>':
                    i += 1
                    break
                if s.startswith(' />', i):
                    closing = True
                    i += 3
                    break
                if s[i] != ' ': raise BadHTML('unexpected %r inside a tag' % s[i:i + 20])
                i += 1
                m = NAME.match(s, i)
                if not m: raise BadHTML('bad attribute %r' % s[i:i + 20])
                attr = m.group()
                i = m.end()
                value = None
                if i < n and s[i] == '=':
                    q = s[i + 1:i + 2]
                    if q not in ('"', "'"): raise BadHTML('unquoted attribute %r' % s[i:i + 20])
                    j = s.find(q, i + 2)
                    if j < 0: raise BadHTML('unclosed attribute')
                    value = s[i + 2:j]
                    if '<' in value or '>' in value: raise BadHTML('bare < or > in an attribute: %r' % value)
                    i = j + 1
                attrs.append((attr, value))
            out.append(('start', name, attrs, closing))
    return out


ENTITY = re.compile(r'&(amp|lt|gt|quot|apos|#\d+|#x[0-9a-fA-F]+);')

def decode(s):
    """Decode character references; every & must start a valid one."""
    i = 0
    while True:
        i = s.find('&', i)
        if i < 0: break
        if not ENTITY.match(s, i): raise BadHTML('bare & in %r' % s[max(0, i - 10):i + 20])
        i += 1
    return ENTITY.sub(lambda m: {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}.get(m.group(1)) or chr(int(m.group(1)[2:], 16) if m.group(1)[1] == 'x' else int(m.group(1)[1:])), s)


def tree(s, void_ok=True):
    """Nested list [name, attrs, children] of elements; text is dropped if blank. Elements must be properly nested."""
    root = ['', [], []]
    stack = [root]
    for t in tokens(s):
        if t[0] == 'text':
            if t[1].strip(): stack[-1][2].append(decode(t[1]).split())
        elif t[0] == 'start':
            e = [t[1], [(a, decode(v) if v is not None else None) for a, v in t[2]], []]
            stack[-1][2].append(e)
            if not t[3]: stack.append(e)
        elif t[0] == 'end':
            if len(stack) == 1 or stack[-1][0] != t[1]: raise BadHTML('unexpected </%s>' % t[1])
            stack.pop()
    if len(stack) > 1: raise BadHTML('<%s> is not closed' % stack[-1][0])
    return root[2]
