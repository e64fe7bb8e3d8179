"""A reference matcher that records symbols and tokens, and the trees that follow from such a record."""
import re
from lib.peg import Interp


def skipper(whitespace, comment):
    """Skips whitespace and comments"""
    w, c = re.compile(whitespace), re.compile(comment) if comment else None

    def skip(text, pos):
        m = w.match(text, pos)
        if m: pos = m.end()
        while c:
            m = c.match(text, pos)
            if not m or m.end() == pos: break
            pos = m.end()
            m = w.match(text, pos)
            if m: pos = m.end()
        return pos
    return skip


class Recorder(Interp):
    """nodes: (symbol, start, end, nodes) or ('', start, end, dropped)"""

    def __init__(self, rules, text, ws, lws, drop):
        super().__init__(rules, text)
        self.ws, self.lws, self.drop, self.sole = skipper(*ws), lws, drop, False
        self.kept = None

    def blank(self, a, b, drop):
        if drop and 'no_comments' in self.drop and self.text[a:b].strip(): return (('comment__', a, b, (('', a, b, False),)),)
        return (('', a, b, drop),)

    def leaf(self, a, b, kind, sole):
        return (('', a, b, kind in self.drop and not sole),)

    def match(self, e, pos, state=()):
        t, sole = e[0], self.sole
        self.sole = False
        if t == 'dropped':
            r = self.match(e[1], pos, state)
            return r and (r[0], (), r[2])
        if t == 'syn':
            space = lambda p: self.ws(self.text, p)
            wsdrop = 'whitespace' in self.drop or 'no_comments' in self.drop or (e[1] != '~' and 'strings' in self.drop)
            if e[1] == '~':
                end = space(pos)
                return end, self.blank(pos, end, wsdrop and not sole), state
            a = space(pos) if self.lws in ('left', 'both') else pos
            lit = e[1][1:-1]
            if not self.text.startswith(lit, a): return None
            b = a + len(lit)
            c = space(b) if self.lws in ('right', 'both') else b
            return c, self.blank(pos, a, wsdrop) + self.leaf(a, b, 'strings', sole) + self.blank(b, c, wsdrop), state
        if t == 'seq' and e is self.kept:
            nodes, p, data = (), pos, [c for c in e[1] if c != ('syn', '~')][0]
            for c in e[1]:
                self.sole = c is data
                r = self.match(c, p, state)
                if r is None: return None
                p, n, state = r
                nodes += n
            return p, nodes, state
        r = super().match(e, pos, state)
        if r is not None and t in ('lit', 'rx', 'any'):
            return r[0], self.leaf(pos, r[0], 'backticked' if t == 'lit' else 'regexps', sole), r[2]
        return r

    def symbol(self, name, pos, state):
        e = self.rules[name]
        self.sole = e[0] in ('lit', 'rx', 'any', 'syn')
        if 'regexps' in self.drop and single(e): self.kept = e
        return super().symbol(name, pos, state)


def single(e):
    """The definition of a token like "/[a-z]+/ ~" which keeps its data even if regular expressions are dropped otherwise"""
    return e[0] == 'seq' and [c[0] for c in e[1] if c not in (('syn', '~'), ('mand',))] in (['lit'], ['rx'], ['syn'], ['dropped'])


def expected(nodes, text, hidden, dropped):
    """Items of the visible tree: strings with their position, and (name, position, items)"""
    out = []
    for n, a, b, kids in nodes:
        if n == '':
            if not kids and b > a: out.append((a, text[a:b]))
        elif n in dropped: pass
        elif n in hidden: out.extend(expected(kids, text, hidden, dropped))
        else: out.append((n, a, expected(kids, text, hidden, dropped)))
    return out


def merged(items):
    out = []
    for it in items:
        if len(it) == 3: out.append((it[0], it[1], merged(it[2])))
        elif out and len(out[-1]) == 2: out[-1] = (out[-1][0], out[-1][1] + it[1])
        else: out.append(it)
    return out


def actual(node):
    """The items of a tree"""
    def rec(nd):
        if nd.name[:1] != ':': return [(nd.name, nd.pos, inner(nd))]
        return inner(nd)

    def inner(nd):
        if nd.children: return [x for c in nd.children for x in rec(c)]
        return [(nd.pos, nd.content)] if nd.content else []
    return rec(node)[0]


def clean(items):
    """Leaf-nodes with a name know the position of the node, but not of their text"""
    if len(items) == 3:
        kids = [clean(x) for x in items[2]]
        return (items[0], items[1], [(-1, kids[0][1])] if len(kids) == 1 and len(kids[0]) == 2 else kids)
    return items


def bare(item):
    if len(item) == 2: return item[1]
    return item[0], [bare(x) for x in item[2]]


def thin(item):
    """How often an empty match is repeated is unspecified."""
    if len(item) == 2: return item
    out = []
    for x in map(thin, item[2]):
        if len(x) == 3 and not x[2] and bare(x) in map(bare, out): continue
        out.append(x)
    return item[0], item[1], out
