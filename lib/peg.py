"""Generated grammars as plain literals, an independent PEG interpreter as reference, and
renderings of these grammars as EBNF source and as parser objects.

Grammar: (rules, start) with rules = ((name, expr), ...).  expr is one of
  ('lit', s) ('rx', pattern) ('ic', s) ('any',) ('ref', name) ('syn', name)
  ('seq', (e, ...)) ('alt', (e, ...)) ('opt', e) ('many', e) ('some', e) ('count', e, a, b)
  ('inter', ((e, a, b), ...)) ('and', e) ('not', e) ('lb', pattern_or_lit_expr) ('nlb', ...)
  ('cap', name)   - reference to a capturing symbol (same as ref)
  ('get', name) ('pop', name) ('optpop', name) ('mand',)  - mandatory marker inside a seq
The interpreter has neither memoization nor optimizations and threads all state functionally.
"""
import re
from hypothesis import strategies as st

INF = 2 ** 30
STEP_LIMIT = 60000


class TooDeep(Exception):
    pass


# ---------------------------------------------------------------- analysis

def walk(e):
    yield e
    t = e[0]
    if t in ('seq', 'alt'):
        for c in e[1]: yield from walk(c)
    elif t == 'inter':
        for c, _, _ in e[1]: yield from walk(c)
    elif t in ('opt', 'many', 'some', 'count', 'and', 'not', 'lb', 'nlb'):
        yield from walk(e[1])


def nullable(e, rules=None, seen=()):
    """Conservative: True, if e might match without consuming anything."""
    t = e[0]
    if t in ('lit', 'ic'): return not e[1]
    if t == 'rx':
        try: return re.match(e[1], '') is not None or '(?=' in e[1] or '(?!' in e[1] or '*' in e[1]
        except re.error: return True
    if t == 'any': return False
    if t in ('seq',): return all(nullable(c, rules, seen) for c in e[1])
    if t == 'alt': return any(nullable(c, rules, seen) for c in e[1])
    if t in ('opt', 'many', 'and', 'not', 'lb', 'nlb', 'optpop', 'mand'): return True
    if t in ('get', 'pop'): return False      # captured values are not empty in the grammars generated here
    if t == 'some': return nullable(e[1], rules, seen)
    if t == 'count': return e[2] == 0 or nullable(e[1], rules, seen)
    if t == 'inter': return all(a == 0 or nullable(c, rules, seen) for c, a, b in e[1])
    if t in ('ref', 'syn', 'cap'):
        if rules is None or e[1] in seen: return True
        return nullable(rules[e[1]], rules, seen + (e[1],))
    raise ValueError(t)


# ---------------------------------------------------------------- interpreter

class Interp:
    """match(expr, pos, state) -> None | (end, nodes, state); nodes = tuple of named nodes
    (name, start, end, children); state = tuple of (symbol, (values...)) pairs."""

    def __init__(self, rules, text, captures=(), limit=STEP_LIMIT):
        self.rules = dict(rules)
        self.text = text
        self.captures = frozenset(captures)
        self.steps = 0
        self.fwd, self.calls, self.fwdtrouble = (), {}, False   # see P06
        self.limit = limit
        self.backtracks = self.captured = self.retrieved = self.zero = 0

    def match(self, e, pos, state=()):
        self.steps += 1
        if self.steps > self.limit: raise TooDeep
        t, text = e[0], self.text
        if t == 'lit':
            return (pos + len(e[1]), (), state) if text.startswith(e[1], pos) else None
        if t == 'ic':
            seg = text[pos:pos + len(e[1])]
            return (pos + len(e[1]), (), state) if seg.lower() == e[1].lower() else None
        if t == 'rx':
            m = re.compile(e[1]).match(text, pos)
            return (m.end(), (), state) if m else None
        if t == 'any':
            return (pos + 1, (), state) if pos < len(text) else None
        if t in ('ref', 'syn', 'cap'):
            return self.symbol(e[1], pos, state)
        if t == 'seq':
            nodes, p = (), pos
            for c in e[1]:
                if c[0] == 'mand': continue
                r = self.match(c, p, state)
                if r is None:
                    if p > pos: self.backtracks += 1
                    return None
                p, n, state = r
                nodes += n
            return p, nodes, state
        if t == 'alt':
            for c in e[1]:
                r = self.match(c, pos, state)
                if r is not None: return r
            return None
        if t == 'opt':
            r = self.match(e[1], pos, state)
            return r if r is not None else (pos, (), state)
        if t in ('many', 'some', 'count'):
            a, b = {'many': (0, INF), 'some': (1, INF)}.get(t) or (e[2], e[3])
            n, p, nodes = 0, pos, ()
            while n < b:
                r = self.match(e[1], p, state)
                if r is None: break
                n += 1
                nodes += r[1]
                state = r[2]
                if r[0] <= p:          # an empty match can be repeated at will
                    n = max(n, a)
                    break
                p = r[0]
            return (p, nodes, state) if n >= a else None
        if t == 'inter':
            cnt = [0] * len(e[1])
            p, nodes = pos, ()
            while True:
                for i, (c, a, b) in enumerate(e[1]):
                    if cnt[i] < b:
                        r = self.match(c, p, state)
                        if r is not None:
                            cnt[i] += 1
                            nodes += r[1]
                            state = r[2]
                            if r[0] <= p: cnt[i] = max(cnt[i], b)
                            p = r[0]
                            break
                else:
                    ok = all(cnt[i] >= a for i, (c, a, b) in enumerate(e[1]))
                    return (p, nodes, state) if ok else None
        if t == 'and':
            return (pos, (), state) if self.match(e[1], pos, state) is not None else None
        if t == 'not':
            return (pos, (), state) if self.match(e[1], pos, state) is None else None
        if t in ('lb', 'nlb'):
            back = text[:pos][::-1]
            arg = e[1]
            while arg[0] in ('ref', 'syn'): arg = self.rules[arg[1]]
            hit = (re.compile(arg[1]).match(back) is not None) if arg[0] == 'rx' \
                else back.startswith(arg[1])
            return (pos, (), state) if hit == (t == 'lb') else None
        if t in ('get', 'pop', 'optpop'):
            return self.retrieve(t, e[1], pos, state)
        raise ValueError(t)

    def symbol(self, name, pos, state):
        if name in self.fwd:
            before = self.calls.setdefault((name, pos), state)
            if before != state: self.fwdtrouble = True       # memoized result in a different state
        r = self.match(self.rules[name], pos, state)
        if name in self.fwd and r is not None and r[2] != state: self.fwdtrouble = True
        if r is None: return None
        end, nodes, state = r
        if name in self.captures:
            self.captured += 1
            stacks = dict(state)
            stacks[name] = stacks.get(name, ()) + (self.text[pos:end],)
            state = tuple(sorted(stacks.items()))
        return end, ((name, pos, end, nodes),), state

    def retrieve(self, t, name, pos, state):
        stacks = dict(state)
        stack = stacks.get(name, ())
        if not stack:
            if t != 'get': return None
            r = self.symbol(name, pos, state)   # captured upon the first use
            if r is None: return None
            return r[0], ((name, pos, r[0], ()),), r[2]
        v = stack[-1]
        if self.text.startswith(v, pos):
            end = pos + len(v)
            self.retrieved += 1
        elif t == 'optpop':
            end = pos
            self.zero += 1
        else: return None
        if t in ('pop', 'optpop'):
            stacks[name] = stack[:-1]
            state = tuple(sorted(stacks.items()))
        return end, ((name, pos, end, ()),), state

    def parse(self, start, pos=0):
        return self.symbol(start, pos, ())


def skeleton(node, shift=0):
    """Named nodes of a DHParser tree as (name, start, end, children) tuples."""
    def rec(nd):
        kids = ()
        for c in nd.children: kids += rec(c)
        if nd.name[:1] == ':': return kids
        return ((nd.name, nd.pos, nd.pos + nd.strlen(), kids),)
    return rec(node)


def canon(nodes):
    """Collapses runs of equal empty nodes: how often an empty match is repeated is unspecified."""
    out, run = [], set()
    for n, a, b, kids in nodes:
        nd = (n, a, b, canon(kids))
        if a == b:
            if nd in run: continue
            run.add(nd)
        else:
            run = set()
        out.append(nd)
    return tuple(out)


# ---------------------------------------------------------------- EBNF rendering

def lit_ebnf(s):
    if '`' not in s and '\\' not in s and '\n' not in s: return '`' + s + '`'
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'


def ebnf(e, ctx='top'):
    """ctx: top (definiens/inside brackets), seq (element of sequence), atom (operand)."""
    t = e[0]
    if t == 'lit': return lit_ebnf(e[1])
    if t == 'rx': return '/' + e[1].replace('/', '\\/') + '/'
    if t == 'any': return '/(?:.|\\n)/'
    if t == 'mand': return '§'
    if t in ('ref', 'syn', 'cap'): return e[1]
    if t == 'get': return ':' + e[1]
    if t == 'pop': return '::' + e[1]
    if t == 'optpop': return ':?' + e[1]
    if t == 'seq':
        parts, mand = [], ''
        for c in e[1]:
            if c[0] == 'mand': mand = '§'; continue
            parts.append(mand + ebnf(c, 'seq')); mand = ''
        s = ' '.join(parts)
        return s if ctx == 'top' else '(' + s + ')'
    if t == 'alt':
        s = ' | '.join(ebnf(c, 'seq') if c[0] != 'seq' else ebnf(c, 'top') for c in e[1])
        return s if ctx == 'top' else '(' + s + ')'
    if t == 'inter':
        parts = []
        for c, a, b in e[1]:
            if (a, b) == (1, 1): parts.append(ebnf(c, 'atom'))
            elif (a, b) == (0, 1): parts.append('[' + ebnf(c) + ']')
            elif (a, b) == (0, INF): parts.append('{' + ebnf(c) + '}')
            elif (a, b) == (1, INF): parts.append('{' + ebnf(c) + '}+')
            else: parts.append(f"{ebnf(c, 'atom')}{{{a},{b}}}")
        s = ' ° '.join(parts)
        return s if ctx in ('top', 'seq') else '(' + s + ')'
    if t == 'opt': return '[' + ebnf(e[1]) + ']' if ctx != 'atom' else '([' + ebnf(e[1]) + '])'
    if t == 'many': return '{' + ebnf(e[1]) + '}' if ctx != 'atom' else '({' + ebnf(e[1]) + '})'
    if t == 'some': return '{' + ebnf(e[1]) + '}+' if ctx != 'atom' else '({' + ebnf(e[1]) + '}+)'
    if t == 'count':
        s = f"{ebnf(e[1], 'atom')}{{{e[2]},{e[3]}}}"
        return s if ctx != 'atom' else '(' + s + ')'
    if t in ('and', 'not', 'lb', 'nlb'):
        s = {'and': '&', 'not': '!', 'lb': '<-&', 'nlb': '<-!'}[t] + ebnf(e[1], 'atom')
        return s if ctx in ('top', 'seq') else '(' + s + ')'
    raise ValueError(t)


def grammar_ebnf(rules, head=''):
    return head + '\n' + '\n'.join(f'{n} = {ebnf(e)}' for n, e in rules) + '\n'


# ---------------------------------------------------------------- parser objects

def build_grammar(rules, start, forward_root=False, **kw):
    """Assembles parser objects and returns a Grammar object."""
    from DHParser import parse as P
    fwd = {n: P.Forward() for n, _ in rules}
    raw = dict(rules)

    def b(e):
        t = e[0]
        if t == 'lit': return P.Text(e[1])
        if t == 'ic': return P.IgnoreCase(e[1])
        if t == 'rx': return P.RegExp(e[1])
        if t == 'any': return P.AnyChar()
        if t in ('ref', 'cap', 'syn'): return fwd[e[1]]
        if t == 'seq':
            mand = [i for i, c in enumerate(e[1]) if c[0] == 'mand']
            items = [b(c) for c in e[1] if c[0] != 'mand']
            return P.Series(*items, **({'mandatory': mand[0]} if mand else {}))
        if t == 'alt': return P.Alternative(*[b(c) for c in e[1]])
        if t == 'opt': return P.Option(b(e[1]))
        if t == 'many': return P.ZeroOrMore(b(e[1]))
        if t == 'some': return P.OneOrMore(b(e[1]))
        if t == 'count': return P.Counted(b(e[1]), (e[2], e[3]))
        if t == 'inter':
            return P.Interleave(*[b(c) for c, _, _ in e[1]], repetitions=[(x, y) for _, x, y in e[1]])
        if t == 'and': return P.Lookahead(b(e[1]))
        if t == 'not': return P.NegativeLookahead(b(e[1]))
        if t in ('lb', 'nlb'):
            arg = e[1]
            while arg[0] in ('ref', 'syn'): arg = raw[arg[1]]
            return (P.Lookbehind if t == 'lb' else P.NegativeLookbehind)(b(arg))
        raise ValueError(t)

    for n, e in rules:
        p = b(e)
        if e[0] in ('ref', 'cap', 'syn'): p = P.Synonym(p)
        fwd[n].set(p)
        p.name(n)
    return P.Grammar(fwd[start] if forward_root else fwd[start].parser, **kw)


# ---------------------------------------------------------------- generation

LITS = ['a', 'b', 'c', 'ab', 'aa', 'ba', 'x', ',', '(', ')', '+', 'abc', ' ']
RXS = ['[ab]', 'a+', 'b*', '[a-c]+', r'\w', r'\d+', '[^ab]', 'a?b', '(?:ab)+', 'c(?=a)', 'x|y', r'\s*', 'a(?!b)']
RX_CONSUMING = ['[ab]', 'a+', '[a-c]+', r'\w', '[^ab]', 'a?b', '(?:ab)+', 'x|y']
NAMES = ['root', 'A', 'B', 'C', 'D', 'E', 'F']


@st.composite
def exprs(draw, depth, later, anyname, guarded, opts):
    kinds = ['lit', 'lit', 'rx']
    refs = anyname if guarded else later
    if refs: kinds += ['ref', 'ref', 'ref']
    if opts.get('ic'): kinds += ['ic']
    if opts.get('any', True): kinds += ['any']
    if depth > 0:
        kinds += ['seq', 'seq', 'seq', 'alt', 'alt', 'alt', 'opt', 'many', 'some', 'count', 'inter', 'and', 'not']
        if opts.get('lb', True): kinds += ['lb']
    if opts.get('compound') and depth > 1:
        kinds = [k for k in kinds if k in ('seq', 'alt', 'many', 'some', 'inter', 'count')]
        opts = {k: v for k, v in opts.items() if k != 'compound'}
    k = draw(st.sampled_from(kinds))
    sub = lambda g=guarded, d=1: draw(exprs(depth - d, later, anyname, g, opts))
    if k == 'lit': return ('lit', draw(st.sampled_from(LITS)))
    if k == 'ic': return ('ic', draw(st.sampled_from(['a', 'Ab', 'aBc', 'x', 'bA'])))
    if k == 'rx': return ('rx', draw(st.sampled_from(RXS)))
    if k == 'any': return ('any',)
    if k == 'ref': return ('ref', draw(st.sampled_from(refs)))
    if k == 'seq':
        n = draw(st.integers(2, 4))
        out, g = [], guarded
        for _ in range(n):
            c = sub(g)
            out.append(c)
            if not nullable(c): g = True
        return ('seq', tuple(out))
    if k == 'alt':
        return ('alt', tuple(sub() for _ in range(draw(st.integers(2, 4)))))
    if k in ('opt', 'many', 'some'):
        return (k, sub())
    if k == 'count':
        a = draw(st.integers(0, 3)); b = draw(st.integers(max(a, 1), a + 3))
        return ('count', sub(), a, b)
    if k == 'inter':
        items = []
        for _ in range(draw(st.integers(2, 3))):
            a, b = draw(st.sampled_from([(1, 1), (1, 1), (1, 1), (0, 1), (0, INF), (1, INF), (1, 2), (2, 3)]))
            if draw(st.booleans()) or not refs:
                c = draw(st.one_of(st.sampled_from(LITS).map(lambda s: ('lit', s)),
                                   st.sampled_from(RX_CONSUMING).map(lambda s: ('rx', s))))
            else:
                c = sub()
                if nullable(c) and opts.get('sane'): c = ('seq', (('lit', draw(st.sampled_from('abx'))), c))
            items.append((c, a, b))
        return ('inter', tuple(items))
    if k in ('and', 'not'):
        return (k, sub())
    if k == 'lb':
        arg = draw(st.sampled_from([('rx', 'a'), ('rx', '[ab]'), ('rx', 'b+a'), ('rx', r'\w'), ('rx', '$'),
                                    ('rx', ' *,'), ('rx', 'ba')]))
        return (draw(st.sampled_from(['lb', 'nlb'])), arg)
    raise ValueError(k)


@st.composite
def grammars(draw, depth=3, max_rules=5, **opts):
    n = draw(st.integers(1, max_rules))
    names = NAMES[:n]
    rules = []
    for i, name in enumerate(names):
        o = dict(opts, compound=True) if i == 0 and draw(st.integers(0, 9)) else opts
        rules.append((name, draw(exprs(depth, names[i + 1:], names, False, o))))
    rules = prune(tuple(rules))
    return sanitize(rules) if opts.get('sane') else rules


def recursive(rules):
    """Symbols that directly or indirectly refer to themselves."""
    d = {n: set(refs_of(e)) for n, e in rules}
    while True:
        new = {n: r | {y for x in r for y in d.get(x, ())} for n, r in d.items()}
        if new == d: return frozenset(n for n, r in d.items() if n in r)
        d = new


def refs_of(e):
    return [x[1] for x in walk(e) if x[0] in ('ref', 'syn', 'cap', 'get', 'pop', 'optpop')]


def prune(rules, start=None):
    """Keeps the rules reachable from the first one."""
    d = dict(rules)
    todo, seen = [start or rules[0][0]], set()
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        todo.extend(refs_of(d[n]))
    return tuple((n, e) for n, e in rules if n in seen)


def sanitize(rules):
    """Rewrites constructs that the EBNF-compiler rejects (optional parsers as operands of
    repetitions, lookaheads or non-last alternatives)."""
    d = dict(rules)

    def solid(e):
        return ('seq', (('lit', 'b'), e)) if nullable(e, d) or e[0] in ('some', 'count') else e

    def fix(e):
        t = e[0]
        if t == 'seq': return (t, tuple(fix(c) for c in e[1]))
        if t == 'alt':
            l = list(dict.fromkeys(fix(c) for c in e[1]))
            if len(l) == 1: return l[0]
            return (t, tuple(solid(c) for c in l[:-1]) + (l[-1],))
        if t == 'inter': return (t, tuple((solid(fix(c)), a, b) for c, a, b in e[1]))
        if t in ('opt', 'many', 'some', 'and', 'not'): return (t, solid(fix(e[1])))
        if t == 'count': return (t, solid(fix(e[1])), e[2], max(e[3], 2))
        return e
    for name, e in rules:
        d[name] = fix(e)
    return tuple((n, d[n]) for n, _ in rules)


# sample strings matching common regexes
RX_SAMPLES = {'[ab]': ['a', 'b'], 'a+': ['a', 'aaa'], 'b*': ['', 'bb'], '[a-c]+': ['abc', 'c'], r'\w': ['a', '1', '_'],
              r'\d+': ['1', '23'], '[^ab]': ['c', '\n', 'x'], 'a?b': ['b', 'ab'], '(?:ab)+': ['ab', 'abab'],
              'c(?=a)': ['c'], 'x|y': ['x', 'y'], r'\s*': ['', ' ', '\n'], 'a(?!b)': ['a'],
              '`+': ['`', '``', '```'], '[ab]+': ['a', 'ab', 'b'], 'a|ab': ['a'], 'ba?': ['b', 'ba'], '[xy]': ['x', 'y'],
              '[^x]': ['a', '`', 'y'], '.': ['x', 'a', '`'], r'\d': ['1', '2'], 'a|bc': ['a', 'bc']}


def sentence(rules, start, tape, captures=(), maxlen=60):
    """Derives a sentence by a random walk steered by the integers of tape."""
    d = dict(rules)
    it = iter(tape)
    out = []
    stacks = {}

    def nxt(n):
        try: return next(it) % n
        except StopIteration: return 0

    def size(): return sum(map(len, out))

    def go(e, depth):
        t = e[0]
        if size() > maxlen: return
        if t == 'lit': out.append(e[1])
        elif t == 'ic':
            k = nxt(3)
            out.append(e[1].upper() if k == 1 else e[1].swapcase() if k == 2 else e[1])
        elif t == 'rx':
            s = RX_SAMPLES.get(e[1], ['a'])
            out.append(s[nxt(len(s))])
        elif t == 'any': out.append('ab\n '[nxt(4)])
        elif t in ('ref', 'syn', 'cap'):
            if depth > 12: return
            mark = len(out)
            go(d[e[1]], depth + 1)
            if e[1] in captures: stacks.setdefault(e[1], []).append(''.join(out[mark:]))
        elif t == 'seq':
            for c in e[1]: go(c, depth)
        elif t == 'alt':
            go(e[1][nxt(len(e[1]))], depth)
        elif t == 'opt':
            if nxt(2) and depth < 10: go(e[1], depth + 1)
        elif t in ('many', 'some', 'count'):
            a, b = {'many': (0, 3), 'some': (1, 3)}.get(t) or (e[2], e[3])
            n = a + nxt(b - a + 1)
            if depth > 8: n = a
            for _ in range(n): go(e[1], depth + 1)
        elif t == 'inter':
            items = []
            for c, a, b in e[1]:
                items += [c] * (a + nxt(min(b, a + 2) - a + 1))
            while items:
                go(items.pop(nxt(len(items))), depth + 1)
        elif t in ('get', 'pop', 'optpop'):
            if stacks.get(e[1]):
                if t == 'optpop' and nxt(2):
                    stacks[e[1]].pop(); return
                out.append(stacks[e[1]][-1])
                if t != 'get': stacks[e[1]].pop()
    go(('ref', start), 0)
    return ''.join(out)[:maxlen]


MUT = ['a', 'b', 'c', 'x', ' ', ',', '(', ')', '1', '\n', 'ab', 'ä', '']


def mutate(s, ops):
    for kind, p, c in ops:
        i = p % (len(s) + 1)
        ch = MUT[c % len(MUT)]
        if kind == 0: s = s[:i] + ch + s[i:]
        elif kind == 1: s = s[:i] + s[i + 1:]
        elif kind == 2: s = s[:i] + ch + s[i + 1:]
        elif kind == 3: s = s[:i]
        else: s = s + ch
    return s


@st.composite
def texts_for(draw, rules, start, n=3, captures=(), maxlen=60):
    out = []
    for i in range(draw(st.integers(1, n))):
        tape = draw(st.lists(st.integers(0, 11), max_size=25))
        s = sentence(rules, start, tape, captures, maxlen)
        if draw(st.integers(0, 2)) == 0:
            s = mutate(s, draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 60), st.integers(0, 12)),
                                        min_size=1, max_size=3)))
        out.append(s)
    return tuple(out)


@st.composite
def cases(draw, n=3, **kw):
    g = draw(grammars(**kw))
    return (g, draw(texts_for(g, g[0][0], n)))


# ---------------------------------------------------------------- grammars with whitespace

WS = [('[ ]*', ''), ('[ \\t]*(?:\\n[ ]*)?', ''), ('\\s*', '#[^\\n]*'), ('[ ]*', '{[^}]*}'), ('\\s*', '')]


def multi(e):
    """`symbol = token ~` keeps its data when optimized, even if tokens are dropped (as the tests demand)."""
    if e[0] == 'seq' and sum(c != ('syn', '~') for c in e[1]) < 2: return (e[0], (('lit', 'b'),) + e[1])
    return e


@st.composite
def tokenlike(draw):
    """A list of flat symbols: the part of grammars that optimization is about."""
    names = NAMES[1:1 + draw(st.integers(1, 3))]
    leaf = st.one_of(st.sampled_from(LITS).map(lambda s: ('lit', s)), st.sampled_from(RX_CONSUMING).map(lambda s: ('rx', s)))

    def flat(depth):
        k = draw(st.sampled_from(['leaf', 'leaf', 'seq', 'seq', 'alt', 'alt', 'opt', 'and', 'not', 'some'])) if depth else 'leaf'
        if k == 'leaf': return draw(leaf)
        if k in ('seq', 'alt'): return (k, tuple(flat(depth - 1) for _ in range(draw(st.integers(2, 4)))))
        return (k, flat(depth - 1))
    rules = [('root', (draw(st.sampled_from(['some', 'some', 'many'])), ('alt', tuple(('ref', n) for n in names))))]
    if len(names) == 1: rules = [('root', ('seq', (('ref', 'A'), flat(1), ('opt', ('ref', 'A')))))]
    for n in names:
        rules.append((n, (draw(st.sampled_from(['seq', 'alt'])), tuple(flat(2) for _ in range(draw(st.integers(2, 3)))))))
    return sanitize(tuple(rules))


@st.composite
def nested(draw):
    """Grammars for texts with several levels of nesting like those of data-formats: (almost) every sample matches and has some named parts."""
    names = NAMES[:draw(st.integers(3, 6))]
    starters = list(draw(st.permutations(['(', '[', '<', '%', '=', '+', '-', '&', ':', ';'])))
    rules = []
    for i, n in enumerate(names):
        later = names[i + 1:]
        token = st.sampled_from(['x', 'a', ',', 'b', 'ab']).map(lambda s: ('lit', s)) | st.sampled_from(['[a-c]+', '\\d', 'a|bc']).map(lambda s: ('rx', s))
        if not later:
            rules.append((n, draw(token)))
            continue
        item = st.sampled_from(later).map(lambda m: ('ref', m))

        def inner(d):
            k = draw(st.sampled_from(['ref', 'ref', 'ref', 'token', 'list', 'opt', 'some', 'alt', 'group', 'many'])) if d else 'ref'
            if k == 'ref': return draw(item)
            if k == 'token': return draw(token)
            if k == 'alt': return ('alt', tuple(dict.fromkeys(draw(st.lists(item, min_size=2, max_size=3, unique=True))))) if len(later) > 1 else draw(item)
            if k == 'group': return ('seq', (draw(token), inner(d - 1), draw(token)))
            x = inner(d - 1)
            if k == 'list': return ('seq', (x, ('many', ('seq', (('lit', ','), x)))))
            return (k, x)
        k = draw(st.sampled_from(['seq', 'seq', 'seq', 'plain', 'alt', 'synonym'])) if i else 'seq'
        if k == 'seq': e = ('seq', (('lit', starters.pop()),) + tuple(inner(2) for _ in range(draw(st.integers(1, 3)))) + ((draw(token),) if draw(st.booleans()) else ()))
        elif k == 'plain': e = draw(token)
        elif k == 'synonym': e = draw(item)
        else: e = inner(1)
        rules.append((n, e))
    rules[0] = (names[0], ('some', ('alt', tuple(('ref', m) for m in names[1:]))) if draw(st.integers(0, 2)) == 0 else rules[0][1])
    return sanitize(prune(tuple(rules)))


@st.composite
def wscases(draw, drops=True, hide=True, reduction=True, mand=False, keep=True, n=4, base=None, spaces=3):
    """Grammars with literals that include whitespace ('syn' with quotes) and explicit whitespace '~'.
    Returns (rules, header, texts, (whitespace, literalws), info)"""
    g = draw(base() if base else st.one_of(grammars(depth=3, max_rules=4, sane=True, lb=False, any=False), tokenlike()))

    def dress(e):
        t = e[0]
        if t in ('lit', 'rx'):
            k = draw(st.integers(0, 3))
            if t == 'lit' and k < 2: return ('syn', '"' + e[1].strip() + '"' if e[1].strip() else '","')
            if k == 2: return ('seq', (e, ('syn', '~')))
            return e
        if t in ('seq', 'alt'):
            kids = []
            for c in e[1]:
                c = dress(c)
                if t == 'seq' and c[0] == 'seq': kids += [x for x in c[1] if x != ('mand',)]
                else: kids.append(c)
            if mand and t == 'seq' and len(kids) > 1 and draw(st.integers(0, 2)) == 0:
                kids.insert(draw(st.integers(1, len(kids) - 1)), ('mand',))
            return (t, tuple(kids))
        if t == 'inter': return (t, tuple((dress(c), a, b) for c, a, b in e[1]))
        if t in ('opt', 'many', 'some', 'and', 'not'): return (t, dress(e[1]))
        if t == 'count': return (t, dress(e[1]), e[2], e[3])
        return e
    rules = tuple((n, multi(dress(e)) if keep else dress(e)) for n, e in g)
    ws = draw(st.sampled_from(WS))
    lws = draw(st.sampled_from(['none', 'right', 'left', 'both']))
    h = f'@ whitespace = /{ws[0]}/\n' + (f'@ comment = /{ws[1]}/\n' if ws[1] else '') + f'@ literalws = {lws}\n'
    names = [n for n, _ in rules[1:]]
    info = {'hide': (), 'drop': (), 'reduction': ''}
    hidden = [n for n in names if draw(st.integers(0, 3)) == 0] if hide else []
    if hidden:
        h += '@ disposable = ' + ', '.join(hidden) + '\n'
        info['hide'] = tuple(hidden)
    if drops:
        d = draw(st.sampled_from([(), (), ('whitespace',), ('whitespace', 'strings'), ('strings',), ('backticked', 'whitespace')]))
        if d: h += '@ drop = ' + ', '.join(d) + '\n'
        info['drop'] = d
    if reduction and draw(st.booleans()):
        info['reduction'] = draw(st.sampled_from(['none', 'flatten', 'merge_treetops', 'merge'] if reduction == 'all' else
                                                 ['flatten', 'merge_treetops', 'merge']))
        h += '@ reduction = ' + info['reduction'] + '\n'
    texts = []
    for t in draw(texts_for(g, g[0][0], n)):
        for i in draw(st.lists(st.integers(0, 60), max_size=spaces)):
            i = i % (len(t) + 1)
            t = t[:i] + draw(st.sampled_from([' ', '  ', ' ', '\n', '#c\n', '{x}'])) + t[i:]
        texts.append(t)
    return rules, h, tuple(texts), (ws, lws), info


def undress(rules, ws, lws):
    """Expresses whitespace through plain regular expressions for the reference matcher."""
    from DHParser.parse import mixin_comment
    w = ('rx', mixin_comment(ws[0], ws[1]))

    def go(e):
        t = e[0]
        if t == 'syn':
            if e[1] == '~': return w
            parts = (('lit', e[1][1:-1]),)
            if lws in ('left', 'both'): parts = (w,) + parts
            if lws in ('right', 'both'): parts = parts + (w,)
            return ('seq', parts) if len(parts) > 1 else parts[0]
        if t in ('seq', 'alt'): return (t, tuple(go(c) for c in e[1]))
        if t in ('opt', 'many', 'some', 'and', 'not'): return (t, go(e[1]))
        if t == 'inter': return (t, tuple((go(c), a, b) for c, a, b in e[1]))
        if t == 'count': return (t, go(e[1]), e[2], e[3])
        return e
    return tuple((n, go(e)) for n, e in rules)


# ---------------------------------------------------------------- grammars with captures

CAPRX = ['`+', '[ab]', '\\w', '[ab]+', 'a|ab', 'ba?']


@st.composite
def capgrammars(draw, optpop=True, look=True):
    """Grammars with one or two captured symbols d, e that never capture nothing.
    Returns (rules, captures)."""
    caps = draw(st.sampled_from([('d',), ('d',), ('d', 'e')]))
    names = ['root'] + ['A', 'B'][:draw(st.integers(0, 2))]
    lits = [('lit', c) for c in ('x', 'y', 'a', 'b', ' ', '`')] + [('rx', r) for r in ('[xy]', '\\w', '[^x]', '.')]

    def leaf(guarded, later):
        k = draw(st.integers(0, 9))
        c = draw(st.sampled_from(caps))
        if k < 3: return ('cap', c)
        if k < 5: return ('pop', c)
        if k == 5: return ('get', c)
        if k == 6 and optpop: return ('optpop', c)
        if k == 7 and (names if guarded else later): return ('ref', draw(st.sampled_from(names if guarded else later)))
        return draw(st.sampled_from(lits))

    def solid(e):
        return e[0] in ('cap', 'lit', 'rx')

    def expr(depth, guarded, later):
        k = draw(st.integers(0, 8)) if depth > 0 else 0
        if k < 1: return leaf(guarded, later)
        if k < 5:
            out = []
            for _ in range(draw(st.integers(2, 4))):
                out.append(expr(depth - 1, guarded or any(solid(c) for c in out), later))
            return ('seq', tuple(out))
        if k == 5: return ('alt', tuple(expr(depth - 1, guarded, later) for _ in range(draw(st.integers(2, 3)))))
        if k == 6: return ('opt', expr(depth - 1, guarded, later))
        if k == 7 and look and draw(st.integers(0, 2)) == 0:
            return (draw(st.sampled_from(['and', 'not'])), expr(depth - 1, guarded, later))
        return (draw(st.sampled_from(['many', 'some'])), ('seq', (draw(st.sampled_from([('cap', caps[0])] + lits)),
                                                             expr(depth - 1, True, later))))
    rules = [(n, expr(3, False, names[i + 1:])) for i, n in enumerate(names)]
    for c in caps:
        rules.append((c, draw(st.one_of(st.sampled_from(CAPRX).map(lambda r: ('rx', r)),
                                        st.just(('alt', (('lit', 'a'), ('lit', 'bb'), ('rx', '`+'))))))))
    rules = sanitize(prune(tuple(rules)))
    rules = tuple((n, ('seq', (('lit', 'a'), e)) if e[0] in ('get', 'pop', 'optpop') else e) for n, e in rules)
    used = {x[1] for n, e in rules for x in walk(e) if x[0] in ('get', 'pop', 'optpop')}
    return rules, tuple(c for c in caps if c in used)


@st.composite
def capcases(draw, n=4, **kw):
    rules, caps = draw(capgrammars(**kw))
    return rules, caps, draw(texts_for(rules, 'root', n, caps))
