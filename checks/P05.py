"""P05: left recursion.  Generated directly and indirectly left-recursive grammars against a reference interpreter that
implements "seed and grow" in its plainest form (without memoization), and simple rules against the iterative formulation of
the same rule.  Termination is checked for arbitrary recursions by counting parser calls."""
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import peg

RULE = 'a left-recursive symbol grew at least twice on the text (or, for termination: a symbol was re-entered at its own position)'
ASSUMPTIONS = ['interwoven left-recursion (several left-recursive cycles through one symbol) is documented as unsupported: only termination is checked there']


class SeedAndGrow(peg.Interp):
    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.seeds, self.grown, self.reentered = {}, 0, 0

    def symbol(self, name, pos, state):
        key = (name, pos)
        if key in self.seeds:
            self.reentered += 1
            return self.seeds[key]
        self.seeds[key] = best = None
        n = 0
        while True:
            r = super().symbol(name, pos, state)
            if r is None or (best is not None and r[0] <= best[0]): break
            best = self.seeds[key] = r
            n += 1
        del self.seeds[key]
        self.grown = max(self.grown, n)
        return best


lit = lambda s: ('lit', s)
OPS, ATOMS = 'xyz+', 'abcd'


@st.composite
def tails(draw, refs):
    k = draw(st.integers(0, 9))
    op = lit(draw(st.sampled_from(OPS)))
    ref = ('ref', draw(st.sampled_from(refs)))
    if k < 4: return (op,)
    if k < 7: return (op, ref)
    if k == 7: return (op, ('opt', ref))
    if k == 8: return (('some', op),)
    return (('not', lit('+')), op) if op != lit('+') else (op, ('many', lit('x')))


@st.composite
def direct(draw):
    n = draw(st.integers(1, 3))
    names = ('E', 'T', 'F')[:n]
    rules = []
    for i, nm in enumerate(names):
        nxt = [('ref', names[i + 1])] if i + 1 < n else []
        rec = []
        for _ in range(draw(st.integers(1 if i == 0 else 0, 3))):
            item = ('seq', (('ref', nm),) + draw(tails(names[i:])))
            h = draw(st.integers(0, 11))
            if h == 0: item = ('seq', (('opt', lit('-')),) + item[1])            # left-recursion hidden behind an option
            elif h == 1: item = ('seq', (('not', lit('-')),) + item[1])
            elif h == 2: item = ('seq', (('seq', item[1][:2]),) + item[1][2:] + (('opt', lit('+')),))
            rec.append(item)
        base = list(nxt)
        if not base or draw(st.integers(0, 2)) == 0: base.append(lit(draw(st.sampled_from(ATOMS))))
        k = draw(st.integers(0, 3))
        if k == 0 or not nxt and k < 3:
            r = ('ref', draw(st.sampled_from(names)))
            base.append(draw(st.sampled_from([('seq', (lit('('), r, lit(')'))), ('seq', (lit('('), ('many', r), lit(')'))),
                                              ('seq', (lit('-'), r))])))
        alts = list(dict.fromkeys(rec + base))
        if draw(st.integers(0, 5)) == 0: alts = draw(st.permutations(alts))
        if draw(st.integers(0, 3)) == 0 and len(alts) > 2:
            cut = draw(st.integers(2, len(alts)))
            alts = [('alt', tuple(alts[:cut]))] + alts[cut:]
        rules.append((nm, ('alt', tuple(alts)) if len(alts) > 1 else alts[0]))
    return tuple(rules)


@st.composite
def cycle(draw):
    n = draw(st.integers(2, 4))
    names = ('A', 'B', 'C', 'D')[:n]
    rules = []
    for i, nm in enumerate(names):
        alts = []
        for _ in range(draw(st.integers(1, 2))):
            t = lit(draw(st.sampled_from('xy')))
            rest = (t, ('ref', 'A')) if draw(st.integers(0, 5)) == 0 else (t,)
            if draw(st.integers(0, 7)) == 0: rest = (('opt', t),)
            alts.append(('seq', (('ref', names[(i + 1) % n]),) + rest))
        if i == n - 1 or draw(st.booleans()): alts.append(lit('abcd'[i]))
        alts = list(dict.fromkeys(alts))
        rules.append((nm, ('alt', tuple(alts)) if len(alts) > 1 else alts[0]))
    return tuple(rules)


@st.composite
def word(draw, ops='xyz+'):
    """Mostly atom op atom op op …"""
    out = [draw(st.sampled_from('aabcd(-'))]
    for _ in range(draw(st.integers(0, 7))):
        out.append(draw(st.sampled_from(ops)) if draw(st.integers(0, 3)) else draw(st.sampled_from('abcd()-')))
        if draw(st.integers(0, 2)) == 0: out.append(draw(st.sampled_from('abcd(')))
    if '(' in out: out += [')'] * draw(st.integers(0, 2))
    return ''.join(out)


@st.composite
def sentences(draw, rules, start):
    """Derives sentences of the left-recursive rules by unfolding, so that long recursions occur."""
    tape = iter(draw(st.lists(st.integers(0, 11), max_size=40)))
    d = dict(rules)
    nxt = lambda n: next(tape, 0) % n

    def go(e, depth):
        t = e[0]
        if t == 'lit': return e[1]
        if t == 'ref':
            if depth > 7:
                cand = [c for c in (d[e[1]][1] if d[e[1]][0] == 'alt' else ()) if c[0] == 'lit']
                return cand[0][1] if cand else 'a'
            return go(d[e[1]], depth + 1)
        if t == 'seq': return ''.join(go(c, depth) for c in e[1])
        if t == 'alt':
            return go(e[1][nxt(len(e[1]))], depth)
        if t in ('opt', 'many'): return go(e[1], depth) if nxt(2) else ''
        if t == 'some': return go(e[1], depth) * (1 + nxt(2))
        return ''
    s = go(('ref', start), 0)[:40]
    if draw(st.integers(0, 3)) == 0:
        s = peg.mutate(s, draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 60), st.integers(0, 12)), min_size=1, max_size=2)))
    return s


@st.composite
def lrcases(draw, family, n=6):
    rules = draw(family)
    names = [nm for nm, _ in rules]
    texts = []
    for _ in range(draw(st.integers(2, n))):
        start = draw(st.sampled_from(names)) if draw(st.integers(0, 2)) == 0 else names[0]
        texts.append((start, draw(st.one_of(word(), sentences(rules, start), sentences(rules, start)))))
    order = draw(st.permutations(rules)) if draw(st.booleans()) else rules
    if order[0][0] != names[0] and draw(st.integers(0, 1)): order = (('root', ('seq', (('ref', names[0]), ('many', ('seq', (lit(','), ('ref', names[0]))))))),) + tuple(order)
    return tuple(order), tuple(texts)


def judge(gr, rules, start, text, ctx, src):
    from lib.dh import errors_only
    ref = SeedAndGrow(rules, text)
    try: r = ref.parse(start)
    except (peg.TooDeep, RecursionError): ctx.label('reference gave up'); return
    msg = (start, repr(text), src)
    tree = gr(text, start, complete_match=False)
    errors = errors_only(tree.errors)
    if r is None:
        check(errors, 'no match expected', tree.as_sxpr(), *msg)
        ctx.label('no match')
    else:
        equal(tree.content, text[:r[0]], 'matched text', tree.as_sxpr(), *msg)
        check(not errors, errors, *msg)
        equal(peg.canon(peg.skeleton(tree)), peg.canon(r[1]), 'named nodes', tree.as_sxpr(), *msg)
        ctx.label('match')
    tree = gr(text, start)
    equal(bool(tree.errors), not (r and r[0] == len(text)), 'complete match', tree.errors, *msg)
    if not any(e.code == 720 for e in tree.errors): equal(tree.content, text, *msg)      # 720: trailing whitespace
    ctx.label('grown', ref.grown > 1)
    ctx.label('grown more than 3 times', ref.grown > 3)
    if ref.grown > 1: ctx.nontrivial()


def grammar_of(rules, ctx):
    from lib.dh import compile_grammar, errors_only
    src = peg.grammar_ebnf(rules, '@ literalws = none\n@ whitespace = //\n')
    gr, messages = compile_grammar(src)
    if gr is None: ctx.skip('rejected ' + str(errors_only(messages)[0])[:80])
    if any('Reorder' in str(e) for e in messages): ctx.skip('reordered')
    return gr, src


@prop(lambda: lrcases(direct()), quick=500, shards=8, rule=RULE)
def directly(case, ctx):
    """One or several precedence-levels of directly left-recursive symbols."""
    rules, texts = case
    gr, src = grammar_of(rules, ctx)
    for start, text in texts: judge(gr, rules, start, text, ctx, src)


@prop(lambda: lrcases(direct()), quick=250, shards=4, rule=RULE)
def objects(case, ctx):
    """The same with grammars assembled from parser-objects, all of which are wrapped in Forward-parsers."""
    rules, texts = case
    if rules[0][0] == 'root': rules = rules[1:]
    for start, text in texts:
        from DHParser.parse import GrammarError
        try: gr = peg.build_grammar(peg.prune(rules, start), start, forward_root=True)
        except GrammarError: ctx.skip('rejected')
        judge(gr, rules, start, text, ctx, repr(rules))


def entered_elsewhere(case, exc):
    """The cycle is entered through another symbol than the one that has been declared as Forward."""
    rules, texts = case
    from DHParser.parse import Forward
    from lib.dh import compile_grammar
    gr, _ = compile_grammar(peg.grammar_ebnf(rules, '@ literalws = none\n@ whitespace = //\n'))
    for start, text in texts:
        if repr(text) in str(exc) and not isinstance(gr[start], Forward): return True
    inner = any(c == ('ref', 'A') for nm, e in rules for x in peg.walk(e) if x[0] == 'seq' for c in x[1][nm != 'root':])
    return inner and not isinstance(gr['A'], Forward)


@prop(lambda: lrcases(cycle()), quick=500, shards=8, rule=RULE, known={'entry': entered_elsewhere})
def indirectly(case, ctx):
    """Cycles of two to four symbols."""
    rules, texts = case
    gr, src = grammar_of(rules, ctx)
    from DHParser.parse import Forward
    if sum(isinstance(gr[nm], Forward) for nm, _ in rules if nm != 'root') > 1: ctx.skip('interwoven')
    for start, text in texts: judge(gr, rules, start, text, ctx, src)


# ---------------------------------------------------------------- equivalence with iteration

@st.composite
def iterative(draw):
    """E = E tail | … | base …  with the iterative equivalent  base { tail }"""
    rx = st.sampled_from(['[xy]', 'x+', r'\+', 'y', ','])
    tails = draw(st.lists(st.lists(st.one_of(rx.map(lambda s: ('rx', s)), st.just(('ref', 'N'))), min_size=1, max_size=3).map(tuple),
                          min_size=1, max_size=3, unique=True))
    tails = [t if t[0][0] == 'rx' or draw(st.integers(0, 3)) == 0 else (lit('x'),) + t for t in tails]
    bases = draw(st.lists(st.sampled_from([('ref', 'N'), lit('('), ('seq', (lit('('), ('ref', 'E'), lit(')')))]), min_size=1, max_size=2, unique=True))
    name = draw(st.sampled_from(['E', 'E', 'root']))
    base = '(' if bases[0] == lit('(') else 'a'
    if base == 'a' and ('ref', 'N') not in bases: base = '(('
    word = base + ''.join(''.join(
        {'[xy]': 'x', 'x+': 'xx', r'\+': '+'}.get(c[1], c[1]) if c[0] != 'ref' else 'a' for c in draw(st.sampled_from(tails)))
        for _ in range(draw(st.integers(0, 14))))
    if draw(st.integers(0, 5)) == 0: word = base + word[len(base):] * draw(st.integers(5, 40))
    if draw(st.integers(0, 3)) == 0: word = peg.mutate(word, [(draw(st.integers(0, 4)), draw(st.integers(0, 30)), draw(st.integers(0, 12)))])
    return tuple(tails), tuple(bases), name, word, draw(st.booleans())


@prop(iterative, quick=500, shards=8, rule='the iterative formulation matched at least two repetitions')
def iteration(case, ctx):
    """The left-recursive rule consumes what the iterative one consumes, and its nesting is the left fold of the iterations."""
    tails, bases, name, text, pre = case
    ren = lambda e: ('ref', name) if e == ('ref', 'E') else (e[0], tuple(ren(c) for c in e[1])) if e[0] == 'seq' else e
    bases = tuple(ren(b) for b in bases)
    alts = tuple(('seq', (('ref', name),) + t) for t in tails) + bases
    rules = ((name, ('alt', alts)), ('N', ('rx', 'a')))
    used = 'N' in peg.refs_of(('alt', alts))
    gr, src = grammar_of(rules if used else rules[:1], ctx)
    plain = peg.Interp(rules, text)

    def expr(pos):       # -> (end, node) by iteration
        r = None
        for b in bases:
            if b[0] == 'seq':
                if not text.startswith('(', pos): continue
                inner = expr(pos + 1)
                if inner and text.startswith(')', inner[0]):
                    r = (inner[0] + 1, (inner[1],)); break
            else:
                m = plain.match(b, pos)
                if m: r = m[:2]; break
        if r is None: return None
        end, node = r[0], (name, pos, r[0], r[1])
        n = 0
        while True:
            for t in tails:
                m = plain.match(('seq', t), end)
                if m: break
            else: break
            n += 1
            end = m[0]
            node = (name, pos, end, (node,) + m[1])
        depth[0] = max(depth[0], n)
        return end, node
    depth = [0]
    r = expr(0)
    tree = gr(text, name, complete_match=False)
    if r is None: check(tree.errors, tree.as_sxpr(), repr(text), src)
    else:
        equal(tree.content, text[:r[0]], repr(text), src)
        equal(peg.skeleton(tree), (r[1],), repr(text), src)
    tree = gr(text, name)
    equal(bool(tree.errors), not (r and r[0] == len(text)), tree.errors, repr(text), src)
    ctx.label('matched', r is not None)
    if depth[0] > 1: ctx.nontrivial()


# ---------------------------------------------------------------- termination

@st.composite
def wild(draw):
    n = draw(st.integers(1, 4))
    names = peg.NAMES[:n]
    rules = tuple((nm, draw(peg.exprs(2, names, names, True, dict(lb=False)))) for nm in names)
    rules = peg.sanitize(peg.prune(rules))
    return rules, draw(st.lists(st.text(st.sampled_from('aabbcx,()+ '), max_size=8), min_size=1, max_size=4)), draw(st.booleans())


MAX_CALLS = 2000000


@prop(wild, quick=500, shards=8, rule=RULE)
def terminates(case, ctx):
    """Arbitrary recursions, interwoven left-recursions included."""
    from DHParser import parse
    rules, texts, objects = case
    names = [nm for nm, _ in rules]
    if objects:
        try: gr = peg.build_grammar(rules, names[0], forward_root=True)
        except parse.GrammarError: ctx.skip('rejected')
        src = repr(rules)
    else: gr, src = grammar_of(rules, ctx)
    for text in texts:
        for start in names:
            calls = [0]

            def cancel():
                calls[0] += 1
                return calls[0] > MAX_CALLS // parse.CANCEL_QUERY_INTERVAL
            gr.cancel_query__ = cancel
            try: tree = gr(text, start)
            except parse.CancelError: tree = None
            check(tree is not None and calls[0] <= MAX_CALLS // parse.CANCEL_QUERY_INTERVAL, 'does not end', start, repr(text), src)
            check(text in tree.content, tree.as_sxpr(), start, repr(text), src) if not tree.errors else None
            ctx.label('calls', calls[0])
    # reference: is there any left-recursion?
    ref = SeedAndGrow(rules, texts[0], limit=4000)
    try: ref.parse(names[0])
    except (peg.TooDeep, RecursionError): pass
    if ref.reentered: ctx.nontrivial()
