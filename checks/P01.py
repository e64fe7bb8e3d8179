"""P01: PEG recognition semantics.  Generated grammars and texts, differential against the
reference interpreter of lib/peg.py (no memoization, no optimization).  Compared are: match or
no match, the length of the match, and the nesting, names and extents of the named nodes."""
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import peg

RULE = ('grammar with references or nesting, and at least one text of which a non-empty part is matched '
        'or where the reference interpreter backtracked after consuming text')
ASSUMPTIONS = ['left-recursive grammars are covered by P05, captures by P06',
               'how often an empty match is repeated is considered unspecified']


def compare(gr, rules, text, start, ctx, src=''):
    from DHParser.error import is_error
    ref = peg.Interp(rules, text)
    try:
        r = ref.parse(start)
    except (peg.TooDeep, RecursionError):
        ctx.label('reference gave up')
        return
    # prefix match
    tree = gr(text, start, complete_match=False)
    errs = [e for e in tree.errors if is_error(e.code)]
    if r is None:
        matched = not errs and not (tree.name == 'ZOMBIE__')
        if text == '':
            check(errs, 'no match expected on the empty text, but no error reported\n', src)
        else:
            check(tree.name == 'ZOMBIE__' or tree.name[:1] == ':' and not tree.result,
                  'no match expected, got', tree.as_sxpr(), 'on', repr(text), '\n', src)
        ctx.label('no match')
    else:
        end, nodes, _ = r
        check(not errs, 'match expected, got errors', errs, 'on', repr(text), '\n', src)
        equal(tree.content, text[:end], 'matched text', repr(text), tree.as_sxpr(), '\n', src)
        equal(peg.canon(peg.skeleton(tree)), peg.canon(nodes), 'named nodes for', repr(text), '\n', src)
        ctx.label('match' if end else 'empty match')
    # complete match
    tree = gr(text, start, complete_match=True)
    errs = [e for e in tree.errors if is_error(e.code)]
    full = r is not None and r[0] == len(text)
    check(bool(errs) == (not full), 'complete match expected:', full, 'errors:', errs, 'on', repr(text), '\n', src)
    if full:
        equal(peg.canon(peg.skeleton(tree)), peg.canon(r[1]), 'named nodes for', repr(text), '\n', src)
    complex_ = len(rules) > 1 or any(x[0] in ('seq', 'alt', 'many', 'inter') for x in peg.walk(rules[0][1]))
    if complex_ and ((r and r[0] > 0) or ref.backtracks):
        ctx.nontrivial()
    ctx.label('backtracking', ref.backtracks > 0)
    ctx.label('full', full and text != '')
    for n, e in rules:
        for x in peg.walk(e): ctx.label('op:' + x[0])


@prop(lambda: peg.cases(n=4, depth=3, ic=True), quick=700, shards=8, rule='parser objects vs. reference interpreter')
def combinators(case, ctx):
    rules, texts = case
    start = rules[0][0]
    gr = peg.build_grammar(rules, start, static_analysis=False)
    for text in texts:
        compare(gr, rules, text, start, ctx, repr(rules))


@st.composite
def single_ops(draw):
    """One operator with small operands, exhaustive-ish short texts."""
    leaf = st.sampled_from([('lit', 'a'), ('lit', 'b'), ('lit', 'ab'), ('rx', 'a+'), ('rx', '[ab]'), ('ref', 'A'), ('ic', 'aB')])
    k = draw(st.sampled_from(['seq', 'alt', 'opt', 'many', 'some', 'count', 'inter', 'and', 'not', 'lb', 'nlb']))
    if k in ('seq', 'alt'): e = (k, tuple(draw(st.lists(leaf, min_size=2, max_size=4))))
    elif k in ('opt', 'many', 'some', 'and', 'not'): e = (k, draw(leaf))
    elif k == 'count':
        a = draw(st.integers(0, 4)); e = (k, draw(leaf), a, draw(st.integers(max(a, 1), a + 4)))
    elif k == 'inter':
        e = (k, tuple((l, *draw(st.sampled_from([(1, 1), (0, 1), (0, peg.INF), (1, 2), (2, 2)])))
                      for l in draw(st.lists(st.one_of(leaf, st.sampled_from([('ref', 'A'), ('rx', 'b*')])), min_size=2, max_size=4))))
    else: e = (k, ('rx', draw(st.sampled_from(['a', 'b', 'ba', '[ab]', '$']))))
    wrap = draw(st.sampled_from(['none', 'opt', 'many', 'alt', 'pre', 'suf', 'not', 'and', 'count']))
    if wrap in ('opt', 'many', 'not', 'and'): e = (wrap, e)
    elif wrap == 'alt': e = ('alt', (e, draw(leaf)))
    elif wrap == 'pre': e = ('seq', (draw(leaf), e))
    elif wrap == 'suf': e = ('seq', (e, draw(leaf)))
    elif wrap == 'count': e = ('count', e, 1, 3)
    if draw(st.booleans()): e = ('seq', (e, ('opt', draw(leaf))))
    rules = peg.prune((('root', e), ('A', draw(st.sampled_from([('lit', 'a'), ('lit', 'ab'), ('rx', 'a+'),
                                                              ('alt', (('lit', 'ab'), ('lit', 'a')))])))))
    texts = tuple(draw(st.lists(st.lists(st.sampled_from('aaabbAB'), max_size=8).map(''.join), min_size=1, max_size=4)))
    return rules, texts


@prop(single_ops, quick=700, shards=4, rule='single operators and their wrappers on short texts')
def operators(case, ctx):
    rules, texts = case
    gr = peg.build_grammar(rules, 'root', static_analysis=False)
    for text in texts:
        compare(gr, rules, text, 'root', ctx, repr(rules))


@prop(lambda: peg.cases(n=5, depth=3, ic=False, sane=True), quick=250, shards=8, rule='EBNF vs. reference interpreter')
def ebnf(case, ctx):
    from lib.dh import compile_grammar, errors_only
    from DHParser.error import REORDERING_OF_ALTERNATIVES_REQUIRED
    rules, texts = case
    src = peg.grammar_ebnf(rules, '@ literalws = none\n@ whitespace = //\n')
    gr, messages = compile_grammar(src)
    if any(e.code == REORDERING_OF_ALTERNATIVES_REQUIRED for e in messages):
        ctx.skip('reordered')
    if gr is None:
        ctx.skip('rejected ' + str(errors_only(messages)[0])[:80])
    for text in texts:
        compare(gr, rules, text, rules[0][0], ctx, src)
