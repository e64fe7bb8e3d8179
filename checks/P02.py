"""P02: losslessness and exact positions.  For generated grammars (with whitespace, comments, hidden symbols, mandatory
markers, any reduction level) and generated texts (sentences, mutations, garbage) the leaves of the tree, in order, must
spell the text, and every node must carry the offset where its content starts in the text."""
import re
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import peg, gen

RULE = 'tree with at least two leaves and some named node below the root'
ASSUMPTIONS = ['dropping is restricted to what @drop declares (second test: leaves still lie at their positions, in order)']


def positions(tree, text, lossless, *msg):
    """Checks positions and (if lossless) the tiling of text by leaves; returns number of leaves."""
    at = tree.pos
    equal(at, 0, 'root position', *msg)
    leaves = [0]

    spans = []

    def rec(nd, at):
        if lossless:
            equal(nd.pos, at, 'position of', nd.name, repr(nd.content), *msg)
        else:
            check(nd.pos >= at, 'overlapping or unordered node', nd.name, nd.pos, at, *msg)
        if nd.children:
            for c in nd.children:
                at = rec(c, at)
            return at
        s = nd.content
        if lossless: equal(text[nd.pos:nd.pos + len(s)], s, 'content at position of', nd.name, *msg)
        spans.append((nd.pos, s))
        leaves[0] += 1
        return nd.pos + len(s)
    rec(tree, 0)
    for (p, s), (q, _) in zip(spans, spans[1:] + [(len(text), '')]):
        it = iter(text[p:q])       # with @drop parts may be missing, but nothing else
        check(all(c in it for c in s), 'content not from its place', repr(s), p, q, *msg)
    return leaves[0]


def verify(gr, rules, text, start, ctx, src, lossless=True):
    from DHParser.error import is_error
    d = gr(text, start)    # default mode: blank rest of the text is tolerated with a warning
    if lossless:
        c = d.content
        check(c == text or any(e.code == 720 for e in d.errors) and text.startswith(c) and re.fullmatch(gr.WSP_RE__, text[len(c):]),
              'content in default mode', repr(c), 'text', repr(text), '\n', src)
    positions(d, text, lossless, '\ntext', repr(text), '\n', src, d.as_sxpr())
    t = gr(text, start, complete_match=True)
    msg = ('\ntext', repr(text), '\n', src, '\n', t.as_sxpr())
    if lossless: equal(t.content, text, 'content', *msg)
    n = positions(t, text, lossless, *msg)
    bad = any(is_error(e.code) for e in t.errors)
    for e in t.errors:
        check(0 <= e.pos <= len(text), 'error position', e, *msg)
    p = gr(text, start, complete_match=False)
    if lossless: check(text.startswith(p.content), 'prefix match is no prefix', repr(p.content), *msg)
    positions(p, text, lossless, *msg)
    ctx.label('failed' if bad else 'matched')
    ctx.label('failed with partial tree', bad and n > 2)
    if n > 1 and any(x.name[:1] != ':' for x in t.select_if(lambda nd: True)): ctx.nontrivial()
    # the positions survive adding the tree as a whole to another one
    for nd in t.select_if(lambda nd: True, include_root=True):
        equal(nd.strlen(), len(nd.content), 'strlen', *msg)


@st.composite
def raw_cases(draw):
    g = draw(peg.grammars(depth=3, ic=True))
    texts = draw(peg.texts_for(g, g[0][0], 4))
    if draw(st.integers(0, 3)) == 0: texts += (draw(gen.weird_text(max_size=12)),)
    return g, texts, draw(st.integers(0, 9))


@prop(raw_cases, quick=500, shards=8, rule='parser objects, any text, any start symbol')
def combinators(case, ctx):
    rules, texts, k = case
    start = rules[k % len(rules)][0] if k > 6 else rules[0][0]
    gr = peg.build_grammar(rules, rules[0][0], static_analysis=False)
    for text in texts: verify(gr, rules, text, start, ctx, repr(rules))


@prop(lambda: st.tuples(peg.wscases(drops=False, mand=True, reduction='all'), st.integers(0, 9)), quick=300, shards=8,
      rule='EBNF with whitespace, hidden symbols, mandatory markers, reduction levels')
def ebnf(case, ctx):
    from lib.dh import compile_grammar, errors_only
    (rules, header, texts, _, info), k = case
    src = peg.grammar_ebnf(rules, header)
    gr, messages = compile_grammar(src)
    if gr is None: ctx.skip('rejected ' + str(errors_only(messages)[0].code))
    start = rules[k % len(rules)][0] if k > 6 else rules[0][0]
    for text in texts: verify(gr, rules, text, start, ctx, src)
    ctx.label('reduction:' + info['reduction'])


@prop(lambda: peg.wscases(drops=True, mand=True, reduction='all'), quick=200, shards=4, rule='with @drop: what remains is where it was')
def dropped(case, ctx):
    from lib.dh import compile_grammar, errors_only
    rules, header, texts, _, info = case
    src = peg.grammar_ebnf(rules, header)
    gr, messages = compile_grammar(src)
    if gr is None: ctx.skip('rejected ' + str(errors_only(messages)[0].code))
    for text in texts: verify(gr, rules, text, rules[0][0], ctx, src, lossless=not info['drop'])
