"""P07: parser objects carry nothing over from one run to the next.  Histories of runs (texts, start symbols, modes,
tracing, cancelled runs, runs of sibling objects of the same grammar) on one parser object; after each step the result
is compared with that of a fresh parser object."""
import copy
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import peg, gen

RULE = 'history with at least one failed or aborted run or a change of the start symbol before the last run'
ASSUMPTIONS = ['tracing may change wording and code, and for lookaheads the place, of "parser did not match" errors, and adds resume notices (code 50)']
MODES = {'default': 'WSP_RE__', 'full': True, 'prefix': False}


def shape(nd):
    return (nd.name, nd.pos, tuple(shape(c) for c in nd.children) if nd.children else nd.content,
            dict(nd.attr) if nd.has_attr() else None)


def outcome(tree):
    return shape(tree), sorted((e.pos, int(e.code), e.message) for e in tree.errors)


def alike(tree, other, *msg):
    """Equality irrespective of tracing.  (With tracing, failures that are due to lookaheads are recognized and located
    at the lookahead.)"""
    equal(shape(tree), shape(other), *msg)
    UNMATCHED = (1030, 1040, 1042, 1045)

    def errors(t): return sorted((e.pos, int(e.code), e.message) for e in t.errors if int(e.code) != 50 and int(e.code) not in UNMATCHED)
    equal(errors(tree), errors(other), 'errors', *msg)
    a, b = [[e for e in t.errors if int(e.code) in UNMATCHED] for t in (tree, other)]
    if {int(e.code) for e in a + b} & {1030, 1045}: check(bool(a) == bool(b), 'unmatched', a, b, *msg)
    else: equal([(e.pos, int(e.code)) for e in a], [(e.pos, int(e.code)) for e in b], *msg)


def trace(gr, mode):
    from DHParser.trace import set_tracer, trace_history, resume_notices_on
    set_tracer(gr, None)
    if mode == 'history': set_tracer(gr, trace_history)
    elif mode == 'resume': resume_notices_on(gr)


@st.composite
def sources(draw):
    """EBNF-source and texts and names of symbols."""
    kind = draw(st.sampled_from(['ws', 'ws', 'cap', 'rec']))
    if kind == 'cap':
        rules, caps, texts = draw(peg.capcases())
        src = peg.grammar_ebnf(rules, '@ literalws = none\n@ whitespace = /\\s*/\n')
    else:
        rules, header, texts, _, info = draw(peg.wscases(drops=True, mand=True, reduction='all'))
        names = [n for n, e in rules]
        for n in names:
            if draw(st.integers(0, 2)): continue
            k = draw(st.sampled_from(['skip', 'resume', 'error']))
            rx = draw(st.sampled_from(['/(?=[ab,])/', '/[;\\n]/', '/\\s/', '/x/', '/(?=\\))/'] + ([names[-1]] if k != 'error' and n != names[-1] else [])))
            if k == 'error': header += f"@ {n}_error = {draw(st.sampled_from(['', rx + ', ']))}\"msg for {n}\"\n"
            else: header += f'@ {n}_{k} = {rx}\n'
        src = peg.grammar_ebnf(rules, header)
    odd = draw(st.lists(gen.weird_text(max_size=12), max_size=1))
    return src, tuple(texts) + tuple(odd), tuple(n for n, e in rules)


STEP = st.tuples(st.integers(0, 5), st.integers(0, 9), st.sampled_from(['default', 'full', 'prefix']),
                 st.sampled_from(['', '', '', 'history', 'resume']), st.sampled_from(['', '', '', '', 'cancel', 'sibling', 'raise']))


class Abort(Exception): pass


@prop(lambda: st.tuples(sources(), st.lists(STEP, min_size=2, max_size=6)), quick=220, shards=8, rule=RULE)
def histories(case, ctx):
    from lib.dh import compile_grammar, errors_only
    (src, texts, names), steps = case
    gr, messages = compile_grammar(src)
    if gr is None: ctx.skip('rejected ' + str(errors_only(messages)[0].code))
    cls = gr.__class__
    sibling = None
    kept, interesting, last = [], False, None
    for t, k, mode, tracing, what in steps:
        text = texts[t % len(texts)]
        start = names[k % len(names)] if k > 4 else names[0]
        args = (text, start)
        if what == 'sibling':
            # other parser objects of the same grammar come into being and are used in between
            sibling = copy.deepcopy(gr) if k % 2 else cls()
            sibling(texts[(t + 1) % len(texts)], names[0])
            ctx.label('sibling')
        elif what in ('cancel', 'raise'):
            count = [k]
            trace(gr, '')

            def query():
                count[0] -= 1
                if count[0] <= 0 and what == 'raise': raise Abort
                return count[0] <= 0
            gr.cancel_query__ = query
            try:
                aborted = gr(text * 6, start)
                ctx.label('cancelled', any(e.code == 1110 or 'cancel' in e.message for e in aborted.errors))
            except Abort:
                ctx.label('aborted')
            gr.cancel_query__ = None
            interesting = True
        trace(gr, tracing)
        tree = gr(*args, complete_match=MODES[mode])
        fresh = cls()
        trace(fresh, tracing)
        expected = fresh(*args, complete_match=MODES[mode])
        msg = (src, 'steps', steps, 'text', repr(text), start, mode, tracing)
        equal(outcome(tree), outcome(expected), 'reused and fresh parser differ', tree.as_sxpr(), expected.as_sxpr(), *msg)
        if tracing:
            plain = cls()
            p = plain(*args, complete_match=MODES[mode])
            alike(tree, p, 'traced and untraced parser differ', tree.as_sxpr(), p.as_sxpr(), *msg)
            ctx.label('traced')
        kept.append((tree, outcome(tree)))
        if interesting: ctx.nontrivial()
        if tree.errors or (last is not None and last != start): interesting = True
        last = start
    for tree, before in kept:
        equal(outcome(tree), before, 'result of an earlier run was changed by a later one', src, steps, texts)
    gr2 = compile_grammar(src)[0]
    text = texts[0]
    equal(outcome(gr(text)), outcome(gr2(text)), 'last run vs. grammar compiled anew', src, steps, repr(text)) if not steps[-1][3] else None
    ctx.label('error', any(t.errors for t, _ in kept))


@prop(lambda: st.tuples(peg.cases(n=4, depth=3, ic=True), st.lists(STEP, min_size=2, max_size=8)), quick=300, shards=4,
      rule='parser objects assembled in Python')
def combinators(case, ctx):
    (rules, texts), steps = case
    gr = peg.build_grammar(rules, rules[0][0], static_analysis=False)
    prev = None
    for t, k, mode, tracing, what in steps:
        text = texts[t % len(texts)]
        start = rules[k % len(rules)][0] if k > 4 else rules[0][0]
        trace(gr, tracing)
        res = gr(text, start, complete_match=MODES[mode])
        fresh = peg.build_grammar(rules, rules[0][0], static_analysis=False)
        trace(fresh, tracing)
        equal(outcome(res), outcome(fresh(text, start, complete_match=MODES[mode])), 'reused vs. fresh', rules, repr(text), start, mode, tracing)
        if prev is not None and (prev[0] != start or prev[1]): ctx.nontrivial()
        prev = (start, bool(res.errors))


@prop(lambda: st.tuples(sources(), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 9), st.sampled_from(['history', 'resume', ''])), min_size=2, max_size=5)),
      quick=120, shards=4, rule='parser factories and configuration')
def factories(case, ctx):
    from lib.dh import provider
    from DHParser.ebnf import compile_ebnf
    from DHParser.error import is_error
    from DHParser.configuration import set_config_value
    from DHParser.dsl import create_parser
    (src, texts, names), steps = case
    res = compile_ebnf(src)
    if res.result is None or any(is_error(m.code) for m in res.messages): ctx.skip('rejected')
    factory = provider(res.result)
    for t, k, conf in steps:
        text, start = texts[t % len(texts)], names[k % len(names)] if k > 4 else names[0]
        gr = factory()
        trace(gr, conf)
        tree = factory()(text, start)
        fresh = provider(res.result)()
        expected = fresh(text, start)
        alike(tree, expected, 'factory', src, steps, repr(text), tree.as_sxpr(), expected.as_sxpr())
        trace(gr, '')
        ctx.nontrivial(bool(tree.errors))
