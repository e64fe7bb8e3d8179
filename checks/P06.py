"""P06: captures.  Generated grammars with capturing symbols, retrieving and popping at arbitrary places (in options,
alternatives, repetitions, lookaheads, recursive symbols) against the reference interpreter that threads the stacks
functionally: an abandoned attempt can leave no trace there."""
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import peg

RULE = 'reference interpreter captured at least one value and backtracked, or a value was retrieved'
ASSUMPTIONS = ['values popped without being matched (:?symbol, zero length) are not restored upon backtracking, as documented',
               'captured values are not empty (DHParser warns if they could be)']


def stacks_of(gr):
    return {k: tuple(v) for k, v in gr.variables__.items() if v}


def compare(gr, rules, caps, text, ctx, src):
    from DHParser.error import is_error
    ref = peg.Interp(rules, text, caps)
    try:
        r = ref.parse('root')
    except (peg.TooDeep, RecursionError):
        ctx.label('reference gave up'); return
    if ref.zero:
        ctx.label('popped without match'); return
    msg = ('on', repr(text), src)
    tree = gr(text, 'root', complete_match=False)
    codes = [e.code for e in tree.errors]
    LEFT = (50, 60, 1035, 1050, 1052, 1060, 1062)
    if r is None:
        check(tree.name == 'ZOMBIE__' or tree.name[:1] == ':' and not tree.result or (text == '' and tree.errors), 'no match expected', tree.as_sxpr(), *msg)
        ctx.label('no match')
    else:
        end, nodes, state = r
        state = {k: v for k, v in state if v}
        equal(stacks_of(gr), state, 'values on the stack', tree.as_sxpr(), *msg)
        equal(tree.content, text[:end], 'matched text', tree.as_sxpr(), *msg)
        named = peg.canon(peg.skeleton(tree))
        named = strip(named)
        equal(named, peg.canon(strip(nodes)), 'named nodes', tree.as_sxpr(), *msg)
        check(bool(tree.errors) == bool(state), 'values left on the stack:', state, 'errors:', tree.errors, *msg)
        if state:
            m = tree.errors[0].message
            check('apture' in m or 'stack' in m, m)
            for k in state: check(k in m, 'not mentioned', k, m)
            ctx.label('values left')
        ctx.label('match')
    tree = gr(text, 'root', complete_match=True)
    full = r is not None and r[0] == len(text)
    mism = [e for e in tree.errors if e.code in (1040, 1042, 1030, 1045)]
    check(bool(mism) != full, 'complete match expected:', full, tree.errors, tree.as_sxpr(), *msg)
    ctx.label('backtracking', ref.backtracks > 0)
    ctx.label('retrieved', ref.retrieved > 0)
    if ref.captured and (ref.backtracks or ref.retrieved): ctx.nontrivial()


def strip(nodes):
    return tuple((n, a, b, strip(k)) for n, a, b, k in nodes if n != 'ZOMBIE__')


def forward_trouble(case, exc):
    """A recursive symbol captures or pops on balance, or is called with different values on the stack at one place."""
    rules, caps, texts = case
    for text in texts:
        ref = peg.Interp(rules, text, caps)
        ref.fwd = peg.recursive(rules)
        try: ref.parse('root')
        except (peg.TooDeep, RecursionError): pass
        if ref.fwdtrouble and repr(text) in str(exc): return True
    return False


@prop(lambda: peg.capcases(), quick=700, shards=8, rule=RULE, known={'forward': forward_trouble})
def captures(case, ctx):
    from lib.dh import compile_grammar, errors_only
    rules, caps, texts = case
    src = peg.grammar_ebnf(rules, '@ literalws = none\n@ whitespace = //\n')
    gr, messages = compile_grammar(src)
    if gr is None: ctx.skip('rejected ' + str(errors_only(messages)[0])[:80])
    if any('Reorder' in str(e) for e in messages): ctx.skip('reordered')
    for text in texts:
        compare(gr, rules, caps, text, ctx, src)


BALANCED = [
    ('xml', (('root', ('ref', 'el')),
             ('el', ('seq', (('lit', '<'), ('cap', 'd'), ('lit', '>'), ('many', ('alt', (('ref', 'el'), ('rx', '[a-c ]+')))),
                             ('lit', '</'), ('pop', 'd'), ('lit', '>')))),
             ('d', ('rx', '\\w+')))),
    ('xml with empty elements', (('root', ('many', ('ref', 'el'))),
             ('el', ('alt', (('seq', (('lit', '<'), ('cap', 'd'), ('lit', '>'), ('ref', 'body'), ('lit', '</'), ('pop', 'd'), ('lit', '>'))),
                             ('seq', (('lit', '<'), ('rx', '\\w+'), ('lit', '/>')))))),
             ('body', ('many', ('alt', (('ref', 'el'), ('rx', '[a-c ]+'))))),
             ('d', ('rx', '\\w+')))),
    ('fences', (('root', ('many', ('alt', (('ref', 'block'), ('rx', '[ab\n]'))))),
                ('block', ('seq', (('cap', 'd'), ('many', ('seq', (('not', ('get', 'd')), ('alt', (('rx', '[ab]'), ('rx', '`')))))), ('pop', 'd')))),
                ('d', ('rx', '`+')))),
    ('nested fences', (('root', ('some', ('ref', 'block'))),
                       ('block', ('seq', (('cap', 'd'), ('lit', '('), ('many', ('alt', (('ref', 'block'), ('rx', '[xy]')))), ('lit', ')'), ('pop', 'd')))),
                       ('d', ('rx', '[ab]+')))),
    ('two variables', (('root', ('some', ('ref', 'block'))),
                       ('block', ('seq', (('cap', 'd'), ('cap', 'e'), ('opt', ('seq', (('lit', '('), ('ref', 'block'), ('lit', ')')))),
                                          ('alt', (('seq', (('pop', 'd'), ('pop', 'e'))), ('seq', (('pop', 'e'), ('pop', 'd')))))))),
                       ('d', ('rx', '[ab]')), ('e', ('rx', '[xy]')))),
    ('backtracking', (('root', ('alt', (('seq', (('ref', 'block'), ('lit', '!'))), ('seq', (('ref', 'block'), ('lit', '?'))), ('some', ('ref', 'block'))))),
                      ('block', ('alt', (('seq', (('cap', 'd'), ('lit', '('), ('many', ('ref', 'block')), ('lit', ')'), ('pop', 'd'))),
                                         ('seq', (('cap', 'd'), ('lit', '('), ('many', ('ref', 'block')), ('lit', ']'), ('pop', 'd')))))),
                      ('d', ('rx', '[ab]+'))))]


@st.composite
def balanced_cases(draw):
    name, rules = draw(st.sampled_from(BALANCED))
    caps = tuple(n for n, e in rules if n in 'de')
    return name, draw(peg.texts_for(rules, 'root', 5, caps, maxlen=100))


@prop(balanced_cases, quick=250, shards=4, rule='recursive symbols with balanced captures: reference interpreter captured and retrieved')
def balanced(case, ctx):
    from lib.dh import compile_grammar
    name, texts = case
    rules = dict(BALANCED)[name]
    caps = tuple(n for n, e in rules if n in 'de')
    src = peg.grammar_ebnf(rules, '@ literalws = none\n@ whitespace = //\n')
    gr, messages = compile_grammar(src)
    check(gr is not None, 'rejected', messages, src)
    ctx.label(name)
    for text in texts:
        compare(gr, rules, caps, text, ctx, src)
