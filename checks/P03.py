"""P03: early tree reduction.  A matcher without memoization, that knows nothing about node-classes, records the symbols and the matched tokens; from
this record the expected tree for every reduction level is derived from the documentation."""
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, Violation
from lib import peg
from lib.peg import TooDeep
from lib.record import Recorder, single, expected, merged, actual, clean, bare, thin

RULE = ('random grammars with hidden and dropped symbols (directive, regular expression or modifier), dropped token classes, dropped parts and all reduction levels; the tree is '
        'compared with the tree derived from the record of a reference matcher; non-trivial: something is hidden or dropped and at least two named nodes appear in the tree')
ASSUMPTIONS = ['anonymous nodes of level "none" are only compared by their leaves', 'the grammars are not optimized (see P04)', 'under merge_treetops, partial merges inside nested anonymous groups are allowed']
CLASSES = ('strings', 'backticked', 'whitespace', 'regexps')


def misplaced(got, exp, low=0, last=0):
    """Compares the positions of trees of the same shape: returns the position after the item, and whether some node starts too early, but not before the
    end of the visible text in front of it. (See known_findings.json)"""
    early = False
    if got[0 if len(got) == 2 else 1] == -1: return low, False
    g, e = (got[0], exp[0]) if len(got) == 2 else (got[1], exp[1])
    check(last <= g <= e, 'position of', bare(got), g, 'instead of', e)
    early = g < e
    if len(got) == 2: return e + len(got[1]), early
    low = e
    for a, b in zip(got[2], exp[2]):
        low, x = misplaced(a, b, low, g if low == e else low)
        early = early or x
    return low, early


@st.composite
def situations(draw):
    rules, _, texts, (ws, lws), info = draw(peg.wscases(drops=False, hide=False, reduction=False, keep=False, mand=True, n=5, base=peg.nested if draw(st.integers(0, 3)) else None, spaces=draw(st.integers(0, 2))))
    names = [n for n, e in rules[1:]]
    hidden = tuple(n for n in names if draw(st.integers(0, 2)) == 0)
    dropped = tuple(n for n in hidden if draw(st.integers(0, 2)) == 0)
    drop = tuple(c for c in CLASSES if draw(st.integers(0, 2)) == 0)

    def part(e, inseq=False):
        t = e[0]
        if inseq and t not in ('and', 'not', 'mand', 'syn', 'inter') and draw(st.integers(0, 9)) == 0: return ('dropped', e)
        if t == 'seq' and len(e[1]) > 1: return (t, tuple(part(c, True) for c in e[1]))
        if t in ('seq', 'alt'): return (t, tuple(part(c) for c in e[1]))
        if t in ('opt', 'many', 'some'): return (t, part(e[1]))
        return e
    rules = tuple((n, part(e) if not single(e) else ('seq', tuple(c for c in e[1] if c != ('mand',)))) for n, e in rules)
    how = draw(st.sampled_from(['directive', 'directive', 'modifier', 'regex', 'several']))
    return rules, texts, ws, lws, hidden, dropped, drop, draw(st.sampled_from(['none', 'flatten', 'merge_treetops', 'merge', 'merge_leaves', ''])), how


def ebnf(e, ctx='top'):
    if e[0] == 'dropped': return ebnf_(e[1], 'atom' if e[1][0] in ('seq', 'alt') else 'seq') + ' -> DROP'
    return ebnf_(e, ctx)


ebnf_ = peg.ebnf


def source(case):
    rules, texts, ws, lws, hidden, dropped, drop, level, how = case
    h = '@ optimizations = none\n' + f'@ whitespace = /{ws[0]}/\n' + (f'@ comment = /{ws[1]}/\n' if ws[1] else '') + f'@ literalws = {lws}\n'
    if level: h += '@ reduction = ' + level + '\n'
    if hidden:
        if how == 'regex': h += '@ disposable = /(?:' + '|'.join(hidden) + ')$/\n'
        elif how == 'several': h += ''.join(f'@ hide = {n}\n' for n in hidden)
        elif how == 'directive': h += '@ disposable = ' + ', '.join(hidden) + '\n'
    names = drop + dropped if how != 'modifier' else drop
    if names: h += '@ drop = ' + ', '.join(names) + '\n'
    peg.ebnf = ebnf       # the recursive calls inside must know the additional expression
    try: body = ''.join(('' if how != 'modifier' or n not in hidden else 'DROP:' if n in dropped else 'HIDE:') + f'{n} = {ebnf(e)}\n' for n, e in rules)
    finally: peg.ebnf = ebnf_
    return h + body


@prop(situations, quick=900, known={'passed-through': lambda case, exc: 'passed through by an anonymous parser' in str(exc)})
def reduction(case, ctx):
    from lib.dh import compile_grammar
    from DHParser.error import REORDERING_OF_ALTERNATIVES_REQUIRED
    rules, texts, ws, lws, hidden, dropped, drop, level, how = case
    src = source(case)
    gr, msgs = compile_grammar(src)
    if gr is None: ctx.skip('rejected: ' + ','.join(sorted({str(int(e.code)) for e in msgs if e.code >= 1000})))
    if any(e.code == REORDERING_OF_ALTERNATIVES_REQUIRED for e in msgs): ctx.skip('reordered')
    start, late = rules[0][0], ''
    for text in texts:
        ref = Recorder(rules, text, ws, lws, drop)
        try: r = ref.parse(start)
        except (TooDeep, RecursionError): ctx.skip('too deep')
        tree = gr(text, start, complete_match=False)
        if r is None or any(e.code >= 1000 for e in tree.errors):
            continue          # see P01 and P09
        exp = expected(r[1], text, hidden, dropped)[0]
        got = actual(tree)
        lvl = level or 'flatten'
        if lvl == 'merge_leaves': lvl = 'merge'
        same = (lambda x: thin(clean(x))) if lvl in ('none', 'flatten') else (lambda x: thin(clean(merged([x])[0])))
        got, exp = same(got), same(exp)
        equal(bare(got), bare(exp), 'text', repr(text), '\n' + src)
        try: early = misplaced(got, exp)[1]
        except Violation as v: raise Violation(str(v) + f' {text!r}\n{src}') from None
        if early: late = f'node passed through by an anonymous parser starts too early {text!r}\n{src}\n{tree.as_sxpr()}'
        if lvl != 'none':
            for nd in tree.select_if(lambda n: True, include_root=True):
                kids = nd.children
                anon = [c for c in kids if c.name[:1] == ':']
                for c in anon:
                    check(not c.children, 'anonymous node with children', c.as_sxpr(), '\n', src, text)
                    check(c.content, 'anonymous empty node', nd.as_sxpr(), '\n', src, text)
                if lvl == 'merge_treetops': check(not (len(kids) > 1 and len(anon) == len(kids)), 'not merged', nd.as_sxpr(), '\n', src, text)
                if lvl == 'merge':
                    for a, b in zip(kids, kids[1:]): check(not (a.name[:1] == b.name[:1] == ':'), 'adjacent anonymous leaves', nd.as_sxpr(), '\n', src, text)
                check(not (len(kids) == len(anon) == 1), 'single anonymous leaf not reduced', nd.as_sxpr(), '\n', src, text)
        named = sum(1 for nd in tree.select_if(lambda n: n.name[:1] != ':', include_root=True))
        ctx.label(lvl, how)
        ctx.nontrivial((named >= 3 or named == 2 and lvl in ('merge', 'merge_treetops')) and bool(hidden or drop or dropped or '-> DROP' in src))
    if late: raise Violation(late)
