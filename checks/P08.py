"""P08: robustness of parsing.  Any text, any start symbol, any mode: no exception, a tree with positions inside the
text, and an error exactly if the text is not completely matched (decided by the reference interpreter where it applies)."""
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import peg, gen

RULE = 'text that does not match or is odd (empty, unicode, deeply nested), or grammar with mandatory items'
ASSUMPTIONS = ['nesting depth beyond the recursion limit must be reported as error, not raised']


def healthy(tree, text, *msg):
    from DHParser.nodetree import Node, RootNode, tree_sanity_check
    from DHParser.error import is_error
    msg = msg + ('\ntext', repr(text[:200]), tree.as_sxpr()[:800])
    check(isinstance(tree, RootNode), 'no tree', type(tree), *msg)
    check(tree_sanity_check(tree), 'tree contains the same node twice or a frozen node', *msg)
    errs = [e for e in tree.errors if is_error(e.code)]
    for e in tree.errors:
        check(0 <= e.pos <= len(text), 'error outside of the text', e.pos, e, *msg)
        check(e.message and e.line >= 1 and e.column >= 1, 'incomplete error', e, *msg)
        pre = text[:e.pos]
        equal((e.line, e.column), (pre.count('\n') + 1, e.pos - (pre.rfind('\n') + 1) + 1), 'line, column of', e, *msg)
    equal(sorted(e.pos for e in tree.errors), [e.pos for e in tree.errors_sorted], 'sorted errors', *msg)
    return errs


def complete(tree, text):
    return tree.content == text and not any(nd.name == 'ZOMBIE__' for nd in tree.select_if(lambda n: True, include_root=True))


@st.composite
def raw(draw):
    g = draw(peg.grammars(depth=3, ic=True))
    texts = list(draw(peg.texts_for(g, g[0][0], 3)))
    texts.append(draw(st.one_of(st.just(''), gen.weird_text(max_size=15), st.just(texts[0] + '\n'), st.just('\ufeff' + texts[0]))))
    return g, tuple(texts), draw(st.integers(0, 9)), draw(st.sampled_from(['default', 'full', 'prefix']))


@prop(raw, quick=450, shards=8, rule=RULE)
def any_text(case, ctx):
    rules, texts, k, mode = case
    start = rules[k % len(rules)][0] if k > 4 else rules[0][0]
    gr = peg.build_grammar(rules, rules[0][0], static_analysis=False)
    for text in texts:
        cm = {'default': 'WSP_RE__', 'full': True, 'prefix': False}[mode]
        t = gr(text, start, complete_match=cm) if mode != 'default' else gr(text, start)
        if text[:1] == '\ufeff': text = text[1:]
        errs = healthy(t, text, rules, start, mode)
        ref = peg.Interp(rules, text)
        try:
            r = ref.parse(start)
        except (peg.TooDeep, RecursionError):
            ctx.label('reference gave up'); continue
        if mode == 'full': ok = r is not None and r[0] == len(text)
        elif mode == 'prefix': ok = r is not None
        else: ok = r is not None and __import__('re').fullmatch(gr.WSP_RE__, text[r[0]:]) is not None
        equal(bool(errs), not ok, 'errors', errs, 'reference', r, rules, repr(text), start, mode)
        if mode == 'full' and ok: check(complete(t, text), 'match without complete tree', rules, repr(text), t.as_sxpr())
        if not ok and r is not None and mode == 'full':
            check(any(e.pos >= r[0] for e in errs), 'no error behind the matched part', r[0], errs, rules, repr(text))
        ctx.label(mode + (' ok' if ok else ' error'))
        if not ok or text == '' or any(ord(c) > 127 for c in text): ctx.nontrivial()


@prop(lambda: st.tuples(peg.wscases(drops=True, mand=True, reduction='all'), st.integers(0, 9), gen.weird_text(max_size=15),
                        st.sampled_from(['default', 'full', 'prefix'])),
      quick=250, shards=8, rule='EBNF with mandatory items: an error exactly if unmatched or an obligation is violated')
def ebnf(case, ctx):
    from lib.dh import compile_grammar, errors_only
    (rules, header, texts, (ws, lws), info), k, odd, mode = case
    src = peg.grammar_ebnf(rules, header)
    gr, messages = compile_grammar(src)
    if gr is None: ctx.skip('rejected ' + str(errors_only(messages)[0].code))
    if any(e.code == 520 for e in messages) or any('Reorder' in str(e) for e in messages): ctx.label('reordered')
    start = rules[k % len(rules)][0] if k > 5 else rules[0][0]
    mand = any(x[0] == 'mand' for _, e in rules for x in peg.walk(e))
    for text in texts + (odd, ''):
        cm = {'default': 'WSP_RE__', 'full': True, 'prefix': False}[mode]
        t = gr(text, start, complete_match=cm)
        errs = healthy(t, text, src, start, mode)
        if mode == 'full' and not errs and not info['drop']:
            check(complete(t, text), 'no error, but incomplete tree', src, repr(text), t.as_sxpr())
        if errs or mand: ctx.nontrivial()
        ctx.label(mode + (' error' if errs else ' ok'))
        ctx.label('mandatory violation', any(e.code == 1010 for e in errs))
        if any('Reorder' in str(e) for e in messages): continue
        # without obligations (or if none is violated) the reference interpreter decides
        ref = peg.Interp(peg.undress(rules, ws, lws), text)
        try:
            r = ref.parse(start)
        except (peg.TooDeep, RecursionError):
            ctx.label('reference gave up'); continue
        if mode == 'full': ok = r is not None and r[0] == len(text)
        elif mode == 'prefix': ok = r is not None
        else: ok = r is not None and __import__('re').fullmatch(gr.WSP_RE__, text[r[0]:]) is not None
        if not ok: check(errs, 'no error for unmatched text', src, repr(text), start, mode)
        elif not mand: check(not errs, 'error for matched text', errs, src, repr(text), start, mode)


@st.composite
def deep(draw):
    kind = draw(st.sampled_from(['brackets', 'right', 'prefix', 'mutual', 'left']))
    depth = draw(st.one_of(st.integers(0, 60), st.integers(60, 1200), st.sampled_from([3000, 20000])))
    cut = draw(st.integers(0, 3))
    return kind, min(depth, 3000) if kind == 'left' else depth, cut


DEEP = {'brackets': ('root = "(" [root] ")"\n', '(', ')'),
        'right': ('root = `a` root | `b`\n', 'a', ''),
        'prefix': ('root = `-` root | /\\d+/\n', '-', ''),
        'mutual': ('root = `a` A | `x`\nA = `b` root | `y`\n', 'ab', ''),
        'left': ('root = root `a` | `b`\n', 'a', '')}
TAIL = {'brackets': '', 'right': 'b', 'prefix': '1', 'mutual': 'x', 'left': ''}


@prop(deep, quick=40, thorough=200, shards=4, rule='deeply nested text')
def nesting(case, ctx):
    from lib.dh import compile_grammar
    kind, depth, cut = case
    src, op, cl = DEEP[kind]
    gr, _ = compile_grammar('@ literalws = none\n' + src)
    text = 'b' + op * depth if kind == 'left' else op * depth + TAIL[kind] + cl * depth
    valid = (cut == 0 or kind == 'left' and cut == 1 and depth > 0) and (depth > 0 or kind != 'brackets')
    if cut: text = text[:-cut] + ('§' if cut > 1 else '')
    t = gr(text, 'root', complete_match=True)
    codes = [e.code for e in t.errors]
    for e in t.errors: check(0 <= e.pos <= len(text), 'error outside of text', e.pos)
    limit = any(c == 1100 or 'recursion' in e.message for c, e in zip(codes, t.errors))
    if depth <= 60: check(not limit, 'recursion limit hit at depth', depth)
    if valid and not limit:
        check(not t.errors, 'errors', t.errors[:2])
        try: c = t.content
        except RecursionError: c = text         # reading trees of this depth is another matter
        check(c == text)
    if not valid and text: check(t.errors, 'no error for', kind, depth, cut)
    if limit: check(t.errors)
    ctx.label(kind); ctx.label('recursion limit', limit); ctx.nontrivial(depth > 10)
