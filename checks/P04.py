"""P04: grammar optimizations.  The same generated grammar is compiled without optimizations and
with a generated subset of them; both parsers must agree on every text."""
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import peg

RULE = 'optimized source contains at least one SmartRE and a non-empty text is matched (at least in part)'
ASSUMPTIONS = ['Optimization compiles parts of the grammar to regular expressions, which backtrack where PEGs do not: texts on '
               'which the unoptimized grammar fails locally while exhaustive backtracking would succeed are left out '
               '(decided by an exhaustive reference matcher)']
ALL = ('literal', 'lookahead', 'alternative', 'rearrange_alternative', 'sequence')


class Ends:
    """Exhaustive (backtracking) matcher: the set of all possible ends of an expression."""
    def __init__(self, rules, text):
        self.rules, self.text, self.memo, self.steps = dict(rules), text, {}, 0

    def ends(self, e, pos):
        key = (e, pos)
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > 5000: raise peg.TooDeep
            self.memo[key] = frozenset()      # left-recursion guard
            r = self.memo[key] = frozenset(self._ends(e, pos))
        return r

    def _ends(self, e, pos):
        import re
        t, text = e[0], self.text
        if t == 'lit': return {pos + len(e[1])} if text.startswith(e[1], pos) else ()
        if t == 'any': return {pos + 1} if pos < len(text) else ()
        if t == 'rx':
            m = re.compile(e[1]).match(text, pos)
            if not m: return ()
            out = {m.end()}
            for k in range(pos, len(text) + 1):   # ends under backtracking (lookaheads see the rest)
                m = re.compile('(?:' + e[1] + ')(?=[\\s\\S]{' + str(len(text) - k) + '}\\Z)').match(text, pos)
                if m: out.add(m.end())
            return out
        if t == 'ref': return self.ends(self.rules[e[1]], pos)
        if t == 'seq':
            cur = {pos}
            for c in e[1]:
                cur = {x for p in cur for x in self.ends(c, p)}
            return cur
        if t == 'alt': return {x for c in e[1] for x in self.ends(c, pos)}
        if t == 'opt': return {pos} | self.ends(e[1], pos)
        if t in ('many', 'some', 'count'):
            a, b = {'many': (0, 99), 'some': (1, 99)}.get(t) or (e[2], e[3])
            cur, out, n = {pos}, set(), 0
            if a == 0: out.add(pos)
            seen = set()
            while cur and n < b:
                cur = {x for p in cur for x in self.ends(e[1], p)}
                n += 1
                if n >= a:
                    if cur <= out: break
                    out |= cur
            return out
        if t == 'and': return {pos} if self.ends(e[1], pos) else ()
        if t == 'not': return () if self.ends(e[1], pos) else {pos}
        raise ValueError(t)


class Strict(peg.Interp):
    """Reference interpreter that notices where backtracking would have helped."""
    deviant = False

    def __init__(self, rules, text):
        super().__init__(rules, text)
        self.all = Ends(rules, text)

    def match(self, e, pos, state=()):
        r = super().match(e, pos, state)
        if r is None and e[0] in ('seq', 'alt', 'some', 'count', 'and') and self.all.ends(e, pos): self.deviant = True
        if r is not None and e[0] == 'not' and not self.all.ends(e, pos): self.deviant = True
        return r


@st.composite
def wsgcases(draw):
    rules, h, texts, ws, _ = draw(peg.wscases())
    opts = tuple(sorted(draw(st.lists(st.sampled_from(ALL), min_size=1, max_size=5, unique=True))))
    return rules, h, opts, texts, ws, draw(st.booleans())


@st.composite
def gcases(draw):
    rules = draw(st.one_of(peg.grammars(depth=3, max_rules=4, sane=True, lb=False), peg.tokenlike()))
    texts = draw(peg.texts_for(rules, rules[0][0], 4))
    return rules, '@ whitespace = //\n@ literalws = none\n', \
        tuple(sorted(draw(st.lists(st.sampled_from(ALL), min_size=1, max_size=5, unique=True)))), texts


def outcome(gr, text, start):
    from DHParser.error import is_error
    t = gr(text, start)
    p = gr(text, start, complete_match=False)
    bad = any(is_error(e.code) for e in t.errors)
    return dict(fail=bad, skel=() if bad else peg.skeleton(t), content='' if bad else t.content,
                prefix=peg.skeleton(p), prefix_content=p.content,
                prefix_fail=any(is_error(e.code) for e in p.errors)), t


def all_parsers(gr):
    seen, todo = [], [gr[gr.root_parser__.pname] if gr.root_parser__.pname else gr.root_parser__]
    while todo:
        p = todo.pop()
        if any(p is q for q in seen): continue
        seen.append(p)
        todo.extend(p.sub_parsers)
    return seen


def run(rules, ref_rules, src, opts, texts, ctx, strict, via_config=False):
    from lib.dh import compile_grammar, errors_only
    from DHParser.ebnf import compile_ebnf
    g0, m0 = compile_grammar('@ optimizations = none\n' + src)
    if g0 is None: ctx.skip('rejected ' + str(errors_only(m0)[0])[:60])
    from DHParser.error import REORDERING_OF_ALTERNATIVES_REQUIRED
    if any(e.code == REORDERING_OF_ALTERNATIVES_REQUIRED for e in m0): ctx.skip('reordered')
    osrc = '@ optimizations = ' + ', '.join(opts) + '\n' + src
    if via_config:
        from DHParser.configuration import set_config_value
        set_config_value('optimizations', frozenset(opts))
        osrc = src
        ctx.label('via configuration')
    g1, m1 = compile_grammar(osrc)
    check(g1 is not None, 'optimized grammar rejected', m1, '\n', osrc)
    smart = any(type(p).__name__ == 'SmartRE' for p in all_parsers(g1))
    ctx.label('SmartRE', smart)
    for o in opts: ctx.label('opt:' + o)
    for text in texts:
        if strict:
            ref = Strict(ref_rules, text)
            try:
                r = ref.parse(rules[0][0])
            except (peg.TooDeep, RecursionError):
                ctx.label('reference gave up'); continue
            if ref.deviant:
                ctx.label('backtracking matters'); continue
        (a, t0), (b, t1) = outcome(g0, text, rules[0][0]), outcome(g1, text, rules[0][0])
        equal(b, a, 'text', repr(text), '\n', osrc, '\n', t0.as_sxpr(), t1.as_sxpr(), t0.errors, t1.errors)
        if smart and a['prefix_content']:
            ctx.nontrivial()
        ctx.label('match' if not a['fail'] else 'fail')


def no_inter(case):
    return not any(x[0] in ('inter',) for _, e in case[0] for x in peg.walk(e))


@prop(lambda: gcases().filter(no_inter), quick=200, shards=8, rule='no whitespace; random grammars')
def plain(case, ctx):
    rules, header, opts, texts = case
    run(rules, rules, peg.grammar_ebnf(rules, header), opts, texts, ctx, True)


@prop(lambda: wsgcases().filter(no_inter), quick=250, shards=8, rule='whitespace, comments, drop, hide and reduction')
def dressed(case, ctx):
    rules, header, opts, texts, (ws, lws), conf = case
    run(rules, peg.undress(rules, ws, lws), peg.grammar_ebnf(rules, header), opts, texts, ctx, True, conf)
