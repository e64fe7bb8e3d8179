"""P13: insignificant whitespace and comments."""
import re
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import peg
from lib.peg import TooDeep
from lib.record import Recorder, skipper, expected, merged, actual, clean, bare, thin

RULE = ('texts with whitespace and comments at random places, for random declarations of both; the matches and trees are compared with those of a matcher that skips alternating pieces '
        'of whitespace and comments in a loop; non-trivial: the text contains a comment or a linebreak that is skipped')
ASSUMPTIONS = ['whitespace does not contain visible characters', 'comments do not match the empty string']
NAMED = {'linefeed': '[ \\t]*(?:\\n[ \\t]*(?![ \\t]*\\n))?', 'linestart': '[ \\t]*(?:\\n(?![ \\t]*\\n))?', 'horizontal': '[\\t ]*', 'vertical': '\\s*'}
WHITESPACE = ['linefeed', 'linestart', 'horizontal', 'vertical', ' *', '\\s+', '[ \\t]+', '(?: |\\n)?', '\\t| ', '(?:\\n[ ]*)*']
COMMENTS = ['#[^\\n]*', '#.*', '{[^}]*}', '\\/\\/.*', '\\/\\*(?:.|\\n)*?\\*\\/', '%.*\\n', '<!--(?:.|\\n)*?-->', '--.*|{[^}]*}', '(#)[^#]*\\1', ';']
PIECES = [' ', ' ', '  ', '\n', '\n', '\t', ' \n ', '\n\n', '#c\n', '#c', '#c#', '# d\n', '{x}', '{\n}', '{', '// x\n', '//x', '/* y */', '/*\n**/', '/*', '% z\n', '%\n', '<!-- a -->',
          '<!---->', '-- q\n', ';', ';;']


def rx(s): return NAMED.get(s, s).replace('\\/', '/')


def text_of(draw, more=('a', 'b', 'x'), n=12):
    return ''.join(draw(st.lists(st.sampled_from(PIECES + list(more)), max_size=n)))


@st.composite
def mixins(draw):
    return draw(st.sampled_from(WHITESPACE)), draw(st.sampled_from(COMMENTS[:-2] + [';', ''])), draw(st.booleans()), text_of(draw)


@prop(mixins, quick=1500)
def mixin(case, ctx):
    from DHParser.parse import mixin_comment, mixin_nonempty
    ws, comment, always, text = case
    ws, comment = rx(ws), rx(comment)
    r = re.compile(mixin_comment(ws, comment, always))
    skip = skipper(ws, comment)
    nullable = bool(re.match(ws, ''))
    w, c = re.compile(ws), re.compile(comment) if comment else None
    some = False
    for p in range(len(text) + 1):
        m = r.match(text, p)
        if always or nullable:
            check(m is not None, 'no match', case, p)
            equal(m.end(), skip(text, p), 'end', case, p)
        else:
            q = w.match(text, p)
            if q is None: check(m is None, 'match without whitespace', case, p)
            else:
                e = q.end()
                while c:
                    k = c.match(text, e)
                    k = k and w.match(text, k.end())
                    if not k: break
                    e = k.end()
                # inside a comment the regular expression is free to backtrack
                check(m is not None and (m.end() == e or (c and m.end() > e)), 'end', case, p, m, e)
        some = some or (m and comment and re.search(comment, m.group(0)))
    if ws in ('[\\t ]*', '\\s*', ' *'):
        n = re.compile(mixin_nonempty(ws))
        for p in range(len(text) + 1):
            if p and w.match(text, p - 1).end() > p - 1: continue      # see the docstring of mixin_nonempty()
            e = w.match(text, p).end()
            m = n.match(text, p)
            equal(m and m.end(), e if e > p else None, 'nonempty', case, p)
    ctx.nontrivial(bool(some))


@st.composite
def documents(draw):
    rules, _, texts, (_, lws), info = draw(peg.wscases(drops=False, hide=False, reduction=False, keep=False, n=3, base=peg.nested if draw(st.integers(0, 5)) else None, spaces=0))
    ws, comment = draw(st.sampled_from([w for w in WHITESPACE if re.match(rx(w), '')])), draw(st.sampled_from(COMMENTS + ['']))
    out = []
    fitting = [p for p in PIECES if comment and re.match(rx(comment), p)] + [' ', '\n']
    for t in texts:
        rec = Spots(rules, t, (rx(ws), rx(comment)), lws, ())
        try: rec.parse(rules[0][0])
        except (TooDeep, RecursionError): pass
        spots = sorted(rec.spots) or [0]
        for i in range(draw(st.integers(1, 3))):
            ins = draw(st.lists(st.tuples(st.sampled_from(spots) if draw(st.integers(0, 5)) else st.integers(0, len(t)), st.lists(st.sampled_from(fitting) if draw(st.integers(0, 3)) else st.sampled_from(PIECES), min_size=1, max_size=3)), min_size=1, max_size=4))
            u = t
            for p, pcs in sorted(ins, reverse=True): u = u[:p] + ''.join(pcs) + u[p:]
            out.append(u)
    drop = draw(st.sampled_from([(), ('whitespace',), ('no_comments',), ('no_comments',)]))
    return rules, tuple(out), ws, comment, lws, drop, draw(st.booleans()), draw(st.booleans())


class Spots(Recorder):
    spots = frozenset()

    def blank(self, a, b, drop):
        self.spots |= {b}
        return super().blank(a, b, drop)


@prop(documents, quick=1000)
def places(case, ctx):
    from lib.dh import compile_grammar
    from DHParser.error import REORDERING_OF_ALTERNATIVES_REQUIRED
    rules, texts, ws, comment, lws, drop, optimized, keep = case
    src = '' if optimized else '@ optimizations = none\n'
    src += f'@ whitespace = {ws}\n' if ws in NAMED else f'@ whitespace = /{ws}/\n'
    kept = keep and 'no_comments' in drop and comment
    if comment: src += ('@ comment_keep' if kept else '@ comment') + f' = /{comment}/\n'
    src += f'@ literalws = {lws}\n'
    if drop and not (kept and drop == ('no_comments',)): src += '@ drop = ' + ', '.join(drop) + '\n'
    src += ''.join(f'{n} = {peg.ebnf(e)}\n' for n, e in rules)
    gr, msgs = compile_grammar(src)
    if gr is None: ctx.skip('rejected: ' + ','.join(sorted({str(int(e.code)) for e in msgs if e.code >= 1000})))
    if any(e.code == REORDERING_OF_ALTERNATIVES_REQUIRED for e in msgs): ctx.skip('reordered')
    start = rules[0][0]
    for text in texts:
        ref = Recorder(rules, text, (rx(ws), rx(comment)), lws, drop)
        try: r = ref.parse(start)
        except (TooDeep, RecursionError): continue
        tree = gr(text, start, complete_match=False)
        failed = any(e.code >= 1000 for e in tree.errors)
        equal(failed, r is None, 'failed', repr(text), '\n' + src, '\n', tree.as_sxpr())
        if failed: continue
        shape = lambda x: bare(thin(clean(merged([x])[0])))
        equal(shape(actual(tree)), shape(expected(r[1], text, (), ())[0]), repr(text), '\n' + src)
        if not drop: equal(tree.content, text[:r[0]], 'content', repr(text), src)
        if comment:
            ctx.label(('comment ' if re.search(rx(comment), text[:r[0]]) else 'none ') + ' '.join(drop) + (' optimized' if optimized else ''))
        ctx.nontrivial(bool(comment and re.search(rx(comment), text[:r[0]])) or '\n' in text[:r[0]])
