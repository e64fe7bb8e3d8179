"""P09: errors after the point of no return and recovery."""
import re
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, Violation
from lib import peg
from lib.peg import TooDeep
from lib.record import Recorder, expected, merged, actual, clean, bare, thin

RULE = ('search for reentry points in random texts with comments; random grammars with mandatory items, recovery rules and custom error messages on defective texts, compared with a reference '
        'matcher that models violations, skipping and resuming; non-trivial: a comment is in the way of the search, or at least one violation occurs and parsing is resumed after it')
ASSUMPTIONS = ['resuming is only specified for the symbol that contains the violated item', 'mandatory markers in the top-level sequence of a definition',
               'matches of search-rules that start inside a comment and end outside are unspecified']
RULES = [';', ',', '(?=;)', '(?=,)', ';\\s*', '[;,]', '\\n', '(?=\\n)', '$', 'end', '(?<=;)', ';|$', 'b', '(?=b)', ',b?', '(?=\\)|;)', '\\)', '(?=end|;)', '(?=a)']
PLAIN = [';', ',', 'end', 'b', '\n', ';;', ')', 'x end']
COMMENTS = ['', '#[^#]*#', '{[^}]*}', '%[^\\n]*', '#[^\\n]*', '//.*']
PIECES = ['a', 'b', 'x', ';', ';', ',', ' ', '\n', 'end', ')', '#', '#;#', '#b#', '{;}', '{', '}', '% ;,b', '//end', '# end;']


def nearest(text, rules, comment, found=None):
    """The end of the nearest match that is not inside of a comment, and the number of the rule. None, if that is not specified."""
    spans = [m.span() for m in re.finditer(comment, text)] if comment else []
    spans = [s for s in spans if s[0] < s[1]]
    best = -1, 0
    for nr, (plain, rule) in enumerate(rules, 1):
        rx = re.compile(re.escape(rule) if plain else rule)
        pos = 0
        while pos <= len(text):
            m = rx.search(text, pos)
            if not m: break
            a, b = m.span()
            hit = [s for s in spans if s[0] < a < s[1] or s[0] < b < s[1]]
            if not hit:
                if best[0] < 0 or b < best[0]: best = b, nr
                break
            if found is not None: found.append(hit)
            if any(not (s[0] < a and b < s[1]) and not (a == b and s[0] < a < s[1]) for s in hit): return None
            pos = hit[0][1]
    return best


@st.composite
def searches(draw):
    return (''.join(draw(st.lists(st.sampled_from(PIECES), max_size=12))), tuple(draw(st.lists(st.one_of(st.tuples(st.just(False), st.sampled_from(RULES)), st.tuples(st.just(True), st.sampled_from(PLAIN))),
            min_size=1, max_size=3))), draw(st.sampled_from(COMMENTS)), draw(st.integers(0, 4)))


@prop(searches, quick=1500)
def search(case, ctx):
    from DHParser.parse import reentry_point, RX_NEVER_MATCH
    from DHParser.stringview import StringView
    text, rules, comment, offset = case
    found = []
    best = nearest(text, rules, comment, found)
    if best is None: ctx.skip('ambiguous')
    rest = StringView('#' * offset + text)[offset:]
    pos, node = reentry_point(rest, [r if plain else re.compile(r) for plain, r in rules], re.compile(comment) if comment else RX_NEVER_MATCH, -1, 'S_skip')
    equal(pos, best[0], case)
    equal(node.content, text[:max(pos, 0)], 'skipped', case)
    if pos >= 0: equal(node.name, f'S_skip_R{best[1]}__', 'rule', case)
    ctx.nontrivial(bool(found))


# ---------------------------------------------------------------- violations, skipping and resuming

class Thrown(Exception):
    def __init__(self, symbol, pos, nodes, state): self.symbol, self.pos, self.nodes, self.state = symbol, pos, nodes, state


class Unspecified(Exception): pass


class Recover(Recorder):
    """Adds mandatory violations, skip- and resume-rules"""

    def __init__(self, rules, text, ws, lws, directives):
        super().__init__(rules, text, ws, lws, ())
        self.directives, self.comment = directives, ws[1]
        self.bodies = {id(e): n for n, e in rules if e[0] == 'seq' and ('mand',) in e[1]}
        self.violations, self.active = {}, []
        self.resumed = 0

    def jump(self, kind, name, pos):
        rules = self.directives.get((name, kind))
        if not rules: return None
        best = nearest(self.text[pos:], tuple((False, '(?=' + re.escape(r) + ')') if plain else (False, r) for plain, r in rules), self.comment)
        if best is None: raise Unspecified('comment')
        if best[0] < 0: return None
        return pos + best[0], ((f'{name}_{kind}_R{best[1]}__', pos, pos + best[0], (('', pos, pos + best[0], False),)),)

    def match(self, e, pos, state=()):
        name = self.bodies.get(id(e))
        if name is None: return super().match(e, pos, state)
        nodes, p, after = (), pos, False
        for c in e[1]:
            if c == ('mand',):
                after = True
                continue
            r = self.match(c, p, state)
            if r is None:
                if not after: return None
                if (p, name) in self.violations and self.violations[p, name] is not c: raise Unspecified('two at the same place')
                if any(q == p and n != name for q, n in self.violations): raise Unspecified('two at the same place')
                self.violations[p, name] = c
                j = self.jump('skip', name, p)
                if j is None: raise Thrown(name, p, nodes, state)
                p, skipped = j
                nodes += skipped
                self.resumed += 1
                r = self.match(c, p, state)
                if r is None: continue
            p, n, state = r
            nodes += n
        return p, nodes, state

    def symbol(self, name, pos, state):
        self.active.append(name)
        try: return super().symbol(name, pos, state)
        except Thrown as t:
            if t.symbol == name:
                j = self.jump('resume', name, t.pos)
                if j is not None:
                    self.resumed += 1
                    return j[0], ((name, pos, j[0], t.nodes + j[1]),), t.state
            if any((n, 'resume') in self.directives for n in self.active): raise Unspecified('outer resume rule')
            raise
        finally: self.active.pop()


@st.composite
def recoveries(draw):
    rules, _, texts, (ws, lws), info = draw(peg.wscases(drops=False, hide=False, reduction=False, keep=False, n=4, base=peg.nested, spaces=0))
    out, marked = [], []
    for n, e in rules:
        if e[0] == 'seq' and len(e[1]) > 1 and draw(st.integers(0, 4)):
            flat = []
            if draw(st.integers(0, 2)) == 0: e = ('seq', e[1] + tuple(('lit', c) for c in draw(st.lists(st.sampled_from(['a', 'x', ')', ';', 'end']), min_size=1, max_size=3))))
            for c in e[1]: flat += c[1] if c[0] == 'seq' else (c,)
            i = draw(st.sampled_from([1, 1, 1, 2, 3])) % (len(flat) - 1) + 1
            e = ('seq', tuple(flat[:i]) + (('mand',),) + tuple(flat[i:]))
            marked.append(n)
        out.append((n, e))
    directives = {}
    chars = sorted({c for t in texts for c in t if c.isprintable() and c not in '/\\\'"'}) or ['x']
    rule = st.one_of(st.tuples(st.just(False), st.sampled_from([r for r in RULES if '<' not in r])), st.sampled_from(chars).map(lambda c: (False, f'(?=[{re.escape(c)}])')),
                     st.sampled_from(chars).map(lambda c: (False, f'[{re.escape(c)}]')), st.sampled_from(chars).map(lambda c: (True, c)),
                     st.just((False, '$')))
    tokens = {n: [names_of(c)[:1] for c in e[1][e[1].index(('mand',)) + 1:] if c[0] in ('lit', 'syn') and names_of(c)[:1] in chars] for n, e in out if n in marked}
    for n in marked:
        own = st.sampled_from(tokens[n]).map(lambda c: (False, f'(?=[{re.escape(c)}])')) if tokens[n] else rule
        for kind in draw(st.sampled_from([(), ('skip',), ('skip',), ('resume',), ('resume',), ('skip', 'resume'), ('skip', 'resume')])):
            directives[n, kind] = tuple(draw(st.lists(st.one_of(own, rule) if kind == 'skip' else rule, min_size=1, max_size=2)))
        k = draw(st.integers(0, 2))
        if k:
            directives[n, 'error'] = tuple((draw(st.one_of(st.just((True, '')), rule)), draw(st.sampled_from(['', '', '1234:', '777:'])) + 'M' + str(i) + draw(st.sampled_from(['', ' {1}', ' {0}', ' {0} {1}'])))
                                           for i in range(k))
    ws = ('\\s*', draw(st.sampled_from(['', '#[^#]*#', '{[^}]*}', '%[^\\n]*']))) if ws[1] or draw(st.booleans()) else ws
    docs = []
    for t in texts:
        for k in range(draw(st.integers(1, 2))):
            for i, what in draw(st.lists(st.tuples(st.integers(0, 60), st.sampled_from(['del', 'del', 'ins', 'ins', 'rep', 'tail', 'dup', 'two', 'two'])), min_size=0, max_size=4)):
                i = i % (len(t) + 1)
                ins = draw(st.sampled_from(chars + [';', '!', 'end', ' ', '!!', '{;}', '#;#', '\n']))
                if what == 'del': t = t[:i] + t[i + 1:]
                elif what == 'ins': t = t[:i] + ins + t[i:]
                elif what == 'rep': t = t[:i] + ins + t[i + 1:]
                elif what == 'two':
                    j = i + draw(st.integers(1, 4))
                    t = t[:i] + t[i + 1:j + 1] + '!' + draw(st.sampled_from(chars + [';', 'end']))
                elif what == 'dup': t = t[:i] + t[i:] + t[i:]
                elif len(t) > 3: t = t[:max(i, 2)]
            docs.append(t)
    return tuple(out), tuple(docs), ws, lws, tuple(sorted(directives.items())), draw(st.integers(0, 2)) == 0


def source(case, recovery=True):
    rules, docs, ws, lws, directives, optimized = case
    h = ('' if optimized else '@ optimizations = none\n') + f'@ whitespace = /{ws[0]}/\n' + (f'@ comment = /{ws[1]}/\n' if ws[1] else '') + f'@ literalws = {lws}\n'
    lit = lambda plain, r: f'"{r}"' if plain else f'/{r}/'
    if recovery:
        for (n, kind), d in directives:
            if kind == 'error': h += ''.join(f"@ {n}_error = {lit(*cond) if cond != (True, '') or i % 2 else repr('')}, '{msg}'\n" for i, (cond, msg) in enumerate(d))
            else: h += f'@ {n}_{kind} = ' + ', '.join(lit(*r) for r in d) + '\n'
    return h + ''.join(f'{n} = {peg.ebnf(e)}\n' for n, e in rules)


def names_of(c):
    """What an error message must at least mention of the item"""
    if c[0] in ('lit', 'ref'): return c[1]
    if c[0] == 'syn': return c[1][1:-1] if c[1] != '~' else ''
    return ''


def message_problem(msg, rest, name, item, directives):
    """Compares an error message with the declared messages"""
    quoted = re.escape(rest[:10].replace('\n', '\\n'))
    found = 'END OF FILE' if not rest else '»' + quoted + '(?:\\.\\.\\.)?«'
    thing = '.*' + re.escape(names_of(item)) + '.*'
    for (plain, cond), m in dict(directives).get((name, 'error'), ()):
        if rest.startswith(cond) if plain else re.match(cond, rest):
            m = re.sub('^\\d+:', '', m)
            pattern = re.escape(m).replace('\\{0\\}', thing).replace('\\{1\\}', found)
            break
    else: pattern = thing + f" expected by parser '{name}', but " + found + ' found instead!'
    return None if re.fullmatch(pattern, msg, re.S) else pattern


def code_of(rest, name, directives):
    for (plain, cond), m in dict(directives).get((name, 'error'), ()):
        if rest.startswith(cond) if plain else re.match(cond, rest):
            k = re.match('(\\d+):', m)
            return int(k.group(1)) if k else 1010
    return 1010


def filled(item):
    """Leaves out empty skip-, resume- and zombie-nodes"""
    if len(item) == 2: return item
    return item[0], item[1], merged([filled(x) for x in item[2] if len(x) == 2 or x[2] or not x[0].endswith('__')])


@prop(recoveries, quick=900)
def recovery(case, ctx):
    from lib.dh import compile_grammar
    from DHParser.error import REORDERING_OF_ALTERNATIVES_REQUIRED
    rules, docs, ws, lws, directives, optimized = case
    src = source(case)
    gr, msgs = compile_grammar(src)
    if gr is None: ctx.skip('rejected: ' + ','.join(sorted({str(int(e.code)) for e in msgs if e.code >= 1000})))
    if any(e.code == REORDERING_OF_ALTERNATIVES_REQUIRED for e in msgs): ctx.skip('reordered')
    plain = None
    start = rules[0][0]
    for text in docs:
        ref = Recover(rules, text, ws, lws, dict(directives))
        thrown = False
        try: r = ref.parse(start)
        except (TooDeep, RecursionError): continue
        except Unspecified: continue
        except Thrown: thrown, r = True, None
        tree = gr(text, start, complete_match=False)
        info = repr(text) + '\n' + src + '\n' + tree.as_sxpr()
        got = sorted((e.pos, int(e.code), e.message) for e in tree.errors if int(e.code) not in (1040, 1042, 1030, 1045, 720, 50))
        exp = sorted((p, name) for p, name in ref.violations)
        equal([(p, c) for p, c, _ in got], [(p, code_of(text[p:], name, directives)) for p, name in exp], 'errors', info)
        for (p, c, m), (_, name) in zip(got, exp):
            bad = message_problem(m, text[p:], name, ref.violations[p, name], directives)
            check(not bad, 'message', m, 'instead of', bad, info)
        if not exp and not any(int(e.code) >= 1000 for e in tree.errors):
            if plain is None: plain = compile_grammar(source(case, False))[0]
            equal(tree.as_sxpr(), plain(text, start, complete_match=False).as_sxpr(), 'rules take effect without error', info)
        if thrown:
            check(text.startswith(tree.content), 'content', tree.content, info)
            equal(gr(text, start, complete_match=True).content, text, 'content', info)
            ctx.label('terminated')
        elif r is None:
            if not exp: check(any(int(e.code) >= 1000 for e in tree.errors), 'no match expected', info)
        else:
            equal(tree.content[:r[0]], text[:r[0]], 'content', info)
            ok = not any(int(e.code) in (1040, 1042, 1030, 1045) for e in tree.errors)
            check(ok, 'failed after resuming', info)
            shape = lambda x: bare(thin(clean(filled(merged([x])[0]))))
            equal(shape(actual(tree)), shape(expected(r[1], text, (), ())[0]), info)
            if ref.resumed:
                ctx.label('resumed %i' % min(ref.resumed, 4))
                ctx.nontrivial(True)
            else: ctx.label('fine' if not exp else 'violated')
