"""P10: robustness of the EBNF-compiler.  Syntactically plausible grammars (generated from the syntax of EBNF, but otherwise arbitrary)
and mutilated grammars are compiled; the compiler must answer with located errors or with a working parser."""
import re
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import dh

RULE = ('random grammars made up of all constructs and directives of EBNF with literals, regular expressions and symbol names that contain awkward characters, '
        'with undefined, doubly defined or recursive symbols, as well as grammars with random changes on the level of tokens and characters; compiled, the '
        'generated code executed and the parser run on several texts; non-trivial: at least three definitions and no or few errors')
ASSUMPTIONS = ['grammars that consist of a single line only and @include are left out, because these are taken for file names',
               'user-supplied Python-functions (custom parsers, filters, search-functions) are not used',
               'recursion-limits: expressions are nested 5 levels deep at most']

SYMS = ['a', 'b', 'c', 'word', 'a_b', 'Text', 're', 'self', 'item-x', 'Series', 'Éa', 'text_skip', 'x1']
LITS = ['x', 'a', 'if', '(', ')', '"', "'", '{', '}', '\\', '{x}', '%', '.', '*', '`', '\\n', '/', '#', '’', '\'"', '"""', 'é', '\U0001F600', ' ', 'a b', '%s', '\\d', '|', '[', '$x', '\t', '']
REGEXES = ['x', '[a-z]+', r'\w+', r'\d*', r'\s*', '.', r'[^"]*', "'", '"', '"""', "'''", r'\/', r'(?:a|b)', r'(a)(b)?', r'(?P<n>a)', r'(?P<n>a)|(?P<m>b)', r'\{', '{', r'a{2}', r'a{1,2}', r'\n',
           r'(?=x)', r'(?!x)', r'(?<=x)a', r'\\', r'[\\]', r"[^'\\]", '#', r'(?i)x', '\n  a  # c\n  b*\n', r'\b', '$', '^', r'\~', r'[{}]', r'(?P<:Text>a)', r'\Z', '’', '`', '%', r'(((a)))', '🙂', '(', '[', '+', r'(?P<n>a)(?P<n>b)', r'\g', 'a**']


def quoted(s, how):
    if how == '`': return '`%s`' % s if '`' not in s and s else '´%s´' % s.replace('´', '')
    return how + s.replace(how, '\\' + how) + how


literals = st.builds(quoted, st.sampled_from(LITS), st.sampled_from('""\'`’'))
regexes = st.builds('/{}/'.format, st.sampled_from(REGEXES))
symbols = st.sampled_from(SYMS + ['a', 'b', 'c', 'word'] * 4)
atoms = st.one_of(symbols, symbols, symbols, literals, literals, regexes,
                  st.sampled_from(['~', '.', '[a-z]', '[^a-z]', '[0x41-0x5A]', '0x41', 'EOF', 'wsp__', '…', '$m(a)', '$m("x", b)', '$k', '$k()', '$m($k)', '¬', '"a" "b"']),
                  st.builds(lambda op, s: op + s, st.sampled_from([':', '::', ':?']), symbols))


def compound(inner):
    two = st.tuples(inner, inner)
    return st.one_of(
        st.lists(inner, min_size=2, max_size=4).map(' '.join),
        st.lists(inner, min_size=2, max_size=4).map(' '.join).map('({})'.format),
        st.lists(inner, min_size=2, max_size=4).map(' | '.join).map('({})'.format),
        st.lists(inner, min_size=2, max_size=3).map(' ° '.join).map('({})'.format),
        two.map('{0[0]} § {0[1]}'.format),
        two.map('({0[0]} § {0[1]})'.format),
        two.map('({0[0]} - {0[1]})'.format),
        st.builds(lambda x, f: f.replace('X', x), inner, st.sampled_from(
            ['{X}', '{ X }+', '[X]', '[ X ]', '(X)', '(X)*', '(X)+', '(X)?', '&X', '!X', '&(X)', '!(X)', '<-&X', '<-!X', '(X){2}', '(X){1,3}', '(X){0,2}', '(X)*2', '3*(X)', '(X){3,1}', '(X){0}',
             '(X -> DROP)', '(X -> HIDE)', '{X}*2', '[X]{2}', '$m(X)', '$m((X), a)', '{ {X} }', '[[X]]', '{[X]}+', '§ X', '{ X ; }', '(X)**', 'X -> DROP'])))


exprs = st.recursive(atoms, compound, max_leaves=8)
alternatives = st.lists(exprs, min_size=1, max_size=3).map(' | '.join)

DIRECTIVES = ['@ whitespace = {r}', '@ whitespace = horizontal', '@ whitespace = linefeed', '@ whitespace = /[ \\t]*/', '@ comment = {r}', '@ comment = /#.*/', '@ literalws = right', '@ literalws = none', '@ literalws = both', '@ literalws = {s}',
              '@ ignorecase = true', '@ drop = whitespace, strings', '@ drop = backticked', '@ drop = {s}', '@ drop = {l}', '@ hide = {s}, {t}\n@ drop = {s}, whitespace', '@ hide = {s}', '@ disposable = {r}', '@ disposable = /_\\w+/', '@ hide = $m',
              '@ reduction = merge', '@ reduction = {s}', '@ reduction = 2', '@ optimizations = all', '@ optimizations = none', '@ optimizations = literal', '@ optimizations = sequence, alternative', '@ optimizations = lookahead', '@ optimizations = {s}',
              '@ {s}_skip = {r}', '@ {s}_skip = {l}', '@ {s}_skip = ({e})', '@ {s}_skip = ({e}), ({e})', '@ {s}_resume = {r}, {l}', '@ {s}_resume = ({e})', '@ {s}_resume = {s}', '@ {s}_error = {l}', '@ {s}_error = {r}, {l}', '@ {s}_error = {l}, {l} {l}',
              '@ {s}_error = ({e}), {l}', '@ {s}_filter = matching_bracket()', '@ {s}_filter = {l}', '@ tokens = {s}', '@ preprocessor_tokens = TOK', '@ tokens = TOK, {s}', '@ version = 1', '@ {s} = {l}', '@ flavor = dhparser', '@ skip_{s} = {r}', '@ comment_keep = {r}',
              '$m($x) = $x {s}', '$m($x, $y) = { $x } $y', '$k = {e}', '$m($x) = {e}', 'HIDE:$m($x) = $x', '$m($x) = $m($x)', '$k = $k', '$m($x) = $x -> DROP', '$Éa($x) = $x', '@ include = {s}']


@st.composite
def grammars(draw):
    lines = []
    for d in draw(st.lists(st.sampled_from(DIRECTIVES), max_size=4)):
        lines.append(d.replace('{s}', draw(symbols)).replace('{t}', draw(symbols)).replace('{r}', draw(regexes)).replace('{l}', draw(literals)).replace('{e}', draw(exprs)))
    names = draw(st.lists(symbols, min_size=1, max_size=6, unique=draw(st.sampled_from([True, True, True, False]))))
    defined = list(names)
    for n in names:
        pre = draw(st.sampled_from([''] * 8 + ['HIDE:', 'DROP:', 'HIDE: ']))
        post = draw(st.sampled_from([''] * 10 + [' -> HIDE', ' -> DROP']))
        lines.append(pre + n + ' = ' + draw(alternatives) + post)
    if draw(st.booleans()):  # provide for all symbols
        for s in sorted({t for line in lines for t in SYMS if re.search(r'(?<![\w-])%s(?![\w-])' % re.escape(t), line)} - set(names)):
            lines.append(s + ' = ' + draw(atoms))
            defined.append(s)
    if draw(st.integers(0, 5)) == 0: lines.append('lonely = "x"')
    return '\n' + '\n'.join(lines) + '\n', defined


JUNK = ['@', '=', '|', '§', '&', '!', '<-&', '->', 'DROP', 'HIDE:', '~', '°', '-', '*', '+', '?', '{', '}', '[', ']', '(', ')', ':', '::', '$', '"', "'", '`', '/', '//', '""', '.', '..', '{2}', '0x41', '[a-z]', '\\', '\n', ',', ';', '::=', '<-',
        'a', 'b', '\n@', '\na =', '#', '\t', '\r\n', '\x00', '\ufeff', '\x0c', '\u2028', '(*', '*)', '/*', '%', '^', '<', '>', '¬', '´', '’', '0', '9', '_', '__', 'EOF', '@ a_skip = ', '@ whitespace = ', '@include']
TOKENS = re.compile(r'''"(?:\\.|[^"\n])*"|'(?:\\.|[^'\n])*'|`[^`\n]*`|/(?:\\.|[^/\n])*/|\w+|\s+|.''', re.S)


@st.composite
def mutilated(draw):
    t = TOKENS.findall(draw(grammars())[0])
    for _ in range(draw(st.integers(1, 4))):
        op, i = draw(st.integers(0, 5)), draw(st.integers(0, len(t)))
        if op == 0: del t[i:i + draw(st.integers(1, 4))]
        elif op == 1: t.insert(i, draw(st.sampled_from(JUNK)))
        elif op == 2 and i < len(t): t[i] = draw(st.sampled_from(JUNK))
        elif op == 3 and i < len(t):
            j = draw(st.integers(0, len(t) - 1))
            t[i], t[j] = t[j], t[i]
        elif op == 4 and i < len(t):
            k = draw(st.integers(0, len(t[i])))
            t[i] = t[i][:k] + draw(st.sampled_from(['', draw(st.sampled_from('"\'/()[]{}\\*+?|-^$.§@=:~<>&!aé0 \n,;#_'))])) + t[i][k + 1:]
        elif op == 5 and i < len(t): t.insert(i, t[i])
    return '\n' + ''.join(t) + '\n'


TEXTS = ['', 'x', 'a b', 'ab(x) "if"', '\'"{x}\\\n', '# c\nx é']


def sane():
    """Runs parsers of all the usual classes that are unrelated to the faulty grammar."""
    from DHParser import parse as p
    doc = p.Series(p.OneOrMore(p.Alternative(p.Text('ab'), p.RegExp('[a-z]'), p.Text('('))), p.Option(p.Lookahead(p.Text(';'))), p.ZeroOrMore(p.Text(';')),
                   p.Counted(p.Text('!'), (0, 2)), p.NegativeLookahead(p.Text('x')), p.Whitespace(r'\s*'), p.Synonym(p.RegExp(r'\d*')).name('num')).name('doc')
    from DHParser.nodetree import flatten_sxpr
    return flatten_sxpr(p.Grammar(doc)('abz(;;! 12').as_sxpr())


EXPECTED = '(doc (:Text "ab") (:RegExp "z") (:Text "(") (:Text ";") (:Text ";") (:Text "!") (:Whitespace " ") (num "12"))'


def attempt(src, ctx):
    """Compiles the grammar and, if there are no errors, runs the parser. Returns the messages, number of definitions."""
    from DHParser.error import is_error
    code, messages = dh.compile_ebnf(src)
    for pos, c, text in messages:
        check(0 <= pos <= len(src), 'error is not located in the grammar', pos, c, text)
        check(text and '{self.' not in text, 'no message', c, text)
    errors = [m for m in messages if is_error(m[1])]
    check(isinstance(code, str) or errors, 'neither a result nor errors')
    if not errors:
        gr = dh.provider(code)()
        for text in TEXTS:
            tree = gr(text)
            check(all(0 <= e.pos <= len(text) for e in tree.errors), 'error outside of the text', text, tree.errors)
            check(tree.errors or tree.name != 'ZOMBIE__' or text == '', 'no result and no errors', text, tree.as_sxpr())
    else: equal(sane(), EXPECTED, 'other parsers do not work any more in the same process')
    return messages, errors


@prop(grammars, quick=1600, thorough=30000, shards=8, rule='syntactically plausible grammars; undefined, doubly defined and unconnected symbols')
def plausible(case, ctx):
    src, defined = case
    messages, errors = attempt(src, ctx)
    codes = {c for _, c, _ in messages}
    doubles = {n.replace('-', '_') for n in defined if [d.replace('-', '_') for d in defined].count(n.replace('-', '_')) > 1}
    structural = any(c in (1010, 1030, 1040, 1042, 1045, 10100, 10500) for c in codes)
    if not structural:
        for n in doubles:
            check(any('"%s" has already been defined' % n in m for _, _, m in messages), 'double definition not reported', n, messages)
    if not errors:
        ctx.label('working' + (' with warnings' if messages else ''))
        check('lonely = "x"' not in src or 670 in codes or defined[0] == 'lonely', 'unconnected symbol not reported')
    else: ctx.label('structural errors' if structural else 'double' if doubles else 'undefined' if 1140 in codes else 'other errors')
    ctx.nontrivial(len(defined) >= 3 and len(errors) <= 2)


@prop(mutilated, quick=1200, thorough=24000, shards=8, rule='mutilated grammars')
def mutations(src, ctx):
    if re.search(r'@\s*(include|[A-Z]\w*\s*\()', src): ctx.skip('include or custom parser')
    messages, errors = attempt(src, ctx)
    ctx.label('working' if not errors else 'errors')
    ctx.nontrivial(src.count('=') >= 3)


@st.composite
def defects(draw):
    """A sane grammar with exactly one defect the kind of which is known"""
    lit = lambda: draw(st.sampled_from(['"x"', '`y`', '/z/', '"if"', '/\\d+/']))
    names = draw(st.lists(st.sampled_from(['aa', 'bb', 'cc', 'dd', 'ee', 'ff']), min_size=3, max_size=6, unique=True))
    bodies = []
    for i, n in enumerate(names):
        parts = [lit() for _ in range(draw(st.integers(0, 2)))] + (names[i + 1:i + 2] if i + 1 < len(names) else [lit()])
        parts = [draw(st.sampled_from(['%s', '%s', '{%s}', '[%s]', '(%s)', '{ %s }+'])) % p for p in parts]
        bodies.append(lit() + ' ' + ' '.join(draw(st.permutations(parts))))
    k = draw(st.integers(0, len(names) - 1))
    kind = draw(st.sampled_from(['none', 'undefined', 'double', 'unconnected', 'loop', 'loop', 'option-loop', 'regex', 'reserved', 'keyword', 'range', 'directive', 'related', 'macro', 'macro-args', 'lookbehind', 'alternative']))
    head, pos = '', None
    wrap = draw(st.sampled_from(['%s', '{ "," %s }', '( "," | %s )', '[ %s "," ]', '&%s', '($M(%s))']))
    if wrap.startswith('($M'): head = '$M($v) = $v ";"\n'
    if kind == 'undefined': bodies[k] += ' ' + wrap % 'undef'
    elif kind == 'double': names.append(names[k]); bodies.append(lit())
    elif kind == 'unconnected': names.append('loose'); bodies.append(lit())
    elif kind == 'loop': bodies[k] += ' ' + draw(st.sampled_from(['{ %s }', '{ %s }+'])) % draw(st.sampled_from(['//', '/a*/', '{ "a" }', '[ "a" ]', '""', '/(?=a)/', '[ "a" ] { "b" }', '( "a" | "" )', '~']))
    elif kind == 'option-loop': bodies[k] += ' ' + draw(st.sampled_from(['[ { "a" } ]', '[ [ "b" ] ]']))
    elif kind == 'regex': bodies[k] += ' ' + wrap % draw(st.sampled_from(['/(/', '/[/', '/a**/', '/+/']))
    elif kind == 'reserved': names.append('__x__'); bodies.append(lit()); bodies[k] += ' __x__'
    elif kind == 'keyword': names.append('while'); bodies.append(lit()); bodies[k] += ' while'
    elif kind == 'range': bodies[k] += ' ("q"){3,2}'
    elif kind == 'directive': head += '@ nonsense = 1\n'
    elif kind == 'related': head += draw(st.sampled_from(['@ nonsense_skip = /x/\n', '@ nonsense_resume = /x/\n', '@ nonsense_error = "x"\n']))
    elif kind == 'macro': bodies[k] += ' $nonsense("a")'
    elif kind == 'macro-args': head += '$N($v, $w) = $v $w\n'; bodies[k] += ' $N("a")'
    elif kind == 'lookbehind': bodies[k] += ' <-& ( "a" "b" )'
    elif kind == 'alternative': bodies[k] += ' ( { "a" } | "b" )'
    src = '@ whitespace = /[ \\t]*/\n' + head + ''.join('%s = %s\n' % nb for nb in zip(names, bodies))
    return kind, src, names, k


@prop(defects, quick=1200, thorough=24000, shards=8, rule='sane grammars with exactly one known defect, which must be reported; sane grammars must not be reported')
def known_defects(case, ctx):
    kind, src, names, k = case
    messages, errors = attempt(src, ctx)
    codes = {c for _, c, _ in messages}
    ctx.label(kind)
    ctx.nontrivial(kind != 'none')
    start = src.index('\n%s = ' % names[k]) + 1
    end = src.index('\n', start)
    located = lambda *cs: check(any(c in cs and start <= p <= end for p, c, _ in messages), kind, 'not reported or misplaced', cs, (start, end), messages)
    reported = lambda *cs: check(any(c in cs for c in codes), kind, 'not reported', cs, messages)
    if kind == 'none': equal(errors, [], 'errors in a sane grammar', messages)
    elif '($M(' in src and kind in ('undefined', 'regex'): check(errors, kind, 'not reported')  # placed at the placeholder in the macro
    elif kind == 'undefined': located(1140)
    elif kind == 'regex': located(1585)
    elif kind == 'loop': pass  # not necessarily reported, but broken off when parsing
    elif kind == 'unconnected':
        equal(errors, [], 'errors in a sane grammar', messages)
        reported(670)
    elif kind in ('alternative', 'option-loop'): reported(*range(100, 2000))
    else: check(errors, kind, 'not reported', messages)
