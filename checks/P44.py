"""P44: re-generating a parser script keeps the user's own code."""
import os
import shutil
import tempfile

from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises

RULE = ('random histories of grammar changes (valid and invalid grammars), user edits in all editable sections of the script (code, comments, strings '
        'with format-signs, backslashes, unicode-linebreaks, look-alikes of section-markers; blanking a section), removal of section-markers and '
        're-compilations (forced or not); compared with a model of the script after every step; non-trivial: at least one edit lies between two '
        'compilations')
ASSUMPTIONS = ['a section that consists of whitespace only is generated anew (documented)',
               'blank lines and missing imports may be appended to the import section',
               'line-endings are normalized to LF']

PARTS = ['@ whitespace = horizontal\n', '@ drop = whitespace\n', '@ disposable = word\n', '# Grammar with a comment\n', '@ ignorecase = True\n',
         '# {NAME} {0} %s \\1 "quoted" \'\'\' """\n', '@ comment = /#.*/\n',
         '\n\n#######################################################################\n#\n# PARSER SECTION\n#\n'
         '#######################################################################\n\n\n',
         '\n\n' + '#' * 71 + "\n#\n# PARSER SECTION - Don't edit! CHANGES WILL BE OVERWRITTEN!\n#\n" + '#' * 71 + '\n\n']
RULES = ['root = word { "," word }\n', 'root = { word }+ EOF\nEOF = !/./\n', 'root = "a{b}" word\n', 'root = word "\\\\" word\n', "root = /ä\\w*{1,3}/ word\n",
         'root = word §"x" | "ö" word\n', 'root = word ["```"] \'"\'\n', 'root = a | word\na = "("  a ")" | word\n']
WORDS = ['word = ~/\\w+/~\n', 'word = /[a-z]+/~\n', 'word = /\\d{2}"/\n', "word = `'`\n"]
INVALID = ['root = undefined\n', 'root = "a\n', '', 'root = word word\nword = /(/\n', 'root = "a"\nroot = "b"\n', '@ foo = bar\nroot = "a"\n', '???\n', 'root = { /x*/ }\n = \n']
grammar = st.tuples(st.lists(st.sampled_from(PARTS), max_size=2, unique=True), st.sampled_from(RULES), st.sampled_from(WORDS)).map(lambda t: ''.join(t[0]) + t[1] + t[2])
MARK = '\n\n#######################################################################\n#\n# %s\n#\n#######################################################################\n\n'
snippet = st.lists(st.sampled_from(
    ['x = 1\n', '# {NAME} {0} {marker}\n', 's = "%s %d \\1 \\g<0>"\n', 'def f(a):\n\treturn a  \n', '\n', '\n\n\n', '    ', '\t\n', '# SECTION\n', '# ÄÖ€😀\n', '\x0c\n', '"\u2028\x85\x0b"\n',
     '#######################################################################\n', '#\n# PARSER SECTION\n#\n', 'class MyGrammar(Grammar):\n    hash__ = "abc"\n', "'''\n", '\ufeff', '#\n',
     '# from DHParser.x import PseudoJunction, create_parser_junction\n', 'r"\\section{SECTION}"\n', 'class FooGrammar(Grammar):\n    pass\n', 'end']), min_size=1, max_size=4).map(''.join)
edit = st.tuples(st.just('edit'), st.sampled_from([0, 1, 2, 4, 5, 6]), st.sampled_from(['append', 'append', 'prepend', 'replace', 'replace', 'blank']), snippet)
op = st.one_of(st.tuples(st.just('grammar'), grammar), st.tuples(st.just('grammar'), grammar), st.tuples(st.just('invalid'), st.sampled_from(INVALID)), edit, edit, edit,
               st.tuples(st.just('compile'), st.booleans()), st.tuples(st.just('compile'), st.booleans()), st.tuples(st.just('break'), st.integers(0, 5)), st.just(('revert',)))
MARKERS = ['SYMBOLS SECTION - Can be edited. Changes will be preserved.', 'PREPROCESSOR SECTION - Can be edited. Changes will be preserved.',
           "PARSER SECTION - Don't edit! CHANGES WILL BE OVERWRITTEN!", 'AST SECTION - Can be edited. Changes will be preserved.',
           'COMPILER SECTION - Can be edited. Changes will be preserved.', 'END OF DHPARSER-SECTIONS']


def split(text):
    """Splits a script at its markers, independently of DHParser; the markers are searched from both ends, for look-alikes."""
    out = []
    for m in MARKERS:
        i = text.find(MARK % m)
        check(i >= 0, 'section-marker is missing', m, text)
        out.append(text[:i])
        text = text[i + len(MARK % m):]
    return out + [text]


def join(sections):
    text = sections[0]
    for m, s in zip(MARKERS, sections[1:]): text += MARK % m + s
    return text


def read(path):
    if not os.path.exists(path): return None
    with open(path, encoding='utf-8', newline='') as f: return f.read()


def write(path, text):
    with open(path, 'w', encoding='utf-8', newline='') as f: f.write(text)


FRESH = {}


def fresh(src, name):
    """The sections of a newly created script, or None if the grammar has errors."""
    from DHParser.dsl import compile_on_disk
    from DHParser.error import has_errors
    if (src, name) not in FRESH:
        d = tempfile.mkdtemp()
        try:
            write(os.path.join(d, name + '.ebnf'), src)
            messages = compile_on_disk(os.path.join(d, name + '.ebnf'), os.path.join(d, name + 'Parser.py'))
            FRESH[(src, name)] = None if has_errors(messages) else split(read(os.path.join(d, name + 'Parser.py')))
        finally: shutil.rmtree(d)
    return FRESH[(src, name)]


def check_merge(new, old, template):
    for i, (n, o, t) in enumerate(zip(new, old, template)):
        if i == 3: equal(n, t, 'the parser section is not the one generated for this grammar')
        elif not o.strip(): equal(n, t, 'blank section has not been generated anew', section=i)
        elif i == 1:
            check(n.startswith(o), 'user code in the import section has been changed', n=n, o=o)
            rest = n[len(o):]
            check(not rest.strip() or (rest.strip() == 'from DHParser.pipeline import PseudoJunction, create_parser_junction' and
                                       ('PseudoJunction' not in o or 'create_parser_junction' not in o or 'from DHParser.' not in o)), 'unexpected addition to the import section', rest)
        else: equal(n, o, 'user code has been changed', section=i)


@prop(lambda: st.tuples(grammar, st.lists(op, min_size=2, max_size=10), st.sampled_from(['Foo', 'my-lang', 'FooParser', 'ä b'])), quick=600, shards=8)
def histories(case, ctx):
    from DHParser.dsl import recompile_grammar, split_source
    first, ops, name = case
    d = tempfile.mkdtemp()
    try:
        src = os.path.join(d, name + '.ebnf')
        script = os.path.join(d, name + 'Parser.py')
        messages = os.path.join(d, name + '_ebnf_MESSAGES.txt')
        grammars, compiled, edited, broken = [first], None, False, False
        write(src, first)
        state = None     # content of the script on disk
        others = {'other.py': 'x = 1\n', name + 'Server.py': 'pass'}
        for fn, t in others.items(): write(os.path.join(d, fn), t)
        for o in ([('compile', False)] if len(ops) % 4 else []) + ops + [('compile', False), ('compile', True), ('compile', True)]:
            if o[0] in ('grammar', 'invalid'):
                grammars.append(o[1])
                write(src, o[1])
            elif o[0] == 'revert' and len(grammars) > 1:
                grammars.append(grammars[-2])
                write(src, grammars[-1])
            elif o[0] == 'edit' and state is not None and not broken:
                secs = split(state)
                i, how, text = o[1:]
                new = {'append': secs[i] + text, 'prepend': text + secs[i], 'replace': text, 'blank': ' \n'[:len(text)]}[how]
                trial = secs[:i] + [new] + secs[i + 1:]
                # edits must not forge markers or shift them
                if split(join(trial)) != trial: continue
                if len(split_source('x', join(trial))) != 7: continue
                state = join(trial)
                write(script, state)
                edited = True
            elif o[0] == 'break' and state is not None and not broken and o[1] % 3 == 0:
                m = MARK % MARKERS[o[1]]
                state = state.replace(m, '\n', 1)
                write(script, state)
                broken = True
            elif o[0] == 'compile':
                cur = grammars[-1]
                template = fresh(cur, name)
                notified = []
                must = state is None or o[1] or compiled != cur
                before = state
                if broken and must and template is not None:
                    e = raises(lambda: recompile_grammar(src, script, o[1], lambda: notified.append(1)), ValueError)
                    check(e is not None, 'script without the necessary markers has been accepted')
                    equal(read(script), before, 'damaged script has been changed')
                    return
                ok = recompile_grammar(src, script, o[1], lambda: notified.append(1))
                after = read(script)
                if edited and must: ctx.nontrivial()
                if template is None and must:
                    equal(ok, False, 'success in spite of errors', cur)
                    equal(after, before, 'grammar with errors changed the script', cur)
                    check(os.path.exists(messages) and read(messages).strip(), 'errors have not been written', cur)
                elif not must:
                    equal(ok, True, 'unchanged grammar')
                    equal(after, before, 'script has been changed although the grammar has not changed')
                    equal(notified, [], 'notified without compilation')
                else:
                    equal(ok, True, 'valid grammar failed', cur)
                    equal(notified, [1], 'not notified', cur)
                    secs = split(after)
                    if before is None: equal(secs, template, 'new script')
                    else: check_merge(secs, split(before), template)
                    check(os.access(script, os.X_OK), 'script is not executable')
                    compiled = cur
                    again = after
                    check(recompile_grammar(src, script, True), 'second compilation')
                    equal(read(script), again, 'compiling twice is not the same as compiling once')
                state = after
                equal(read(src), cur, 'grammar has been changed')
                for fn, t in others.items(): equal(read(os.path.join(d, fn)), t, 'unrelated file', fn)
    finally: shutil.rmtree(d)


@prop(lambda: st.tuples(st.lists(st.one_of(grammar, grammar, st.sampled_from(INVALID)), min_size=1, max_size=4), st.booleans()), quick=200, shards=2)
def directories(case, ctx):
    """All grammars in a directory are (re-)compiled."""
    from DHParser.dsl import recompile_grammar
    sources, force = case
    ctx.nontrivial(len(sources) > 1)
    d = tempfile.mkdtemp()
    try:
        for i, s in enumerate(sources): write(os.path.join(d, 'G%i.ebnf' % i), s)
        write(os.path.join(d, 'other.txt'), 'x')
        expected = [fresh(s, 'G%i' % i) for i, s in enumerate(sources)]
        equal(recompile_grammar(d, force=force), all(e is not None for e in expected), 'result')
        for i, e in enumerate(expected):
            t = read(os.path.join(d, 'G%iParser.py' % i))
            if e is None: equal(t, None, 'script of a faulty grammar')
            else:
                check(t is not None, 'grammar has not been compiled', i)
                equal(split(t), e, 'script')
    finally: shutil.rmtree(d)
