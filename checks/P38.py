"""P38: grammar tests report a case as passed exactly if it behaves as specified."""
import json
import os
import shutil
import tempfile

from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import peg, gen

RULE = ('random test-units: cases with names, kinds and texts, written to ini- and json-files in different ways of quoting, indentation, comments and '
        'sectioning; random grammars with matching and non-matching texts, expected trees and results of later stages that are correct or have been '
        'mutated; verdicts are compared with those of the parser called directly; non-trivial: passing and failing cases in one unit (reading: '
        'a text that spans several lines or contains quotes)')
ASSUMPTIONS = ['blanks at the end of the text are tolerated in match-tests, and only there', 'tabs in ini-files are read as four blanks',
               'test_suppress_lookahead_failures is turned off if the grammar contains lookaheads', 'an empty string as expected tree is no expectation']

word = st.sampled_from(['M1', 'a', 'b2', 'ä', 'x.y', '10', 'match', 'fail', 'AST', 'Z_9', '1', '2', '3', '4', '5', '6'])
line = st.one_of(st.text(alphabet='ab "\'\\#;[]:=x€{}%<&(', max_size=8), st.sampled_from(['[match:a]', '# no comment', 'M1: "x"', '    indented', '  two', '', '', ' ', '"', "'", '(a (b "x"))', '<a>x</a>', '""', "''", ';', 'tail  ']))
test_text = st.lists(line, min_size=1, max_size=4).map('\n'.join)
symbol = st.sampled_from(['a', 'b', 'word', 'ä1', 'match', 'root_x'])
style = st.tuples(st.integers(0, 5), st.sampled_from([': ', ':', ' = ', '=', ':\n    ', ' : ']), st.sampled_from(['\n', '\n\n', '\n# comment\n', '\n; "comment\n\n', '\n   # comment: "\n', '\n#\n#[fail:x]\n']), st.booleans())
units = st.lists(st.tuples(symbol, st.sampled_from(['match', 'match', 'fail']), st.lists(st.tuples(word, test_text, style), max_size=4)), min_size=1, max_size=4)


def quote(text, style):
    """The text as value in a config-file or None if it cannot be written in this way."""
    n, sep, _, bare = style
    q = ('"', "'", '"""', "'''", '', '"')[n]
    if q == '':
        if not text.isalnum(): return None
        return text
    if len(q) == 1: return None if q in text or '\n' in text else q + text + q
    if q in text or text.endswith(q[0]): return None
    lines = text.split('\n')
    lines[1:] = [l if bare and not l and i < len(lines) - 2 else '    ' + l for i, l in enumerate(lines[1:])]
    return q + '\n'.join(lines) + q


def config(unit, head=''):
    out, expected = [head], {}
    names = set()
    for sym, kind, cases in unit:
        out.append('[%s:%s]\n' % (kind, sym))
        tests = expected.setdefault(sym, {}).setdefault(kind, {})
        for name, text, sty in cases:
            if (sym, name) in names: continue
            value = quote(text, sty)
            if value is None: continue
            names.add((sym, name))
            tests[name] = text
            out.append(name + sty[1] + value + sty[2])
    return ''.join(out), expected


@prop(lambda: st.tuples(units, st.sampled_from(['', '# comment\n', '\n\n', ';;\n# [match:x]\n\n'])), quick=2500, shards=3)
def reading(case, ctx):
    from DHParser.testing import unit_from_config, unit_from_json, unit_to_config, unit_from_file
    unit, head = case
    text, expected = config(unit, head)
    texts = [t for s in expected.values() for k in s.values() for t in k.values()]
    ctx.nontrivial(any(set(t) & set('\n"\'') for t in texts))
    equal(_plain(unit_from_config(text, 'x.ini')), expected, 'unit read from the config-file', text)
    equal(_plain(unit_from_json(json.dumps(expected), 'x.json')), expected, 'unit read from JSON')
    d = tempfile.mkdtemp()
    try:
        for name, content in (('t.ini', text), ('T.JSON', json.dumps(expected, ensure_ascii=False))):
            with open(os.path.join(d, name), 'w', encoding='utf-8') as f: f.write(content)
            equal(_plain(unit_from_file(os.path.join(d, name))), expected, 'unit read from file', name)
    finally: shutil.rmtree(d)
    try: again = unit_to_config(expected)
    except ValueError:
        check(any(_unquotable(t) for t in texts), 'cases that can be quoted have been refused', texts)
        return
    equal(_plain(unit_from_config(again, 'x.ini')), expected, 'unit that has been written and read again', again)


def _unquotable(t): return all(q in t for q in ('"""', "'''")) or '\n' not in t and '"' in t and "'" in t or '\n' in t and ('"' in t and "'" in t)
def _plain(unit): return {s: {k: dict(c) for k, c in t.items()} for s, t in unit.items()}


@st.composite
def suites(draw):
    kind = draw(st.sampled_from(['ws', 'ws', 'ws', 'cap']))
    if kind == 'cap':
        rules, caps, texts = draw(peg.capcases())
        src = peg.grammar_ebnf(rules, '@ literalws = none\n@ whitespace = /\\s*/\n')
    else:
        rules, header, texts, _, info = draw(peg.wscases(drops=True, mand=True, reduction='all', n=6))
        src = peg.grammar_ebnf(rules, header)
    names = tuple(n for n, e in rules)
    cases = draw(st.lists(st.tuples(st.integers(0, 5).map(lambda n: names[n % len(names)] if n > 2 else names[0]), st.sampled_from(['match', 'match', 'fail']), st.sampled_from(list(texts) + ['', 'a', 'ab\nx', ' a']),
                                    st.sampled_from(['', 'AST', 'AST', 'CST', 'Up', 'Tree', 'AST+Up', 'CST+AST']), st.integers(0, 5), st.integers(0, 3)), min_size=1, max_size=7))
    return src, names, tuple(cases)


LEFT_OVER = {50, 1052, 1057}


def mutate(tree, k):
    """Changes a copy of the tree."""
    import copy
    tree = copy.deepcopy(tree)
    nodes = list(tree.select_if(lambda n: True, include_root=True))
    nd = nodes[k % len(nodes)]
    if k % 3 == 0: nd.name = nd.name + 'x' if nd.name[:1] != ':' else 'named'
    elif k % 3 == 1: nd.result = nd.content + 'Q'
    elif nd.children: nd.result = nd.children[:-1]
    else: nd.result = nd.content[:-1] if nd.content else 'R'
    return tree


def upper_stage(tree): return tree.content.upper().replace('"', '_').replace("'", '_').replace('\n', '/').strip() or 'none'


def junctions():
    from DHParser.compile import Compiler, Junction
    from DHParser.dsl import create_junction

    class UpCompiler(Compiler):
        def wildcard(self, node): return upper_stage(node)
        def fallback_compiler(self, node): return upper_stage(node)

    class TreeCompiler(Compiler):
        def fallback_compiler(self, node):
            if node.children: node.result = tuple(self.fallback_compiler(c) for c in node.children)
            if node.name[:1] != ':': node.name = node.name + '_t'
            return node
    return {create_junction(UpCompiler, 'AST', 'Up'), create_junction(TreeCompiler, 'AST', 'Tree')}


def sxpr(tree, how):
    from DHParser.nodetree import Node
    tree = Node(tree.name, tree.result)    # a plain node, so that no errors and warnings will be added
    return tree.as_sxpr(compact=False, flatten_threshold=0 if how == 1 else 100) if how < 2 else tree.as_sxpr()


@prop(lambda: st.tuples(suites(), st.sampled_from(['dict', 'ini', 'json']), st.sampled_from(['', 'verbose', 'report', 'report', 'history', 'suppress', 'skip', 'prep', 'prep'])), quick=500, shards=8)
def verdicts(case, ctx):
    from lib.dh import compile_grammar, errors_only
    from DHParser.testing import grammar_unit
    from DHParser.configuration import set_config_value, get_config_value
    from DHParser.transform import transformer, replace_by_single_child
    from DHParser.nodetree import Node
    from DHParser.pipeline import run_pipeline
    import copy
    (src, names, cases), form, option = case
    gr, messages = compile_grammar(src)
    if gr is None: ctx.skip('rejected ' + str(errors_only(messages)[0].code))
    cls = gr.__class__
    look = any(c in src for c in '&!') or '<-' in src
    if look and option == 'suppress': ctx.skip('lookahead')

    def transform(tree): return transformer(tree, {'*': [replace_by_single_child]}, src_stage='CST', dst_stage='AST')
    js = junctions()
    unit, good, bad = {}, set(), set()
    seen = set()
    for i, (sym, kind, text, expect, what, k) in enumerate(cases):
        if kind == 'fail': expect = ''
        star = '*' if k == 3 and kind == 'match' else ''
        name = '%s%i' % (kind[0].upper(), i)
        if form == 'ini' and not any(quote(text, (n, '', '', False)) for n in (0, 1, 2, 3)): continue
        if form != 'dict' and ('\t' in text or '\r' in text): continue
        tests = unit.setdefault(sym, {})
        tests.setdefault(kind, {})[name + star] = text
        source = swap(text) if option == 'prep' else text
        cst = cls()(source, sym) if kind == 'match' else cls()(source, sym, complete_match=True)
        codes = {int(e.code) for e in cst.errors}
        # captures that are left over by other symbols than the root-symbol are tolerated by default
        failed = any(c >= 1000 for c in codes - (LEFT_OVER if option == 'suppress' and codes <= LEFT_OVER else set()))
        ok = failed == (kind == 'fail')
        if kind == 'match':
            ast = transform(copy.deepcopy(cst))
            done = run_pipeline(js, {'AST': copy.deepcopy(ast)}, {'Up', 'Tree'})
            results = {'CST': cst, 'AST': ast, 'Up': done['Up'][0], 'Tree': done['Tree'][0]}
            for stage in expect.split('+') if expect else []:
                actual = results[stage]
                flat = isinstance(actual, Node) and what == 5 and k == 0 and stage != 'Tree'
                if flat and (not actual.content or '\n' in actual.content or '"' in actual.content or actual.content[:1] in '(<{' or '\\' in actual.content): continue
                wrong = what % 2
                if not isinstance(actual, Node): value = actual + 'Q' if wrong else actual
                elif flat: value = actual.content + 'Q' if wrong else actual.content
                else:
                    tree = mutate(actual, what + 6 * k) if wrong else actual
                    if wrong and _shape(tree) == _shape(actual): continue
                    if any(c in tree.content for c in '"\'\\`\n{}()<>') or any(n.name.startswith('ZOMBIE') for n in tree.select_if(lambda n: True, include_root=True)): continue
                    value = sxpr(tree, k % 3)
                tests.setdefault(stage, {})[name] = (value, isinstance(actual, Node) and not flat)
                if wrong: ok = False
        (good if ok else bad).add(name)
    if not good and not bad: ctx.skip('empty')
    for tests in unit.values():     # the order of sections is not significant, but the tests of later stages belong to match-tests
        if not tests.get('match') and 'match' in tests: del tests['match']
    ctx.nontrivial(bool(good) and bool(bad))
    ctx.label(form)
    d = tempfile.mkdtemp()
    saved = {k: get_config_value(k) for k in ('test_suppress_lookahead_failures', 'history_tracking', 'test_skip_preprocessor')}
    try:
        plain = {s: {k: {n: v[0] if isinstance(v, tuple) else v for n, v in c.items()} for k, c in t.items()} for s, t in unit.items()}
        target = plain
        if form == 'json':
            target = os.path.join(d, 'unit_test.json')
            with open(target, 'w', encoding='utf-8') as f: json.dump(plain, f)
        elif form == 'ini':
            target = os.path.join(d, 'unit_test.ini')
            out = []
            for s, t in unit.items():
                for k, c in t.items():
                    out.append('\n[%s:%s]\n' % (k, s))
                    for n, v in c.items():
                        if isinstance(v, tuple): v = v[0].replace('\n', '\n    ') if v[1] else '"%s"' % v[0]
                        else: v = next(q for q in (quote(v, (m, '', '', False)) for m in (0, 1, 2, 3)) if q is not None)
                        out.append('%s: %s\n' % (n, v))
            with open(target, 'w', encoding='utf-8') as f: f.write(''.join(out))
        set_config_value('test_suppress_lookahead_failures', option == 'suppress')
        set_config_value('history_tracking', option == 'history')
        set_config_value('test_skip_preprocessor', option == 'skip')
        parser = cls()
        report = os.path.join(d, 'REPORT') if option == 'report' else ''
        kw = dict(preprocessor_factory=lambda: _no_preprocessor) if option == 'skip' else dict(preprocessor_factory=lambda: _swapping) if option == 'prep' else {}
        errata = grammar_unit(target, lambda: parser, lambda: transform, report=report, verbose=option == 'verbose', junctions=js, show={'Up'} if option == 'report' else set(), **kw)
        reported = {n for n in good | bad if any('"%s"' % n in e or '"%s*"' % n in e or '-test %s ' % n in e or '-test %s* ' % n in e for e in errata)}
        equal(sorted(reported), sorted(bad), 'failed tests', errata=errata)
        check(bool(errata) == bool(bad), 'errors that do not belong to any test', errata)
        if target is plain:
            for s, t in plain.items():
                mine = {n.strip('*') for k in ('match', 'fail') for n in t.get(k, {})}
                equal(sorted(n.strip('*') for n in t.get('__err__', {})), sorted(mine & bad), 'recorded errors', s)
        if report:
            files = os.listdir(report)
            equal(len(files), 1, 'report')
            with open(os.path.join(report, files[0]), encoding='utf-8') as f: text = f.read()
            for s, t in unit.items():
                for kind in ('match', 'fail'):
                    for n, code in t.get(kind, {}).items():
                        i = text.find('%s-test "%s"' % (kind.capitalize(), n))
                        check(i >= 0, 'test is missing in the report', n)
                        check('    ' + '\n    '.join(code.split('\n')) in text[i:], 'text is missing in the report', n, code)
        equal({k: get_config_value(k) for k in saved}, dict(test_suppress_lookahead_failures=option == 'suppress', history_tracking=option == 'history', test_skip_preprocessor=option == 'skip'), 'configuration')
    finally:
        for k, v in saved.items(): set_config_value(k, v)
        shutil.rmtree(d)


def swap(text): return text.translate({97: 98, 98: 97})


def _swapping(text, name):
    from DHParser.preprocess import PreprocessorResult, gen_neutral_srcmap_func
    return PreprocessorResult(text, swap(text), gen_neutral_srcmap_func(text, name), [])


@prop(lambda: st.tuples(st.lists(st.tuples(st.sampled_from(['a_test', 'test_b', 'c', 'xtest', 'd']), st.sampled_from(['.ini', '.json']),
                                           st.lists(st.tuples(st.sampled_from(['match', 'fail']), st.sampled_from(['ab', 'b', '', 'aab', ' ab', 'ab\nab']), st.sampled_from(['root', 'ab', 'root', 'none'])), max_size=4)),
                                 min_size=1, max_size=5, unique_by=lambda t: t[0] + t[1]), st.sampled_from(['*test*', ('*test*',), ['*_test*', 'test_*'], ('*.ini',), '*.json', 'test_*']), st.booleans()), quick=250, shards=2)
def suite(case, ctx):
    """All test-files of a directory that fit the pattern."""
    import fnmatch
    from lib.dh import compile_grammar
    from DHParser.testing import grammar_suite
    from DHParser.configuration import set_config_value
    files, patterns, parallel = case
    gr, _ = compile_grammar('@ whitespace = horizontal\nroot = { ab }+\nab = ~ { `a` } `b`\n')
    parser = gr.__class__()
    chosen = [f for f in files if any(fnmatch.fnmatch(f[0] + f[1], p) for p in ([patterns] if isinstance(patterns, str) else patterns))]
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    wrong = []
    try:
        for i, (name, ext, cases) in enumerate(files):
            unit = {}
            for k, (kind, text, sym) in enumerate(cases):
                test = '%s%i_%i' % (kind[0], i, k)
                unit.setdefault(sym, {}).setdefault(kind, {})[test] = text
                matches = sym == 'root' and text in ('ab', 'b', 'aab', ' ab') or sym == 'ab' and text in ('ab', 'b', 'aab', ' ab')
                if (sym == 'none' or matches != (kind == 'match')) and files[i] in chosen: wrong.append((name + ext, test))
            with open(os.path.join(d, name + ext), 'w', encoding='utf-8') as f:
                if ext == '.json': json.dump(unit, f)
                else: f.write(''.join('[%s:%s]\n' % (k, s) + ''.join('%s: %s\n' % (n, quote(t, (2, '', '', False))) for n, t in c.items()) for s, ts in unit.items() for k, c in ts.items()))
        ctx.nontrivial(len(chosen) > 1 and bool(wrong))
        set_config_value('test_parallelization', False)

        def run(): return grammar_suite(d, lambda: parser, lambda: lambda tree: None, fn_patterns=patterns, report='REPORT' if parallel else '', verbose=False)
        if not chosen:
            check(raises(run, AssertionError), 'no error although there are no test-files')
            return
        res = run()
        equal(os.getcwd(), cwd, 'working directory')
        equal(bool(res), bool(wrong), 'suite', res)
        for name, test in wrong: check('"%s"' % test in res and name in res, 'failed test has not been reported', test, res)
        for i, (name, ext, cases) in enumerate(files):
            for k, (kind, text, sym) in enumerate(cases):
                test = '%s%i_%i' % (kind[0], i, k)
                if (name + ext, test) not in wrong: check('"%s"' % test not in res, 'test has been reported', test, res)
        check(not wrong or 'revealed %i error' % len(wrong) in res, 'number of errors', len(wrong), res)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def _no_preprocessor(text, name): raise AssertionError('preprocessor has been called')
def _shape(t): return t.name, tuple(_shape(c) for c in t.children) or t.content
