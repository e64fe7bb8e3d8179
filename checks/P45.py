"""P45: batch-processing yields the same results as processing one by one."""
import importlib
import os
import shutil
import sys
import tempfile
import threading

from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises

RULE = ('random sets of documents of a small language (correct, with syntax-, transformation- and compilation-errors, with crashing compilation, includes, '
        'empty, unreadable and missing documents) processed by a generated parser-script in batch (sequentially, with threads, with processes, with a '
        'submit-function) and one by one; all files in the output directory and the return value are compared; non-trivial: at least two '
        'documents at least one of which has errors')
ASSUMPTIONS = ['documents have different names (directory and extension put aside), because the output-files are named after them',
               'messages of documents are compared with those of the same document, processed alone in a fresh thread']

GRAMMAR = r'''@ whitespace = /\s*/
@ literalws = right
@ disposable = statement, EOF
@ drop = whitespace, strings, EOF
@ value_resume = /;\s*/
@ block_error = '', "unterminated block: {1}"
root = ~ { statement } EOF
statement = assignment | block | note
assignment = name "=" §value ";"
value = number | name | "(" §value { "," §value } ")"
block = "<" tag ">" { statement } §"</" ::tag ">"
tag = /\w+/~
note = "[" /[^\]]*/ §"]"
name = /[^\W\d]\w*/~
number = /\d+/~
EOF = !/./
'''
COMPILER = '''
class LangCompiler(Compiler):
    def __init__(self):
        super().__init__()
        self.forbid_returning_None = False
    def reset(self):
        super().reset()
        self.names = {}
        self.depth = 0
    def on_root(self, node):
        node = self.fallback_compiler(node)
        node.attr['names'] = ' '.join(self.names)
        return node
    def on_block(self, node):
        self.depth += 1
        node = self.fallback_compiler(node)
        self.depth -= 1
        node.attr['depth'] = str(self.depth)
        return node
    def on_assignment(self, node):
        node = self.fallback_compiler(node)
        name = node.pick('name').content
        if name == 'crash': raise ValueError('crash of the compiler')
        if name == 'fatal': self.tree.new_error(node, 'fatal', ErrorCode(10900))
        if name == 'warn': self.tree.new_error(node, 'warning', ErrorCode(150))
        if name in self.names: self.tree.new_error(node, 'duplicate: ' + name, ErrorCode(2000))
        self.names[name] = True
        return node

compiling: Junction = create_junction(LangCompiler, "AST", "Lang")
get_compiler = compiling.factory

class Counter(Compiler):
    def reset(self):
        super().reset()
        self.n = 0
    def on_name(self, node):
        self.n += 1
        if node.content == 'oops': self.tree.new_error(node, 'oops', ErrorCode(1500))
        return node
    def on_root(self, node):
        self.fallback_compiler(node)
        return '%i names: %s' % (self.n, node.content)

counting: Junction = create_junction(Counter, "Lang", "count")
'''
AST = '''
Lang_AST_transformation_table = {
    "value": [replace_by_single_child],
    "note": [add_error("note", ErrorCode(160))],
}
ASTTransformation: Junction = create_junction(Lang_AST_transformation_table, "CST", "AST")
get_transformer = ASTTransformation.factory
'''

MODULE = []


def language():
    """Generates and imports the parser script; returns the module (once per process)."""
    if not MODULE:
        from DHParser.dsl import recompile_grammar, split_source
        import atexit
        d = tempfile.mkdtemp()
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        with open(os.path.join(d, 'Lang.ebnf'), 'w', encoding='utf-8') as f: f.write(GRAMMAR)
        check(recompile_grammar(os.path.join(d, 'Lang.ebnf')), 'grammar of the check')
        path = os.path.join(d, 'LangParser.py')
        with open(path, encoding='utf-8') as f: text = f.read()
        secs = split_source(path, text)
        for i, new in ((4, AST), (5, COMPILER)): text = text.replace(secs[i], new)
        text = text.replace('RE_INCLUDE = NEVER_MATCH_PATTERN', "RE_INCLUDE = r'\\\\input\\{(?P<name>[^}]*)\\}'")
        text = text.replace('junctions = set([ASTTransformation, compiling])', 'junctions = set([ASTTransformation, compiling, counting])')
        text = text.replace('targets = end_points(junctions)', "targets = set(['AST', 'Lang', 'count'])")
        with open(path, 'w', encoding='utf-8') as f: f.write(text)
        sys.path.insert(0, d)
        MODULE.append(importlib.import_module('LangParser'))
    return MODULE[0]


NAMES = ['a', 'b', 'ä', 'x1', 'crash', 'warn', 'fatal', 'oops', 'a', 'b', 'c', 'd']
value = st.recursive(st.one_of(st.sampled_from(NAMES), st.integers(0, 99).map(str)), lambda s: st.lists(s, min_size=1, max_size=3).map(lambda l: '(' + ', '.join(l) + ')'), max_leaves=5)
assignment = st.tuples(st.sampled_from(['a', 'b', 'c', 'd', 'e', 'f', 'g', 'ä', 'x1', 'warn', 'crash', 'oops', 'fatal']), value).map(lambda t: '%s = %s;\n' % t)
damage = st.sampled_from(['a = ;\n', 'a = (1, );\n', 'a 1;', '<x> a = 1; </y>', '<x>', '= ', '%', '[note', 'b = 1', '</x>'])
include = st.sampled_from(['\\input{inc.txt}', '\\input{inc.txt}', '\\input{self.txt}', '\\input{missing.txt}', '\\input{bad.txt}'])
statement = st.recursive(st.one_of(assignment, assignment, assignment, assignment, assignment, assignment, st.just('[note]'), st.just('[ä]\n\n'), damage, include),
                         lambda s: st.tuples(st.sampled_from(['x', 'y', 'ä']), st.lists(s, max_size=3)).map(lambda t: '<%s>%s</%s>\n' % (t[0], ''.join(t[1]), t[0])), max_leaves=6)
clean = st.lists(st.integers(0, 9).flatmap(lambda n: st.sampled_from(['v%i = %i;\n' % (n, n), '<t> v%i = (%i, a); </t>' % (n + 10, n)])), min_size=1, max_size=4, unique=True).map(''.join)
document = st.one_of(clean, st.lists(statement, min_size=1, max_size=5).map(''.join), st.lists(statement, min_size=1, max_size=5).map(''.join), st.sampled_from(['', '\n', 'x', '\ufeffa = 1;\n', 'a = 1;\r\nb = 2;\r\n']))
kind = st.sampled_from(['text', 'text', 'text', 'text', 'text', 'text', 'text', 'text', 'missing', 'latin-1', 'directory'])
doc = st.tuples(st.sampled_from(['a', 'b', 'c', 'doc', 'x.y', 'x.z', 'ä', 'with blank', 'A', 'x_ERRORS', 'count', 'Lang']), st.sampled_from(['.dsl', '.txt', '', '.xml']), document, kind)
docs = st.lists(doc, min_size=1, max_size=6, unique_by=lambda d: os.path.splitext(d[0] + d[1])[0])


def snapshot(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs: out[os.path.relpath(os.path.join(base, x), d) + '/'] = None
        for x in files:
            with open(os.path.join(base, x), encoding='utf-8') as f: out[os.path.relpath(os.path.join(base, x), d)] = f.read()
    return out


def in_thread(fn):
    """Calls fn in a new thread, so that there are no parser- and compiler-objects that have been used before."""
    out = []

    def run():
        try: out.append((True, fn()))
        except BaseException as e: out.append((False, e))
    t = threading.Thread(target=run)
    t.start()
    t.join()
    ok, res = out[0]
    if not ok: raise res
    return res


def prepare(d, documents):
    src = os.path.join(d, 'src')
    os.mkdir(src)
    with open(os.path.join(src, 'inc.txt'), 'w', encoding='utf-8') as f: f.write('included = 1;\n')
    with open(os.path.join(src, 'bad.txt'), 'w', encoding='utf-8') as f: f.write('a = ;\nb = (1;')
    with open(os.path.join(src, 'self.txt'), 'w', encoding='utf-8') as f: f.write('a = 1; \\input{./self.txt}')
    names = []
    for i, (name, ext, text, k) in enumerate(documents):
        sub = src
        path = os.path.join(sub, name + ext)
        if k == 'text':
            with open(path, 'w', encoding='utf-8', newline='') as f: f.write(text)
        elif k == 'latin-1':
            with open(path, 'wb') as f: f.write(b'a = \xe4\xff;\n')
        elif k == 'directory': os.mkdir(path)
        names.append(path)
    return names


def compare(documents, order, mode, existing, ctx, serializations=None):
    from DHParser import dsl
    from DHParser.configuration import set_config_value, get_config_value
    lang = language()
    d = tempfile.mkdtemp()
    saved = {k: get_config_value(k) for k in ('batch_processing_parallelization', 'debug_parallel_execution')}
    try:
        names = prepare(d, documents)
        names = [n for _, n in sorted(zip((order * 6)[:len(names)], names))]
        alone, faulty = {}, 0
        expected = {}
        for n in names:
            out = os.path.join(d, 'alone%i' % len(alone))
            alone[n] = in_thread(lambda: lang.process_file(n, out))
            check(not alone[n] or os.path.isfile(alone[n]), 'file with the errors has not been written', alone[n])
            snap = snapshot(out)
            check(not (set(snap) & set(expected)) - {k for k in snap if k.endswith('/')}, 'documents have written the same file', sorted(snap))
            expected.update(snap)
            faulty += bool(alone[n])
            alone[n] = alone[n] and os.path.relpath(alone[n], out)
        ctx.nontrivial(len(names) > 1 and faulty > 0)
        out = os.path.join(d, 'out')
        if existing: os.mkdir(out)
        logged = []
        kw = {}
        if mode == 'sequential': set_config_value('batch_processing_parallelization', False)
        elif mode in ('multithreading', 'singlethread', 'multicore'): set_config_value('debug_parallel_execution', mode)
        elif mode == 'submit':
            import concurrent.futures
            pool = concurrent.futures.ThreadPoolExecutor(3)

            def submit(fn, *args): return pool.submit(fn, *args)
            kw['submit_func'] = submit
        errors = lang.batch_process(list(names), out, log_func=logged.append, **kw)
        if mode == 'submit': pool.shutdown()
        equal([os.path.relpath(e, out) for e in errors], [alone[n] for n in names if alone[n]], 'error-files', mode=mode)
        equal(len(logged), len(names), 'number of log-messages', logged)
        for n, l in zip(names, logged): check(os.path.basename(n) in l and (' with ' in l) == bool(alone[n]), 'log', l, alone[n])
        got = snapshot(out)
        if mode != 'submit' or names: equal(sorted(got), sorted(expected), 'files in the output directory', mode=mode)
        for k in expected: equal(got[k], expected[k], 'content of the output', k, mode=mode)
        # again, on top of the former output
        errors = lang.batch_process(list(names), out, **kw) if mode in ('sequential', 'singlethread') else errors
        equal(snapshot(out), got, 'output of the second run')
    finally:
        for k, v in saved.items(): set_config_value(k, v)
        shutil.rmtree(d)


@prop(lambda: st.tuples(docs, st.lists(st.integers(0, 9), min_size=1, max_size=6), st.sampled_from(['sequential', 'singlethread', 'multithreading', 'multithreading', 'submit']), st.booleans()), quick=350, shards=6)
def batches(case, ctx):
    documents, order, mode, existing = case
    ctx.label(mode)
    compare(documents, order, mode, existing, ctx)


@prop(lambda: st.tuples(docs, st.lists(st.integers(0, 9), min_size=1, max_size=6), st.booleans()), quick=60, shards=2)
def multicore(case, ctx):
    documents, order, existing = case
    compare(documents, order, 'multicore', existing, ctx)


@prop(lambda: st.tuples(docs, st.dictionaries(st.sampled_from(['*', 'AST', 'Lang', 'CST']), st.lists(st.sampled_from(['sxpr', 'XML', 'json', 'S-expression', 'indented', 'default', 'ndst', 'SXML']), min_size=1, max_size=3), max_size=3),
                        st.sets(st.sampled_from(['CST', 'AST', 'Lang', 'count']), min_size=1)), quick=300, shards=3)
def files(case, ctx):
    """The files contain what the pipeline yields in memory."""
    from DHParser import dsl
    from DHParser.dsl import process_file
    from DHParser.error import has_errors, ERROR, canonical_error_strings
    from DHParser.nodetree import Node
    lang = language()
    documents, serializations, targets = case
    d = tempfile.mkdtemp()
    try:
        names = prepare(d, [x for x in documents if x[3] == 'text'])
        ctx.nontrivial(len(names) > 0 and len(targets) > 1)
        out = os.path.join(d, 'out')
        for n in names:
            expected = {}
            try: res = in_thread(lambda: lang.pipeline(n, set(targets)))
            except (OSError, ValueError): continue   # included file is missing or includes itself
            stem = os.path.splitext(os.path.basename(n))[0]
            errors = {}
            for t in (targets if targets <= set(res) else res):
                if t not in res: continue
                for e in res[t][1]: errors[str(e)] = e
            for t in targets & set(res):
                tree = res[t][0]
                expected[t + '/'] = None
                if isinstance(tree, Node):
                    for s in serializations.get(t, serializations.get('*', ['sxpr'])):
                        s = {'default': 'sxpr', 's-expression': 'sxpr', 'indented': 'tree'}.get(s.lower(), s.lower())
                        expected[os.path.join(t, '%s.%s.%s' % (stem, t, s))] = tree.serialize(s)
                else: expected[os.path.join(t, stem + '.' + t)] = str(tree)
            fname = in_thread(lambda: process_file(n, out, lang.preprocessing.factory, lang.parsing.factory, lang.junctions, set(targets), serializations))
            if errors:
                serious = any(e.code >= 1000 for e in errors.values())
                equal(os.path.relpath(fname, out), stem + ('_ERRORS.txt' if serious else '_WARNINGS.txt'), 'name of the error-file')
                with open(fname, encoding='utf-8') as f: lines = f.read()
                left = lines
                for e in errors:
                    check(e in left, 'error-message is missing', e, lines)
                    left = left.replace(e, '', 1)
                equal(left.strip(), '', 'unexpected messages')
                expected[stem + ('_ERRORS.txt' if serious else '_WARNINGS.txt')] = lines
            else: equal(fname, '', 'error-file of a correct document')
            equal(snapshot(out), expected, 'written files')
            shutil.rmtree(out)
    finally: shutil.rmtree(d)
