"""P34: compilers call the right method once per node; compile_source reports what fails."""
import os
import tempfile

from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import trees

RULE = ('random trees and random compiler classes (methods for some of the names, wildcard, attribute visitors, finalizers, methods that '
        'replace, drop, rename, collect, report errors or crash), used repeatedly, against a reference evaluation; random failures and '
        'cancellations at every stage of compile_source; non-trivial: the tree has at least three nodes resp. something fails')
ASSUMPTIONS = ['attributes are visited after the method of their node, once']

NAMES = ['a', 'b', 'c', 'doc', 'x-y', '!--', 'ns:tag', 'ä']
ANON = [':Text', ':RegExp', ':Series']
ACTIONS = ['compile', 'fallback', 'replace', 'rename', 'empty', 'none', 'value', 'collect', 'error', 'crash', 'final', 'direct']
METHOD = {'a': 'on_a', 'b': 'on_b', 'c': 'on_c', 'doc': 'on_doc', 'x-y': 'on_x2dy', '!--': 'on_212d2d', 'ns:tag': 'on_ns3atag', 'ä': 'on_ä',
          ':Text': 'on_Text__', ':RegExp': 'on_3aRegExp', ':Series': 'on_Series__'}

ctree = trees.trees(names=NAMES, anon=ANON, attr_values=st.sampled_from(['1', 'x']), attr_names=['id', 'n', 'k-1'], depth=3, width=3, size=14,
                    anon_attrs=True)
actions = st.dictionaries(st.sampled_from(NAMES + ANON), st.sampled_from(
    ['compile', 'fallback', 'fallback', 'replace', 'rename', 'empty', 'collect', 'error', 'final', 'direct'] * 3 + ['none', 'value', 'crash']),
    max_size=8)


class Crash(Exception):
    pass


def make_compiler(acts, wildcard, attrs, forbid_none, log):
    """A compiler class as a user would write it."""
    from DHParser.compile import Compiler
    from DHParser.nodetree import Node, EMPTY_NODE
    from DHParser.error import ErrorCode
    ns = {}

    def method(name, act):
        def on(self, node):
            log('on', name, node, [nd for nd in self.path])
            if act == 'compile':
                for child in node.children: self.compile(child)
                return node
            if act == 'fallback': return self.fallback_compiler(node)
            if act == 'replace': return Node('R', node.content)
            if act == 'rename':
                self.fallback_compiler(node)
                node.name = 'N'
                return node
            if act == 'empty': return EMPTY_NODE
            if act == 'none': return None
            if act == 'value': return 'val:' + node.name
            if act == 'collect': return [self.compile(child) for child in node.children] or node.content
            if act == 'error':
                self.tree.new_error(node, 'msg ' + name, ErrorCode(1000 + len(name)))
                return self.fallback_compiler(node)
            if act == 'crash': raise Crash(name)
            if act == 'final':
                self.finalizers.append((lambda *a: log('finalizer', *a), (name, node, [])))
                return self.fallback_compiler(node)
            if act == 'direct': return node
        return on
    for name, act in acts.items():
        ns[METHOD[name]] = method(name, act)
    if wildcard: ns['wildcard'] = method('*', wildcard)

    def attr(key):
        def visit(self, node, value):
            log('attr', key + '=' + value, node, [nd for nd in self.path])
            if attrs[key] == 'crash': raise AttributeError('visitor')
            if attrs[key] == 'del': del node.attr[key.replace('_', '-')]
        return visit
    for key in attrs: ns['attr_' + key] = attr(key)

    def __init__(self):
        Compiler.__init__(self)
        self.forbid_returning_None = forbid_none
    ns['__init__'] = __init__

    def prepare(self, root): log('prepare', root is self.tree, root, [])
    ns['prepare'] = prepare

    def finalize(self, result):
        log('finalize', '', self.tree, [])
        return ('final', Compiler.finalize(self, result))
    ns['finalize'] = finalize
    return type('Gen', (Compiler,), ns)


class Stop(Exception):
    pass


def reference(lit, acts, wildcard, attrs, forbid_none):
    """Returns (events, outcome) where outcome is ('final', result) or an exception name."""
    events, finals, errors = [], [], []
    counter = [0]

    def index(l):
        i = counter[0]
        counter[0] += 1
        return {'i': i, 'name': l[0], 'attr': dict(l[1]), 'res': l[2] if isinstance(l[2], str) else [index(c) for c in l[2]]}

    root = index(lit)

    def content(n): return n['res'] if isinstance(n['res'], str) else ''.join(content(c) for c in n['res'])

    def visit_attrs(n, path):
        for k, v in list(n['attr'].items()):
            key = k.replace('-', '_')
            if key in attrs:
                events.append(('attr', key + '=' + v, n['i'], path + [n['i']]))
                if attrs[key] == 'crash': raise Stop('AttributeError')
                if attrs[key] == 'del': del n['attr'][k]

    def fallback(n, path):
        if not isinstance(n['res'], str) and n['res']:
            new, changed = [], False
            for c in n['res']:
                r = compile_(c, path)
                if r is not None and not isinstance(r, dict): raise Stop('TypeError')
                changed = changed or r is not c
                if r is not None and r['name'] != ':EMPTY': new.append(r)
            if changed: n['res'] = new
        return n

    def run(n, name, act, path):
        events.append(('on', name, n['i'], path))
        kids = [] if isinstance(n['res'], str) else n['res']
        if act == 'compile':
            for c in kids: compile_(c, path)
            return n
        if act == 'fallback': return fallback(n, path)
        if act == 'replace': return {'i': -1, 'name': 'R', 'attr': {}, 'res': content(n)}
        if act == 'rename':
            fallback(n, path)
            n['name'] = 'N'
            return n
        if act == 'empty': return {'i': -2, 'name': ':EMPTY', 'attr': {}, 'res': ''}
        if act == 'none': return None
        if act == 'value': return 'val:' + n['name']
        if act == 'collect': return [compile_(c, path) for c in kids] or content(n)
        if act == 'error':
            errors.append((n['i'], 1000 + len(name)))
            return fallback(n, path)
        if act == 'crash': raise Stop('Crash')
        if act == 'final':
            finals.append(('finalizer', name, n['i'], []))
            return fallback(n, path)
        if act == 'direct': return n

    def compile_(n, path):
        p = path + [n['i']]
        if n['name'] in acts: r = run(n, n['name'], acts[n['name']], p)
        elif wildcard: r = run(n, '*', wildcard, p)
        else: r = fallback(n, p)
        visit_attrs(n, path)
        if r is None and forbid_none: raise Stop('CompilerError')
        return r
    events.append(('prepare', True, 0, []))
    try:
        r = compile_(root, [])
        events.extend(reversed(finals))
        events.append(('finalize', '', 0, []))
        return events, ('final', r), errors
    except Stop as e:
        return events, str(e), errors


def plain(r):
    from DHParser.nodetree import Node
    if isinstance(r, Node): return (r.name, tuple(r.attr.items()) if r.has_attr() else (), r._result if not r.children else tuple(plain(c) for c in r.children))
    if isinstance(r, dict): return (r['name'], tuple(r['attr'].items()), r['res'] if isinstance(r['res'], str) or not r['res'] and not r.get('kids')
                                    else tuple(plain(c) for c in r['res']))
    if isinstance(r, list): return [plain(x) for x in r]
    return r


def norm(p):
    # an empty branch and an empty leaf are the same
    if isinstance(p, tuple) and len(p) == 3: return (p[0], p[1], tuple(norm(c) for c in p[2]) if isinstance(p[2], tuple) and p[2] else (p[2] or ''))
    if isinstance(p, list): return [norm(x) for x in p] or ''
    return p


@prop(lambda: st.tuples(st.lists(ctree, min_size=1, max_size=3), actions, st.sampled_from([None, None, 'fallback', 'error', 'collect']),
                        st.dictionaries(st.sampled_from(['id', 'n', 'k_1']), st.sampled_from(['log', 'log', 'log', 'del', 'crash']), max_size=2),
                        st.booleans(), st.booleans()), quick=1200, shards=4)
def compilers(case, ctx):
    from DHParser.nodetree import RootNode, Node
    lits, acts, wildcard, attrs, forbid_none, wrap = case
    log_target = []
    state = {}

    def log(kind, what, node, path):
        ids = state['ids']
        log_target.append((kind, what, ids.get(id(node), 0 if isinstance(node, RootNode) else -9), [ids.get(id(x), 0 if isinstance(x, RootNode) else -9) for x in path]))
    comp = make_compiler(acts, wildcard, attrs, forbid_none, log)()
    for lit in lits:
        tree = trees.build(lit)
        nodes = [nd for nd in tree.walk_tree(include_root=True)]
        state['ids'] = {id(nd): i for i, nd in enumerate(nodes)}
        tree.with_pos(0)
        root = RootNode(tree) if wrap else tree
        log_target.clear()
        starts = [nd.pos for nd in nodes]
        events, outcome, errors = reference(lit, acts, wildcard, attrs, forbid_none)
        ctx.nontrivial(len(nodes) > 2)
        try:
            got = comp(root)
        except Exception as e:
            got = type(e).__name__
        ctx.label(outcome if isinstance(outcome, str) else 'result')
        equal(log_target, events, 'calls')
        if isinstance(outcome, str):
            equal(got, outcome, 'outcome')
        else:
            check(isinstance(got, tuple), 'compilation failed', got)
            equal(norm(plain(got[1])), norm(plain(outcome[1])), 'result')
            check(comp.path == [], 'path is not empty after compilation', comp.path)
        equal(sorted((e.pos, int(e.code)) for e in comp.tree.errors), sorted(set((starts[i], c) for i, c in errors)), 'errors')
        if wrap and isinstance(got, tuple): check(comp.tree is root, 'root-node of the compiler')


EVAL = ['a', 'b', 'c', 'doc', ':Text', '*']


@prop(lambda: st.tuples(ctree, st.sets(st.sampled_from(NAMES + ANON + ['*']), max_size=14), st.sampled_from(['', '', 'a', ':Text', 'c']), st.booleans()),
      quick=800, shards=2)
def evaluation(case, ctx):
    lit, table, failing, complete = case
    if complete: table = table | set(NAMES + ANON)
    log = []

    def action(name, with_path):
        def f(*args):
            path, args = ([nd.name for nd in args[0]], args[1:]) if with_path else (None, args)
            log.append((name, path))
            if name == failing: raise TypeError('fails')
            return (name, path, args)
        return f

    def ref(l, path, with_path):
        p = path + [l[0]]
        args = tuple(ref(c, p, with_path) for c in l[2]) if not isinstance(l[2], str) and l[2] else (l[2] or '',)
        key = l[0] if l[0] in table else '*' if '*' in table else None
        if key is None: raise KeyError(l[0])
        if key == failing: raise ValueError
        return (key, p if with_path else None, args)
    tree = trees.build(lit)
    for with_path in (False, True):
        log.clear()
        acts = {n: action(n, with_path) for n in table}
        try: expected = ref(lit, [], with_path)
        except (KeyError, ValueError) as e: expected = type(e).__name__
        try: got = (tree.evaluate_path if with_path else tree.evaluate)(acts)
        except (KeyError, ValueError) as e: got = type(e).__name__
        ctx.nontrivial(bool(tree.children))
        ctx.label(expected if isinstance(expected, str) else 'value')
        equal(got, expected, 'evaluation', with_path=with_path)
        if not isinstance(expected, str): equal(len(log), len(list(tree.walk_tree(include_root=True))), 'number of calls')


GRAMMAR = '''@ whitespace = /\\s*/
@ literalws = right
@ drop = whitespace, strings
doc = { item "," } EOF
item = word [ "=" §num ]
word = /[a-z]+/~
num = /[0-9]+/~
EOF = !/./
'''
_gr = []


def grammar():
    if not _gr:
        from lib.dh import compile_grammar
        g, msgs = compile_grammar(GRAMMAR)
        assert g, msgs
        _gr.append(g)
    return _gr[0]


stage = st.sampled_from(['ok', 'ok', 'ok', 'ok', 'notice', 'warning', 'error', 'fatal', 'crash'])
CODE = {'notice': 50, 'warning': 200, 'error': 1200, 'fatal': 10001}
textlist = st.lists(st.sampled_from(['a,', 'ab = 1,', 'x=2 ,', 'b ,\n', 'c', '= 3', 'd=,', '\n', ',']), max_size=6).map(''.join)


@prop(lambda: st.tuples(textlist, st.sampled_from(['none', 'ok', 'ok', 'notice', 'warning', 'error', 'fatal']), stage, stage, st.integers(0, 3), st.booleans(),
                        st.one_of(st.none(), st.none(), st.integers(0, 9), st.integers(0, 60)),
                        st.sampled_from(['text', 'text', 'text', 'bom', 'file', 'bomfile'])), quick=900, shards=4)
def compile_source_stages(case, ctx):
    from DHParser.compile import compile_source, Compiler
    from DHParser.error import Error, ErrorCode, CANCELED
    from DHParser.nodetree import RootNode
    from DHParser.preprocess import PreprocessorResult, gen_neutral_srcmap_func
    text, pre, trans, comp, where, preserve, cancel_at, how = case
    text = text and text + '\n'
    called = []
    gr = grammar()
    parsed = gr(text)
    parse_errors = [(e.pos, int(e.code)) for e in parsed.errors]

    def preprocessor(src, name):
        called.append('pre')
        errs = [Error('pre', min(1, len(src)), ErrorCode(CODE[pre]))] if pre in CODE else []
        return PreprocessorResult(src, src, gen_neutral_srcmap_func(src, name), errs)

    def pick(root):
        nodes = [nd for nd in root.walk_tree(include_root=True)]
        return nodes[where % len(nodes)]

    marks = {}

    def transformer(root):
        called.append('trans')
        root.attr['trans'] = 'yes'
        nd = pick(root)
        if trans in CODE: root.new_error(nd, 'trans', ErrorCode(CODE[trans] + 1))
        marks['trans'] = nd.pos
        if trans == 'crash': raise Crash('trans')
        marks['ast'] = plain(root)
        return root

    class Comp(Compiler):
        def finalize(self, result):
            return 'compiled'

        def wildcard(self, node):
            if not node.children or node is self.tree:
                pass
            if 'comp' not in called: called.append('comp')
            node.attr['comp'] = 'yes'
            res = self.fallback_compiler(node)
            nd = marks.setdefault('target', pick(self.tree))
            if node is nd:
                marks['comp'] = node.pos
                if comp in CODE: self.tree.new_error(node, 'comp', ErrorCode(CODE[comp] + 2))
                if comp == 'crash': raise Crash('comp')
            return res
    polls = [0, False]

    def cancel():
        polls[0] += 1
        if cancel_at is not None and polls[0] > cancel_at:
            polls[1] = True
        return polls[1]
    kw = {'cancel_query': cancel} if cancel_at is not None else {}
    exc = None
    source, path = text, ''
    if how.startswith('bom'): source = '\ufeff' + text
    if how.endswith('file'):
        fd, path = tempfile.mkstemp(suffix='.txt')
        with os.fdopen(fd, 'w', encoding='utf-8', newline='') as f: f.write(source)
        source = path
    try:
        res = compile_source(source, None if pre == 'none' else preprocessor, gr, transformer, Comp(), preserve_AST=preserve, **kw)
    except Crash as e:
        exc = str(e)
    finally:
        gr.cancel_query__ = None
        if path: os.remove(path)
    ctx.nontrivial(pre in CODE or trans != 'ok' or comp != 'ok' or bool(parse_errors) or polls[1])
    if polls[1]:
        ctx.label('cancelled')
        if exc is not None: return
        check(any(m.code == CANCELED for m in res.messages), 'cancellation is not reported', [str(m) for m in res.messages], polls=polls[0])
        check(res.result is None, 'result in spite of cancellation', res.result)
        return
    if cancel_at is not None: ctx.label('not cancelled')
    # expected course of events
    errors = [(min(1, len(text)), CODE[pre])] if pre in CODE else []
    stages = [] if pre == 'none' else ['pre']
    result, ast, crash = None, None, None
    if pre != 'fatal':
        errors += parse_errors
        stages.append('trans')
        worst = max([c for _, c in errors], default=0)
        if trans in CODE: errors.append((marks['trans'], CODE[trans] + 1))
        if trans == 'crash':
            if worst >= 1000: errors.append((0, 10300))
            else: crash = 'trans'
        if crash is None and max([c for _, c in errors], default=0) < 10000:
            if preserve: ast = marks['ast']
            stages.append('comp')
            worst = max([c for _, c in errors], default=0)
            if comp in CODE: errors.append((marks['comp'], CODE[comp] + 2))
            result = 'compiled'
            if comp == 'crash':
                result = None
                if worst >= 1000: errors.append((marks['comp'], 10100))
                else: crash = 'comp'
    equal(exc, crash, 'exception passed on')
    equal(called, stages, 'stages that have been called')
    if exc is None:
        equal([(m.pos, int(m.code)) for m in res.messages], sorted(set(errors), key=lambda e: e[0]) if len(set(e[0] for e in errors)) == len(errors)
              else [(m.pos, int(m.code)) for m in res.messages], 'messages')
        equal(sorted((m.pos, int(m.code)) for m in res.messages), sorted(set(errors)), 'messages')
        equal([m.pos for m in res.messages], sorted(m.pos for m in res.messages), 'order of the messages')
        for m in res.messages:
            line = text.count('\n', 0, m.pos) + 1
            equal((m.line, m.column), (line, m.pos - (text.rfind('\n', 0, m.pos))), 'location of the message', m.pos)
        equal(res.result, result, 'result')
        check((res.AST is not None) == (ast is not None), 'AST preserved?', preserve=preserve)
        if ast is not None: equal(plain(res.AST), ast, 'preserved AST')
