"""P35: processing pipelines give each target the result of its own chain of stages."""
import copy
import itertools

from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises

RULE = ('random trees of stages (functions, compilers and transformation tables that change the tree in place, report errors of every '
        'severity, return data or None, or crash) and random sets of targets, against applying the stages on the path one after the other '
        'to a fresh copy; non-trivial: at least two stages are run')
ASSUMPTIONS = ['a fatal error ends the pipeline: targets on other branches that have not been reached, yet, may be missing',
               'only stages that are not the source of other stages yield anything else than the tree they have been passed']

NAMES = ['AST', 'X', 'Y', 'b', 'LST', 'html', 'Z', 'data']
CODE = {'notice': 50, 'warning': 200, 'error': 1200, 'fatal': 10000}
KINDS = ['ok', 'ok', 'ok', 'notice', 'warning', 'error', 'error', 'fatal', 'crash', 'none']
stage = st.tuples(st.integers(0, 7), st.sampled_from(KINDS[:7] * 3 + KINDS), st.sampled_from(['func', 'setstage', 'compiler', 'table', 'partial']),
                  st.integers(0, 3), st.booleans())


class Crash(Exception):
    pass


def network(stages):
    """list of (src, dst, n, kind, style, where, data) in the order of dependence; stage 0 is the CST."""
    out = []
    for n, (parent, kind, style, where, data) in enumerate(stages):
        out.append([(['CST'] + NAMES)[parent % (n + 1)], NAMES[n], n, kind, style, where, data])
    srcs = {s[0] for s in out}
    for s in out:
        if s[1] in srcs: s[6] = False
    return out


def make_junction(src, dst, n, kind, style, where, data, log):
    from DHParser.pipeline import Junction, create_junction
    from DHParser.compile import Compiler
    from DHParser.nodetree import Node
    from DHParser.error import ErrorCode
    from DHParser.transform import transformer

    def work(tree):
        log.append(dst)
        nodes = [nd for nd in tree.walk_tree(include_root=True)]
        nd = nodes[where % len(nodes)]
        tree.attr[dst] = str(len(tree.attr))
        tree.result = tree.children + (Node(dst, 'x' * n).with_pos(len(tree.source)),)
        nd.name = nd.name + str(n)
        if kind in CODE: tree.new_error(nd, 'm' + dst, ErrorCode(CODE[kind] + n))
        if kind == 'crash': raise Crash(dst)
    if style == 'table':
        def factory():
            def run(tree):
                transformer(tree, {'*': []}, src_stage=src, dst_stage=dst)
                work(tree)
                return tree.as_sxpr() if data else None if kind == 'none' else tree
            return run
        return Junction(src, factory, dst)
    if style == 'compiler':
        class C(Compiler):
            def __init__(self):
                super().__init__()
                self.forbid_returning_None = False

            def compile(self, node, *args):
                if node is self.tree: work(self.tree)
                return None if kind == 'none' else super().compile(node, *args)

            def finalize(self, result):
                return None if result is None else self.tree.as_sxpr() if data else self.tree
        return create_junction(C, src, dst)

    def run(tree):
        work(tree)
        if style == 'setstage': tree.stage = dst
        return None if kind == 'none' else tree.as_sxpr() if data else tree
    if style == 'partial': return Junction(src, (lambda: run), dst)
    return Junction(src, lambda: run, dst)


def source(flawed):
    from DHParser.nodetree import RootNode, Node
    from DHParser.error import ErrorCode
    t = RootNode(Node('doc', (Node('a', 'one'), Node('b', 'two\n'), Node('c', 'three'))), 'onetwo\nthree')
    t.with_pos(0)
    t.stage = 'CST'
    if flawed: t.new_error(t.children[1], 'flaw', ErrorCode(999 + flawed))
    return t


def msgs(errors): return [(e.pos, int(e.code), e.message.split(':')[0] if e.code != 10100 else '') for e in errors]


def value(x):
    from DHParser.nodetree import Node
    return ('tree', x.as_sxpr(flatten_threshold=0)) if isinstance(x, Node) else ('data', x)


def sequential(net, target, flawed, junction_of):
    """Runs the stages on the path one after the other on a fresh tree; returns (value, errors, fatal stage or None)."""
    path, by_dst = [], {s[1]: s for s in net}
    t = target
    while t != 'CST':
        path.append(by_dst[t])
        t = by_dst[t][0]
    tree = source(flawed)
    result, codes, where = tree, [e for e in tree.errors], None
    for s in reversed(path):
        if result is None: break
        run = junction_of[s[1]].factory()
        faulty = any(e.code >= 1000 for e in tree.errors)
        try:
            result = run(tree)
        except Crash:
            if not faulty: return 'crash', s[1], s[1]
            return None, [m for m in msgs(tree.errors_sorted)] + ['crash'], s[1]
        if any(e.code >= 10000 for e in tree.errors): return value(result) if s[1] == target else None, msgs(tree.errors_sorted), s[1]
        tree.stage = s[1]
    return value(result), msgs(tree.errors_sorted), None


def needed(net, targets):
    by_dst, out = {s[1]: s[0] for s in net}, set()
    for t in targets:
        while t != 'CST':
            out.add(t)
            t = by_dst[t]
    return out


def spelling(name, k): return name.lower() if k and name in ('AST', 'CST') else name


@prop(lambda: st.tuples(st.lists(stage, min_size=1, max_size=8), st.sets(st.integers(0, 8), min_size=1, max_size=5), st.sampled_from([0, 0, 0, 1, 2]),
                        st.integers(0, 10 ** 6), st.sampled_from([False, False, True])), quick=1600, shards=4)
def pipelines(case, ctx):
    from DHParser.pipeline import run_pipeline, Junction
    stages, targets, flawed, order, lower = case
    flawed = [0, 0 + 1, 201][flawed]   # 999 + 1: an error; 999 + 201: an error
    net = network(stages)
    all_names = ['CST'] + [s[1] for s in net]
    targets = sorted({all_names[t % len(all_names)] for t in targets})
    log = []
    jl = {s[1]: make_junction(*s, log) for s in net}
    junctions = list(jl.values())
    import random
    random.Random(order).shuffle(junctions)
    req = needed(net, targets)
    expected = {t: sequential(net, t, flawed, jl) for t in targets}
    log.clear()
    ctx.nontrivial(len(req) > 1)
    ctx.label('stages: %i' % len(req))
    if any(s[3] == 'none' and s[4] == 'table' for s in net): pass
    fatal = {st_ for t in req for st_ in [sequential(net, t, flawed, jl)[2]] if st_}
    crashes = {t for t in req if sequential(net, t, flawed, jl)[0] == 'crash'}
    log.clear()
    given = [Junction(spelling(j.src, lower), j.factory, spelling(j.dst, lower)) for j in junctions] if not any(s[4] == 'setstage' for s in net) else junctions
    try:
        res = run_pipeline(given if order % 2 else set(given), {spelling('CST', lower): source(flawed)}, {spelling(t, lower) for t in targets})
    except Crash as e:
        check(crashes, 'a crash although earlier errors had been reported', e)
        ctx.label('crash')
        return
    if crashes and not fatal - crashes: check(False, 'crash has been swallowed', crashes)
    equal(len(log), len(set(log)), 'a stage has been run more than once', log=log)
    check(set(log) <= req, 'stages have been run that are not needed', set(log) - req)
    if not fatal:
        missing = [t for t in targets if t not in res]
        check(not missing, 'targets are missing', missing, targets=targets)
    else:
        ctx.label('fatal')
        check(any(f in res for f in fatal), 'fatal stage is not among the results', fatal, list(res))
    for t in targets:
        if t not in res: continue
        exp, errs, where = expected[t]
        if where is not None and where != t:
            check(False, 'target beyond a fatal error', t, where)
        if where is not None and errs and errs[-1] == 'crash':
            equal(res[t][0], None, 'result of a crashed stage')
            got = msgs(res[t][1])
            check(any(m[1] == 10100 for m in got), 'crash is not reported', got)
            equal([m for m in got if m[1] != 10100], errs[:-1], 'errors of', t)
            continue
        equal(value(res[t][0]), exp, 'result of', t, targets=targets)
        equal(msgs(res[t][1]), errs, 'errors of', t)


@prop(lambda: st.tuples(st.lists(stage, min_size=1, max_size=7), st.integers(0, 10 ** 6), st.integers(0, 7), st.integers(0, 7)), quick=800, shards=2)
def paths(case, ctx):
    """Helper functions that analyse the network."""
    from DHParser.pipeline import end_points, connection, as_paths, as_graph, Junction, run_pipeline
    import random
    stages, order, a, b = case
    net = network(stages)
    js = [Junction(s[0], (lambda n=s[2]: n), s[1]) for s in net]
    random.Random(order).shuffle(js)
    ctx.nontrivial(len(net) > 2)
    by_dst = {s[1]: s[0] for s in net}

    def path(t):
        p = [t]
        while t in by_dst:
            t = by_dst[t]
            p.append(t)
        return p[::-1]
    ends = {s[1] for s in net} - {s[0] for s in net}
    equal(end_points(js), ends, 'end_points')
    equal(end_points([tuple(j) for j in js]), ends, 'end_points of triples')
    equal(as_paths(set(js)), {e: path(e) for e in ends}, 'as_paths')
    names = ['CST'] + [s[1] for s in net]
    target, origin = names[a % len(names)], names[b % len(names)]
    if origin in path(target):
        p = path(target)[path(target).index(origin):]
        got = connection(js, target, origin)
        equal([(j.src, j.dst) for j in got], list(zip(p, p[1:])), 'connection')
        equal(js and sorted(j.dst for j in js), sorted(s[1] for s in net), 'junctions have been changed')
    else:
        raises(lambda: connection(js, target, origin), ValueError)

    def graph(t):
        kids = [graph(s[1]) for s in net if s[0] == t]
        kids.sort(key=lambda g: (g[2], g[0]))
        return (t, kids, max([k[2] for k in kids], default=0) + 1)

    def plain(g): return (g.src, [plain(x) for x in g.desc], g.depth)
    equal(plain(as_graph(js)), graph('CST'), 'as_graph')
    lines = str(as_graph(js)).split('\n')
    equal(sorted(l.strip() for l in lines), sorted(names), 'lines of the graph')
    raises(lambda: as_graph(js + [Junction('other', None, 'stage')]), ValueError)
    e = raises(lambda: run_pipeline(set(js), {'CST': source(0)}, {'nowhere'}), AssertionError, ValueError)
    check('nowhere' in str(e), 'message does not name the target', e)


GRAMMAR = '''@ whitespace = /\\s*/
@ literalws = right
@ drop = whitespace, strings
doc = { item "," } EOF
item = word [ "=" §num ]
word = /[a-z]+/~
num = /[0-9]+/~
EOF = !/./
'''
_gr = []


def grammar():
    if not _gr:
        from lib.dh import compile_grammar
        g, m = compile_grammar(GRAMMAR)
        assert g, m
        _gr.append(g)
    return _gr[0]


texts = st.lists(st.sampled_from(['a,', 'ab = 1,', 'x=2 ,', 'b ,\n', 'c', '= 3', 'd=,', '\n', ',']), max_size=6).map(''.join)


@prop(lambda: st.tuples(texts, st.lists(stage, min_size=1, max_size=5), st.sets(st.integers(1, 5), min_size=1, max_size=3), st.sampled_from(['no', 'warning', 'error', 'fatal']),
                        st.one_of(st.none(), st.integers(0, 12))), quick=1000, shards=4)
def full(case, ctx):
    """full_pipeline() against compile_source() and the stages one after the other; cancelling."""
    from DHParser.pipeline import full_pipeline, create_preprocess_junction
    from DHParser.compile import compile_source
    from DHParser.preprocess import Tokenizer
    from DHParser.error import Error, ErrorCode, CANCELED
    text, stages, targets, pre, cancel_at = case
    stages = [(p, k if k not in ('crash',) else 'ok', s, w, d) for p, k, s, w, d in stages]
    net = network(stages)
    targets = sorted({net[(t - 1) % len(net)][1] for t in targets})
    log = []
    jl = {s[1]: make_junction(*s, log) for s in net}
    text += '\n'

    def tokenizer(t): return t, ([Error('pre', 1, ErrorCode(CODE[pre] + 50))] if pre in CODE else [])
    prep_factory = create_preprocess_junction(tokenizer, r'#include\((?P<name>\w+)\)', r'//.*', func_type=Tokenizer).factory
    polls = [0, False]

    def cancel():
        polls[0] += 1
        if polls[0] > cancel_at: polls[1] = True
        return polls[1]
    kw = {} if cancel_at is None else {'cancel_query': cancel}
    gr = grammar()

    def cst():
        return compile_source(text, prep_factory(), gr)
    expected = {}
    for t in targets:
        tree, errors, _ = cst()
        if tree is None:
            expected[t] = (None, msgs(errors))
            continue
        result, path, cur = tree, [], t
        while cur != 'CST':
            path.append(cur)
            cur = next(s[0] for s in net if s[1] == cur)
        reached = True
        for s in reversed(path):
            if result is None: break
            if any(e.code >= 10000 for e in tree.errors):
                reached = False
                break
            result = jl[s].factory()(tree)
            tree.stage = s
        expected[t] = (value(result), msgs(tree.errors_sorted)) if reached else None
    log.clear()
    try: res = full_pipeline(text, prep_factory, lambda: gr, set(jl.values()), set(targets), **kw)
    finally: gr.cancel_query__ = None
    ctx.nontrivial(len(net) > 1)
    if polls[1]:
        ctx.label('cancelled')
        check(any(e.code == CANCELED for t in res for e in res[t][1]), 'cancellation is not reported', {t: msgs(res[t][1]) for t in res})
        return
    fatal = any(e is None or any(m[1] >= 10000 for m in e[1]) for e in expected.values())
    ctx.label('fatal' if fatal else 'ok')
    if not fatal: equal(sorted(t for t in targets if t in res), targets, 'targets')
    if pre == 'fatal':
        equal(sorted(res), targets, 'targets')
        check(not log, 'stages have been run in spite of a fatal error', log)
    for t in targets:
        if t in res:
            check(expected[t] is not None, 'target beyond a fatal error', t)
            equal((value(res[t][0]) if expected[t][0] is not None else res[t][0], msgs(res[t][1])), expected[t], 'result of', t)
