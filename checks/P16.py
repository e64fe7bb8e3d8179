"""P16: threads do not influence each other.

The interleavings are generated: a scheduler, driven by trace-functions, lets only one thread run at a time and switches threads at
pseudo-random lines of DHParser's code.  A schedule is determined by its seed."""
import random
import sys
import threading
import time

from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import peg

RULE = ('random sets of tasks (first instantiation of a grammar class and parsing, transformation with a shared table, evaluation, compilation of EBNF, pipelines '
        'with thread-local factories, serialization), each in a thread of its own with its own configuration, under generated interleavings '
        '(random thread switches at lines of DHParser); results are compared with those of the same task run alone on fresh objects; '
        'non-trivial: at least two threads and ten switches')
ASSUMPTIONS = ['thread switches take place at lines of the Python source', 'every thread works on trees of its own; presets are not changed while other threads read them']


class Scheduler:
    """Only the thread `owner` runs; it hands over to another waiting thread at pseudo-random lines.  An owner that makes no progress (because
    it waits for a lock held by another thread) loses its ownership and starts to wait as soon as it gets to the next line."""
    def __init__(self, n, seed, rate, early):
        self.rnd, self.rate, self.early = random.Random(seed), rate, early
        self.beat, self.seen = 0, {}      # lines that have been visited rarely so far (i.e. initializations of shared objects) are preferred
        self.cond, self.owner, self.waiting = threading.Condition(), None, set()
        self.switches, self.stalls = 0, 0

    def pass_on(self):
        self.owner = self.rnd.choice(sorted(self.waiting)) if self.waiting else None
        self.cond.notify_all()

    def wait(self, me):
        """To be called with self.cond held: waits for the ownership"""
        self.waiting.add(me)
        beat = self.beat
        while self.owner != me:
            if self.owner is None: self.owner = me
            elif not self.cond.wait(0.02):
                if self.beat == beat and self.owner not in self.waiting and self.owner not in (None, -1):
                    self.owner = me
                    self.stalls += 1
                beat = self.beat
        self.waiting.discard(me)

    def trace_for(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.beat += 1
                k = frame.f_code, frame.f_lineno
                self.seen[k] = n = self.seen.get(k, 0) + 1
                if self.owner != me:
                    with self.cond: self.wait(me)
                elif self.waiting and self.rnd.random() < (self.early if n <= 3 else self.rate):
                    with self.cond:
                        self.switches += 1
                        self.pass_on()
                        self.wait(me)
            return local

        def trace(frame, event, arg):
            fn = frame.f_code.co_filename
            if '/DHParser/' in fn and frame.f_globals.get('__name__') != 'DHParser.configuration': return local
            return None
        return trace

    def run(self, tasks):
        out, n = [None] * len(tasks), len(tasks)
        self.owner = -1

        def body(i):
            with self.cond: self.wait(i)
            sys.settrace(self.trace_for(i))
            try: out[i] = ('result', tasks[i]())
            except BaseException as e: out[i] = ('exception', type(e).__name__, str(e)[:300])
            finally:
                sys.settrace(None)
                with self.cond:
                    if self.owner == i: self.pass_on()
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in threads: t.start()
        while len(self.waiting) < n: time.sleep(0.001)
        with self.cond: self.pass_on()
        for t in threads: t.join(60)
        check(not any(t.is_alive() for t in threads), 'threads are blocked')
        return out


def alone(task):
    out = []

    def body():
        try: out.append(('result', task()))
        except BaseException as e: out.append(('exception', type(e).__name__, str(e)[:300]))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    return out[0]


def shape(nd): return (nd.name, nd.pos, tuple(shape(c) for c in nd.children) if nd.children else nd.content, dict(nd.attr) if nd.has_attr() else None)
def outcome(tree): return shape(tree), sorted((e.pos, int(e.code), e.message) for e in tree.errors), tree.stage


def tables():
    """Transformation- and evaluation-tables, always new."""
    from DHParser.transform import replace_by_single_child, flatten, remove_whitespace, reduce_single_child, change_name, remove_empty, add_attributes, merge_adjacent, is_anonymous
    return [{'<': [remove_whitespace], 'root, a, b': [flatten, reduce_single_child], '*': replace_by_single_child, '>>>': []},
            {'*': [merge_adjacent(is_anonymous, 'merged')], '~': remove_empty, 'a,b,c': [add_attributes({'k': 'v'}), change_name('renamed')]},
            {'<': flatten, ':Text': [], ':RegExp': [change_name('rx')], 'root': [], '*': []}]


SETTINGS = [{}, {'flatten_sxpr_threshold': 20}, {'history_tracking': True}, {'max_parser_dropouts': 1}, {'resume_notices': True}, {'flatten_sxpr_threshold': 1000, 'max_parser_dropouts': 5},
            {'syntax_variant': 'strict'}, {'optimizations': frozenset({'literal', 'lookahead', 'alternative', 'sequence'})}]
EBNF = ['root = { "a" }\n', '@ drop = strings\nroot = a | b\na = "x" root\nb = /y/~\n', 'root = undefined\n', '@ whitespace = linefeed\n@ literalws = right\nroot = word §"," root\nword = /\\w+/~\n',
        'root = "a\n', 'root ::= a*\na := "x" / "y"\n', '@ disposable = a\n@ a_skip = /x/\nroot = a { a }\na = "1" §"2" | &b "x"\nb = `x`\n', 'root = a | b\na = root "+" b\nb = /\\d/\n']


@st.composite
def setups(draw):
    kind = draw(st.sampled_from(['ws', 'ws', 'cap', 'rec']))
    if kind == 'cap':
        rules, caps, texts = draw(peg.capcases())
        src = peg.grammar_ebnf(rules, '@ literalws = none\n@ whitespace = /\\s*/\n')
    elif kind == 'ws':
        rules, header, texts, _, info = draw(peg.wscases(drops=True, mand=True, reduction='all'))
        src = peg.grammar_ebnf(rules, header)
    else:
        src = '@ literalws = none\n@ whitespace = //\nroot = a | b\na = root "+" b | root §"-" b\nb = /\\d+/ | "(" root ")"\n'
        texts = ['1+2-3', '1+(2-3', '(1)', '', '1-']
    names = [n for n, e in rules] if kind != 'rec' else ['root', 'a', 'b']
    return src, tuple(texts), tuple(names)


task = st.tuples(st.sampled_from(['parse', 'parse', 'parse', 'transform', 'transform', 'ebnf', 'pipeline', 'pipeline', 'serialize', 'evaluate', 'factory']), st.integers(0, 9), st.integers(0, len(SETTINGS) - 1))


class World:
    """The objects shared by the threads."""
    def __init__(self, pysrc):
        from lib.dh import grammar_class
        from DHParser.pipeline import create_parser_junction, create_compiler_junction, create_transtable_junction, create_evaluation_junction
        from DHParser.compile import Compiler
        from DHParser.toolkit import ThreadLocalSingletonFactory
        self.cls = grammar_class(pysrc)

        class Counting(Compiler):
            def reset(self):
                super().reset()
                self.n = 0

            def wildcard(self, node):
                self.n += 1
                node.attr['n'] = self.n
                if self.n % 3 == 0: self.tree.new_error(node, 'error %i' % self.n)
                return self.fallback_compiler(node)
        self.tables = tables()
        self.parsing = create_parser_junction(self.cls)
        self.transforming = create_transtable_junction(self.tables[0], 'CST', 'AST')
        self.compiling = create_compiler_junction(Counting, 'AST', 'Lang')
        self.actions = {'*': lambda *args: ['*'] + [str(a) for a in args], 'a': lambda *args: len(args), 'root': lambda *args: list(args)}
        self.evaluating = create_evaluation_junction(self.actions, 'AST', 'eval', False)
        self.factory = ThreadLocalSingletonFactory(dict, 'shared')


def perform(world, texts, names, what, k, settings):
    from DHParser.configuration import set_config_value, get_config_value
    for key, v in settings.items(): set_config_value(key, v)
    text = texts[k % len(texts)]
    if what == 'parse':
        gr = world.cls()
        res = [outcome(gr(t, names[(k + i) % len(names)] if k % 2 else names[0])) for i, t in enumerate(texts)]
    elif what == 'transform':
        from DHParser.transform import traverse
        from DHParser.nodetree import Node, RootNode
        res = []
        for i in range(4):
            tree = Node('root', (Node('a', (Node('b', 'x'), Node(':Text', ' y '))), Node('c', ''))).with_pos(0) if i < 2 else world.cls()(text)
            tree = RootNode(tree) if i < 2 else tree
            traverse(tree, world.tables[(k + i) % 3])
            res.append(outcome(tree))
    elif what == 'ebnf':
        from lib.dh import compile_ebnf
        res = compile_ebnf(EBNF[k % len(EBNF)])
    elif what == 'pipeline':
        from DHParser.pipeline import full_pipeline
        from DHParser.preprocess import nil_preprocessor
        res = full_pipeline('\ufeff' + text, lambda: nil_preprocessor, world.parsing.factory, {world.transforming, world.compiling}, {'Lang', 'AST'})
        res = sorted((t, outcome(r) if r is not None else None, sorted(map(str, e))) for t, (r, e) in res.items())
    elif what == 'serialize':
        tree = world.cls()(text)
        res = [tree.as_sxpr(), tree.as_json(), tree.serialize('indented'), tree.content]
    elif what == 'evaluate':
        tree = world.parsing.factory()(text)
        tree.stage = 'AST'
        res = repr(world.evaluating.factory()(tree))
    else:
        from DHParser.toolkit import ThreadLocalSingletonFactory
        own = ThreadLocalSingletonFactory(list, 'own')
        own().append(k)
        world.factory()[k] = k
        res = own() is own(), own(), world.factory(), world.factory() is world.factory()
        res = repr(res)
    for key, v in settings.items(): equal(get_config_value(key), v, 'configuration value of the thread', key)
    default = {key: get_config_value(key) for s in SETTINGS for key in s if key not in settings}
    return res, sorted(default.items(), key=str)


RATES, EARLY = st.sampled_from([0.0, 0.0005, 0.002, 0.02]), st.sampled_from([0.01, 0.05, 0.1, 0.3])


@prop(lambda: st.tuples(setups(), st.lists(task, min_size=2, max_size=4), RATES, EARLY, st.integers(0, 10 ** 6), st.booleans()), quick=45, shards=8)
def interleaved(case, ctx):
    from lib.dh import compile_ebnf
    (src, texts, names), tasks, rate, early, seed, same = case
    result = compile_ebnf(src)
    if any(c >= 1000 for p, c, m in result[1]): ctx.skip('rejected')
    if same: tasks = [tasks[0][:2] + (t[2],) for t in tasks]
    compare(ctx, result[0], texts, names, tasks, rate, early, seed)


def compare(ctx, pysrc, texts, names, tasks, rate, early, seed):
    expected = [alone(lambda t=t: perform(World(pysrc), texts, names, t[0], t[1], SETTINGS[t[2]])) for t in tasks]
    world = World(pysrc)
    scheduler = Scheduler(len(tasks), seed, rate, early)
    got = scheduler.run([lambda t=t: perform(world, texts, names, t[0], t[1], SETTINGS[t[2]]) for t in tasks])
    ctx.nontrivial(scheduler.switches >= 10)
    ctx.label('stalled' if scheduler.stalls else 'smooth')
    ctx.label('tasks:' + '+'.join(sorted({t[0] for t in tasks})))
    for t, g, e in zip(tasks, got, expected): equal(g, e, 'result', t)
    # and afterwards nothing has been left behind
    t = tasks[0]
    equal(alone(lambda: perform(world, texts, names, t[0], t[1], SETTINGS[t[2]])), expected[0], 'result in a later thread', t)


PROGRAMS = ['root = a { b }\na = "x"\nb = "y"~\n', '@ disposable = a, c\n@ drop = whitespace, strings\n@ a_skip = /y/\nroot = a { b } [c]\na = "x" §b\nb = &c "y"~ | `z`\nc = /[yz]/\n',
            'root = s\ns = s t | t\nt = "x" | "y" | "z"\n', 'root = q { b } ::q\nq = "x" | "y"\nb = !:q /./\n']
_COMPILED = {}


@prop(lambda: st.tuples(st.sampled_from(range(len(PROGRAMS))), st.lists(st.text('xyz ', max_size=6), min_size=1, max_size=3), st.sampled_from(['transform', 'transform', 'parse', 'parse', 'pipeline', 'evaluate', 'factory', 'ebnf']),
                        st.integers(0, 9), st.integers(2, 4), RATES, EARLY, st.integers(0, 10 ** 6)), quick=90, shards=8,
      rule='several threads do the same with the same shared objects, interleaved', )
def together(case, ctx):
    from lib.dh import compile_ebnf
    program, texts, what, k, n, rate, early, seed = case
    if program not in _COMPILED: _COMPILED[program] = compile_ebnf(PROGRAMS[program])[0]
    compare(ctx, _COMPILED[program], tuple(texts), ('root', 'b') if program != 2 else ('root', 's'), [(what, k, 0)] * n, rate, early, seed)


KEYS = ['flatten_sxpr_threshold', 'max_parser_dropouts', 'history_tracking', 'resume_notices', 'left_recursion']
VALUES = {'flatten_sxpr_threshold': [0, 10, 120, 999], 'max_parser_dropouts': [0, 3, 8], 'history_tracking': [True, False], 'resume_notices': [True, False], 'left_recursion': [True, False]}
steps = st.lists(st.one_of(st.tuples(st.just('set'), st.sampled_from(KEYS), st.integers(0, 9)), st.tuples(st.just('get'), st.sampled_from(KEYS)),
                           st.tuples(st.just('add'), st.sampled_from(['my.a', 'my.b']), st.integers(0, 9)), st.tuples(st.just('group'), st.sampled_from(['*', 'my.*', '*_*s', 'left_recursion'])),
                           st.tuples(st.just('reset')), st.tuples(st.just('local'), st.sampled_from('xy'), st.integers(0, 9))), min_size=1, max_size=8)


@prop(lambda: st.tuples(st.lists(steps, min_size=2, max_size=4), st.lists(st.tuples(st.sampled_from(KEYS), st.integers(0, 9)), max_size=2), RATES, EARLY, st.integers(0, 10 ** 6)), quick=90, shards=8,
      rule='threads use the configuration for the first time in the process at the same time')
def configuration(case, ctx):
    import importlib.util, DHParser
    histories, presets, rate, early, seed = case
    early = early * 3
    spec = importlib.util.spec_from_file_location('fresh_configuration', DHParser.__path__[0] + '/configuration.py')
    cfg = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(cfg)
    defaults = {k: [cfg.CONFIG_PRESET[k]] for k in KEYS}      # defaults that may have been valid
    everything = set(cfg.CONFIG_PRESET)
    for k, i in presets: defaults[k].append(VALUES[k][i % len(VALUES[k])])

    def changing():
        cfg.access_presets()
        for k, i in presets: cfg.set_preset_value(k, VALUES[k][i % len(VALUES[k])])
        cfg.finalize_presets()
        for k, i in dict(presets).items(): equal(cfg.get_config_value(k), VALUES[k][i % len(VALUES[k])], 'value after presetting it')

    def thread(history):
        def run():
            model, local, known = {}, {}, {}
            for step in history:
                if step[0] == 'set':
                    v = VALUES[step[1]][step[2] % len(VALUES[step[1]])]
                    cfg.set_config_value(step[1], v)
                    model[step[1]] = v
                elif step[0] == 'add':
                    cfg.add_config_values({step[1]: step[2]})
                    model[step[1]] = step[2]
                elif step[0] == 'reset':
                    cfg.reset_config_dict()
                    model, known = {}, {}
                elif step[0] == 'local':
                    setattr(cfg.access_thread_locals(), step[1], step[2])
                    local[step[1]] = step[2]
                elif step[0] == 'get':
                    v = cfg.get_config_value(step[1])
                    if step[1] in model: equal(v, model[step[1]], 'value set by the thread', step[1])
                    else:
                        check(v in defaults[step[1]], 'value that is not a default', step[1], v)
                        equal(v, known.setdefault(step[1], v), 'default that has been read before')
                else:
                    got = cfg.get_config_values(step[1])
                    for k, v in got.items():
                        if k in model: equal(v, model[k], 'value in group', k)
                        elif k in defaults: check(v in defaults[k], 'value in group', k, v)
                        else: check(k in everything, 'unknown key in group', k)
                    import fnmatch
                    missing = {k for k in {*model, *everything} if fnmatch.fnmatchcase(k, step[1])} - set(got)
                    check(not missing, 'keys missing in group', missing)
                for k, v in local.items(): equal(getattr(cfg.access_thread_locals(), k, None), v, 'thread-local variable', k)
            return 'ok'
        return run
    scheduler = Scheduler(len(histories) + bool(presets), seed, rate, early)
    got = scheduler.run([thread(h) for h in histories] + ([changing] if presets else []))
    ctx.nontrivial(scheduler.switches >= 3)
    for g, h in zip(got, histories): equal(g, ('result', 'ok'), 'history', h)
    if presets: equal(got[-1], ('result', None), 'thread changing the presets')
