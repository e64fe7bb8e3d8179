"""P17: configuration values obey their scope and their validation."""
import os
import sys
import queue
import shutil
import tempfile
import threading
from fnmatch import fnmatchcase
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises, Violation

RULE = ('random histories of setting, reading, reading by pattern, presetting, resetting and ingesting configuration files, spread '
        'over up to three threads and including invalid keys and values, against a model of presets and thread-local values; '
        'non-trivial: at least two threads or at least two writing operations took effect')
ASSUMPTIONS = ['the operations of different threads are executed one after the other (see P16 for real concurrency)',
               'a thread that is already running may or may not have seen the defaults before they were changed elsewhere',
               'of a configuration-file with errors, the values without errors may or may not take effect']

RANGED, SETKEY = 'my.range', 'my.choice'
KEYS = ['default_serialization', 'CST_serialization', 'cst_serialization', 'max_parser_dropouts', 'history_tracking',
        'optimizations', 'xml_attribute_error_handling', 'resume_notices', 'nonexistent', 'my.new', 'my.other', 'your.new', RANGED, SETKEY]
VALUES = ['S-expression', 'json', 'XML', 'nonsense', '', 0, 1, 5, 10, 11, -1, 2.5, True, False, None, ('a', 'b'),
          frozenset({'literal'}), frozenset({'literal', 'sequence'}), frozenset({'literal', 'bogus'}), frozenset(), 'literal', 'fix', 'fail',
          ['sequence'], 'text with; [chars] = "quotes"']
GOOD = {'default_serialization': ['S-expression', 'json', 'XML'], 'CST_serialization': ['S-expression', 'json', ''],
        'optimizations': [frozenset({'literal'}), frozenset({'literal', 'sequence'}), frozenset()],
        'xml_attribute_error_handling': ['fix', 'fail'], RANGED: [0, 1, 5, 10, 2.5, True], SETKEY: ['fix', 5, ('a', 'b'), frozenset()]}
PATTERNS = ['*', 'my.*', '*serialization', 'max_*', '*.new', '[hr]*', 'history_tracking', 'nothing*', '?our.*', 'optimizations', 'resume_notices']
OWN_RANGES = {RANGED: (0, 10), SETKEY: frozenset({'fix', 5, 'a', 'b'})}
RENAMED = {'cst_serialization': 'CST_serialization', 'ast_serialization': 'AST_serialization'}


def legal(allowed, key, value):
    al = allowed.get(key)
    if not al: return True
    if isinstance(al, tuple):
        return isinstance(value, (int, float)) and al[0] <= value <= al[1]
    if not isinstance(value, str) and hasattr(value, '__iter__'):
        return all(v in al for v in value)
    return value in al


pair = st.one_of(st.tuples(st.sampled_from(KEYS), st.sampled_from(VALUES)),
                 st.sampled_from([(k, v) for k, vs in GOOD.items() for v in vs]))
pats = st.lists(st.sampled_from(PATTERNS), min_size=1, max_size=3)
op = st.one_of(
    st.tuples(st.just('set'), pair, st.booleans()), st.tuples(st.just('set'), pair, st.booleans()),
    st.tuples(st.just('get'), st.sampled_from(KEYS)), st.tuples(st.just('getdef'), st.sampled_from(KEYS)),
    st.tuples(st.just('many'), pats), st.tuples(st.just('many'), pats),
    st.tuples(st.just('preset'), st.lists(pair, min_size=1, max_size=3), st.booleans(), st.one_of(st.none(), st.sampled_from(KEYS))),
    st.tuples(st.just('getpresets'), st.sampled_from(PATTERNS)),
    st.tuples(st.just('add'), st.lists(st.tuples(st.sampled_from(['my.new', 'my.other', 'resume_notices']), st.sampled_from([1, 'x', None])), max_size=2)),
    st.tuples(st.just('ini'), st.lists(pair, min_size=1, max_size=3), st.sampled_from(['', '', 'syntax', 'name'])),
    st.tuples(st.just('reset')))


class Worker:
    """A thread that executes one function after the other."""
    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            fn = self.q.get()
            if fn is None: return
            try:
                self.r.put((fn(), None))
            except BaseException as e:
                self.r.put((None, e))

    def __call__(self, fn):
        self.q.put(fn)
        try:
            res, exc = self.r.get(timeout=60)
        except queue.Empty:
            raise Violation('thread does not answer any more (deadlock)')
        if exc is not None: raise exc
        return res

    def stop(self):
        self.q.put(None)
        self.t.join(10)


class scratch_config:
    """Restores the presets afterwards."""
    def __enter__(self):
        import DHParser.configuration as c
        self.saved, self.allowed = dict(c.CONFIG_PRESET), dict(c.ALLOWED_PRESET_VALUES)
        c.ALLOWED_PRESET_VALUES.update(OWN_RANGES)
        self.workers = []
        return self

    def worker(self):
        self.workers.append(Worker())
        return self.workers[-1]

    def __exit__(self, *exc):
        import DHParser.configuration as c
        for w in self.workers: w.stop()
        c.CONFIG_PRESET.clear(); c.CONFIG_PRESET.update(self.saved)
        c.ALLOWED_PRESET_VALUES.clear(); c.ALLOWED_PRESET_VALUES.update(self.allowed)
        c.ACCESSING_PRESETS = c.PRESETS_CHANGED = False
        c.reset_config_dict()


class Thread:
    def __init__(self, worker, start):
        self.run, self.start, self.own, self.seen = worker, start, {}, {}


MISSING = object()
REJECT = (ValueError, TypeError, KeyError)


class Model:
    def __init__(self):
        import DHParser.configuration as c
        self.c = c
        self.presets = dict(c.CONFIG_PRESET)
        self.hist = {k: [(0, v)] for k, v in self.presets.items()}
        self.now = 0

    def put_preset(self, k, v):
        self.presets[k] = v
        self.hist.setdefault(k, [(-1, MISSING)]).append((self.now, v))

    def candidates(self, th, key):
        if key in th.own: return [th.own[key]]
        if key in th.seen: return [th.seen[key]]
        h = self.hist.get(key, [(-1, MISSING)])
        last = [v for t, v in h if t <= th.start][-1:]
        return last + [v for t, v in h if t > th.start]

    def saw(self, th, key, value):
        ok = self.candidates(th, key)
        check(any(value is v or (v is not MISSING and type(value) is type(v) and value == v) for v in ok),
              'wrong value read for', key, got=value if value is not MISSING else 'KeyError',
              possible=['KeyError' if v is MISSING else v for v in ok])
        if key not in th.own and value is not MISSING: th.seen[key] = value

    def read(self, th, key):
        def f():
            try: return self.c.get_config_value(key)
            except KeyError: return MISSING
        self.saw(th, key, th.run(f))

    def write(self, th, k, v):
        th.own[k] = v
        th.seen.pop(k, None)


@prop(lambda: st.lists(st.tuples(st.integers(0, 2), op), min_size=1, max_size=12), quick=700, shards=6)
def histories(case, ctx):
    with scratch_config() as sc:
        m = Model()
        c = m.c
        threads = {}
        effects = 0
        allowed = c.ALLOWED_PRESET_VALUES
        for t, o in case:
            m.now += 1
            if t not in threads:
                threads[t] = Thread(sc.worker(), m.now)
            th = threads[t]
            kind = o[0]
            if kind == 'set':
                (k, v), new = o[1], o[2]
                key = k if new or k in m.presets else RENAMED.get(k, k)
                ok = (new or key in m.presets or key in th.own) and legal(allowed, key, v)
                try:
                    th.run(lambda: c.set_config_value(k, v, allow_new_key=new))
                    check(ok, 'illegal key or value accepted', k, v)
                    m.write(th, key, v)
                    effects += 1
                except REJECT as e:
                    check(not ok, 'legal value rejected', k, v, e)
                    ctx.label('rejected')
                m.read(th, key)
            elif kind == 'get':
                m.read(th, o[1])
            elif kind == 'getdef':
                m.saw(th, o[1], th.run(lambda: c.get_config_value(o[1], MISSING)))
            elif kind == 'many':
                got = th.run(lambda: c.get_config_values(*o[1]))
                for k in set(m.presets) | set(th.own) | set(got):
                    match = any(fnmatchcase(k, p) for p in o[1])
                    if not match:
                        check(k not in got, 'value does not match any pattern', k, patterns=o[1])
                    else:
                        m.saw(th, k, got.get(k, MISSING))
                        m.read(th, k)
            elif kind == 'preset':
                def f():
                    res = []
                    c.access_presets()
                    try:
                        for k, v in o[1]:
                            try:
                                c.set_preset_value(k, v, allow_new_key=o[2])
                                res.append(None)
                            except REJECT as e:
                                res.append(e)
                            if not o[2]:
                                kk = k if k in c.CONFIG_PRESET else RENAMED.get(k, k)
                            else: kk = k
                            res.append(c.get_preset_value(kk, MISSING))
                        if o[3]: res.append(c.get_config_value(o[3], MISSING))
                    finally:
                        c.finalize_presets()
                    return res
                try: res = th.run(f)
                except AssertionError as e: check(False, 'value cannot be read while presets are being changed', e)
                for i, (k, v) in enumerate(o[1]):
                    key = k if o[2] or k in m.presets else RENAMED.get(k, k)
                    ok = (o[2] or key in m.presets) and legal(allowed, key, v)
                    check((res[2 * i] is None) == ok, 'preset accepted or rejected', k, v, error=res[2 * i], expected_ok=ok)
                    if ok:
                        m.put_preset(key, v)
                        m.write(th, key, v)
                        effects += 1
                    want = m.presets.get(key, MISSING)
                    check(res[2 * i + 1] is want or res[2 * i + 1] == want, 'preset read back', got=res[2 * i + 1], expected=want)
                if o[3]: m.saw(th, o[3], res[-1])
            elif kind == 'getpresets':
                def f():
                    c.access_presets()
                    try: return c.get_preset_values(o[1])
                    finally: c.finalize_presets()
                equal(th.run(f), {k: v for k, v in m.presets.items() if fnmatchcase(k, o[1])}, 'get_preset_values', o[1])
            elif kind == 'add':
                d = dict(o[1])
                th.run(lambda: c.add_config_values(d))
                for k, v in d.items(): m.write(th, k, v)
            elif kind == 'ini':
                lines, entries, bad = [], [], bool(o[2])
                for sec in ('', 'my', 'your'):
                    es = {}
                    for k, v in o[1]:
                        pre, _, name = k.rpartition('.')
                        if pre == sec: es[name] = v
                    if es: lines.append('[%s]' % (sec or ('DHParser' if len(o[1]) % 2 else 'dhparser')))
                    for name, v in es.items():
                        lines.append('%s = %r' % (name, v))
                        entries.append(((sec + '.' if sec else '') + name, v, bool(sec)))
                if o[2]:
                    lines += ['[oops]', 'bad = ' + ('1 +' if o[2] == 'syntax' else 'undefined_name')]
                verdict = []
                presets = dict(m.presets)
                for k, v, new in entries:
                    key = k if new or k in presets else RENAMED.get(k, k)
                    ok = (new or key in presets) and legal(allowed, key, v)
                    if ok: presets[key] = v
                    bad = bad or not ok
                    verdict.append((key, v, ok))
                try:
                    th.run(lambda: c.read_config_string('\n'.join(lines)))
                    check(not bad, 'errors in the configuration are not reported', ini='\n'.join(lines))
                except (ValueError, TypeError, SyntaxError, NameError) as e:
                    check(bad, 'flawless configuration rejected', e, ini='\n'.join(lines))
                    ctx.label('bad ini')
                check(not c.is_accessing_presets(), 'presets are left accessible')
                for key, v, ok in verdict:
                    if ok and (not bad or c.CONFIG_PRESET.get(key, MISSING) == v):
                        m.put_preset(key, v)
                        m.write(th, key, v)
                        effects += 1
            elif kind == 'reset':
                th.run(c.reset_config_dict)
                th.own, th.seen, th.start = {}, {}, m.now
            equal(dict(c.CONFIG_PRESET), m.presets, 'presets after', o)
        ctx.nontrivial(effects > 1 or len(threads) > 1)
        for th in threads.values():
            for k in KEYS + ['log_dir', 'delimiter_set', 'AST_serialization']:
                m.read(th, k)
        fresh = sc.worker()
        for k in set(KEYS) | set(m.presets):
            v = fresh(lambda: c.get_config_value(k, MISSING))
            want = m.presets.get(k, MISSING)
            check(v is want or v == want, 'value in a new thread', k, got=v, expected=want)
        equal(sc.worker()(lambda: c.get_config_values('*')), m.presets, 'all values in a new thread')


entry = st.sampled_from([(k, v) for k, vs in GOOD.items() if k not in (RANGED, SETKEY) for v in vs]
                        + [('my.new', 1), ('my.new', 'two'), ('my.other', ('a', 'b')), ('your.new', None), ('max_parser_dropouts', 7),
                           ('max_parser_dropouts', 8), ('resume_notices', True), ('multicore_pool', 'ProcessPool')])


def ini_text(entries):
    secs = {}
    for k, v in entries:
        pre, _, name = k.rpartition('.')
        secs.setdefault(pre or 'DHParser', {})[name] = v
    return '\n'.join('[%s]\n' % s + '\n'.join('%s = %r' % kv for kv in es.items()) for s, es in secs.items())


@prop(lambda: st.tuples(st.tuples(*[st.one_of(st.none(), st.lists(entry, max_size=3)) for _ in range(4)]), st.booleans(), st.booleans()),
      quick=300, shards=4)
def files(case, ctx):
    """Files of the same name in several places: later ones override earlier ones."""
    parts, bare_home_name, relative = case
    import __main__
    tmp = tempfile.mkdtemp(prefix='p17_')
    cwd, home, mainfile = os.getcwd(), os.environ.get('HOME'), getattr(__main__, '__file__', None)
    try:
        with scratch_config() as sc:
            m = Model()
            c = m.c
            dirs = [os.path.join(tmp, d) for d in ('script', 'given', 'home/.config/project', 'cwd')]
            for d in dirs: os.makedirs(d)
            paths = [os.path.join(d, 'project.ini') for d in dirs]
            if bare_home_name: paths[2] = os.path.join(dirs[2], 'config.ini')
            expected = {}
            for p, es in zip(paths, parts):
                if es is None: continue
                with open(p, 'w', encoding='utf-8') as f: f.write(ini_text(es))
                expected.update(dict(es))
            os.chdir(dirs[3])
            os.environ['HOME'] = os.path.join(tmp, 'home')
            __main__.__file__ = os.path.join(dirs[0], 'script.py')
            given = os.path.relpath(paths[1]) if relative else paths[1]
            w = sc.worker()
            read = w(lambda: c.read_local_config(given))
            equal([os.path.realpath(r) for r in read], [os.path.realpath(p) for p, es in zip(paths, parts) if es is not None], 'files read')
            ctx.nontrivial(sum(es is not None for es in parts) > 1)
            m.presets.update(expected)
            equal(dict(c.CONFIG_PRESET), m.presets, 'presets after reading the files')
            for k, v in expected.items():
                equal(w(lambda: c.get_config_value(k)), v, 'value in the same thread', k)
                equal(sc.worker()(lambda: c.get_config_value(k)), v, 'value in a new thread', k)
    finally:
        os.chdir(cwd)
        if home is None: os.environ.pop('HOME', None)
        else: os.environ['HOME'] = home
        if mainfile is None: del __main__.__file__
        else: __main__.__file__ = mainfile
        shutil.rmtree(tmp)


@prop(lambda: st.tuples(st.lists(entry, max_size=6), st.lists(st.sampled_from(['my.*', 'your.*', '*serialization', 'max_*', '*_notices', '*.new', 'opt*']),
                                                              min_size=1, max_size=4)), quick=300, shards=2)
def dumped(case, ctx):
    """A dump of configuration values is a configuration file with the same effect."""
    entries, patterns = case
    with scratch_config() as sc:
        import DHParser.configuration as c
        w = sc.worker()
        for k, v in entries:
            w(lambda: c.set_config_value(k, v, allow_new_key=True))
        values = w(lambda: c.get_config_values(*patterns))
        text = w(lambda: c.dump_config_data(*patterns))
        for k, v in entries:
            if any(fnmatchcase(k, p) for p in patterns):
                equal(values.get(k, MISSING), dict(entries)[k], 'value read by pattern', k)
        ctx.nontrivial(len(values) > 1)
        v2 = sc.worker()
        try:
            v2(lambda: c.read_config_string(text))
        except Exception as e:
            check(False, 'dumped configuration cannot be read', e, text=text)
        for k, v in values.items():
            equal(v2(lambda: c.get_config_value(k)), v, 'value read back', k, text=text)
        flat = w(lambda: c.dump_config_data(*patterns, use_headings=False))
        equal(sorted(l for l in flat.split('\n') if l), sorted('%s = %r' % kv for kv in values.items()), 'dump without headings')
