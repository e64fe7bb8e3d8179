"""Small property-based-testing harness on top of Hypothesis.

A check module (checks/<ID>.py) registers executable properties with @prop.  Each
property gets *plain Python literals* as generated cases (so that repr() is a replay
file), an explicit oracle in its body, and labels non-trivial cases through `ctx`.

The harness never decides by wall-clock, except that a single case that does not
come back within HANG_SECONDS (cases take milliseconds) counts as non-terminating.
"""
import hashlib, io, os, random, signal, sys, time, traceback

HANG_SECONDS = 100
SOFT_DEADLINE = {'quick': 240, 'thorough': 2400}


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The generated case lies outside of the property's domain."""


class Violation(AssertionError):
    pass


class Test:
    __slots__ = ('name', 'strategy', 'fn', 'quick', 'thorough', 'shards', 'rule', 'known')

    def __init__(self, name, strategy, fn, quick, thorough, shards, rule, known):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.rule, self.known = rule, known or {}


REGISTRY = {}


def prop(strategy, quick=400, thorough=None, shards=4, rule='', known=None, name=None):
    """Registers a property. `strategy` is a zero-argument callable that returns a
    Hypothesis strategy (called lazily, in the worker). `quick`/`thorough`: cases per shard."""
    def deco(fn):
        nm = name or fn.__name__
        assert nm not in REGISTRY, nm
        REGISTRY[nm] = Test(nm, strategy, fn, quick, thorough or quick * 12, shards, rule, known)
        return fn
    return deco


class Ctx:
    """Per-case context: collects labels, decides triviality."""
    def __init__(self, stats):
        self._stats = stats
        self.reset()

    def reset(self):
        self.nontriv = False
        self.labels = []

    def nontrivial(self, cond=True, label=None):
        if cond:
            self.nontriv = True
            if label: self.labels.append(label)

    def label(self, name, cond=True):
        if cond:
            self.labels.append(str(name))

    def skip(self, why='skipped'):
        self.labels.append('skip:' + why)
        raise Skip(why)


def info(kw):
    return ''.join(f'\n  {k}: {str(v)[:800]!r}' for k, v in kw.items())


def check(cond, *msg, **kw):
    if not cond:
        raise Violation((' '.join(str(m)[:1500] for m in msg) or 'property violated') + info(kw))


def equal(got, expected, *msg, **kw):
    if got != expected:
        raise Violation((' '.join(str(m)[:800] for m in msg) + ' ' if msg else '')
                        + f'\n  got:      {str(got)[:1500]!r}\n  expected: {str(expected)[:1500]!r}' + info(kw))


def raises(fn, *exc):
    """Returns the exception if fn raises one of exc, None otherwise."""
    try:
        fn()
    except exc as e:
        return e
    return None


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.rnd = random.Random(0)

    def note(self, rep, ctx):
        for l in set(ctx.labels):
            self.labels[l] = self.labels.get(l, 0) + 1
        if ctx.nontriv:
            self.nontrivial += 1
            h = hashlib.blake2b(rep.encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 6:
                    self.samples.append(rep[:600])
                elif self.rnd.random() < 0.02:
                    self.samples[self.rnd.randrange(6)] = rep[:600]


def _alarm(signum, frame):
    raise CaseTimeout('case did not terminate')


def fresh_state():
    """Brings DHParser's thread-local and global state back to a defined start."""
    from DHParser import configuration
    configuration.reset_config_dict()
    configuration.ACCESSING_PRESETS = False


def run_case(test, case, ctx):
    """Runs one case; returns None or (exception, traceback-str). Skip -> None."""
    fresh_state()
    ctx.reset()
    try:
        test.fn(case, ctx)
    except Skip:
        ctx.nontriv = False
    return None


def run_job(test, n, seed, tier, active_known, regress_cases=()):
    """Runs up to n generated cases of one property. Returns a JSON-able result."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    try:
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = 60 if tier == 'quick' else 200
    except Exception:
        pass
    stats = Stats()
    ctx = Ctx(stats)
    start = time.time()
    last = {}
    signal.signal(signal.SIGALRM, _alarm)

    def body(case):
        if 'case' not in last and time.time() - start > SOFT_DEADLINE[tier]:
            return
        rep = repr(case)
        stats.evaluations += 1
        signal.alarm(HANG_SECONDS)
        try:
            run_case(test, case, ctx)
        except (CaseTimeout, MemoryError) as e:
            signal.alarm(0)
            last['case'], last['error'] = rep, f'{type(e).__name__}: case does not terminate'
            raise CaseTimeout()
        except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
            raise
        except Exception as e:
            for key in active_known:
                pred = test.known.get(key)
                if pred is not None and pred(case, e):
                    stats.known[key] = stats.known.get(key, 0) + 1
                    return
            if type(e).__module__.startswith('hypothesis'):
                raise
            last['case'] = rep
            last['error'] = traceback.format_exc(limit=-12)[-6000:]
            raise
        finally:
            signal.alarm(0)
        stats.note(rep, ctx)

    result = {'test': test.name, 'seed': seed, 'failed': False, 'harness_error': ''}
    try:
        for case in regress_cases:
            body(case)
    except (Exception, CaseTimeout):
        if 'case' in last:
            result.update(failed=True, case=last['case'], error=last['error'], regress=True)
        else:
            result['harness_error'] = traceback.format_exc()[-4000:]
    if not result['failed'] and not result['harness_error'] and n > 0:
        phases = [Phase.explicit, Phase.generate, Phase.shrink]
        runner = hypothesis.seed(seed)(settings(
            max_examples=n, database=None, deadline=None, derandomize=False,
            report_multiple_bugs=False, phases=phases,
            suppress_health_check=list(HealthCheck), print_blob=False)(
                given(test.strategy())(body)))
        try:
            runner()
        except CaseTimeout:
            result.update(failed=True, case=last['case'], error=last['error'])
        except hypothesis.errors.Unsatisfiable:
            pass
        except BaseException:
            if 'case' in last:
                result.update(failed=True, case=last['case'], error=last['error'])
            else:
                result['harness_error'] = traceback.format_exc()[-4000:]
    result.update(evaluations=stats.evaluations, nontrivial=stats.nontrivial,
                  distinct=sorted(stats.distinct), labels=stats.labels, samples=stats.samples,
                  known=stats.known, wall=time.time() - start)
    return result
