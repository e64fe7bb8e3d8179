#!/usr/bin/env python3
"""usage: run_check.py <PROPERTY-ID> [--tier quick|thorough] [--only TEST] [--scale X] [--seed N]
          run_check.py --replay FILE

Runs all executable properties of checks/<ID>.py against the DHParser in /repo's
working tree, in fresh worker processes.  Exit 0: held; 1: VIOLATION; 3: harness error.
"""
import argparse, ast, importlib.util, json, os, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.realpath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
NPROC = int(os.environ.get('VERIF_NPROC', '8'))


def worker_env():
    env = dict(os.environ)
    env['PYTHONPATH'] = os.pathsep.join([REPO, VERIF])
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['LANG'] = env['LC_ALL'] = 'C.UTF-8'
    env['TERM'] = 'dumb'
    return env


def setup_paths():
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)      # hypothesis & friends; repo's own venv takes precedence
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)


def load_check(pid):
    spec = importlib.util.spec_from_file_location('check_' + pid, os.path.join(VERIF, 'checks', pid + '.py'))
    mod = importlib.util.module_from_spec(spec)
    sys.modules['check_' + pid] = mod
    spec.loader.exec_module(mod)
    return mod


def read_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path, encoding='utf-8') as f:
            return [e for e in json.load(f)['findings'] if e['property'] == pid]
    except FileNotFoundError:
        return []


def parse_case(s):
    return ast.literal_eval(s)


def regress_cases(pid, test):
    d = os.path.join(VERIF, 'regress', pid)
    out = []
    if os.path.isdir(d):
        for name in sorted(os.listdir(d)):
            if name.endswith('.json'):
                with open(os.path.join(d, name), encoding='utf-8') as f:
                    data = json.load(f)
                if data['test'] == test:
                    out.append(parse_case(data['case']))
    return out


def worker(argv):
    """internal: --worker pid test n seed tier outfile"""
    pid, test, n, seed, tier, outfile = argv
    setup_paths()
    import resource, logging, warnings
    warnings.simplefilter('ignore')
    lim = 6 * 1024 ** 3
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    scratch = tempfile.mkdtemp(prefix='vf_')
    os.chdir(scratch)
    from lib import pbt
    # Keep the real stdout away from chatty code under test
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    try:
        load_check(pid)
        t = pbt.REGISTRY[test]
        known = [e['key'] for e in read_known(pid) if e.get('test') == test and 'fixed' not in e]
        shard0 = int(n) < 0
        res = pbt.run_job(t, abs(int(n)), int(seed), tier, known,
                          regress_cases(pid, test) if shard0 else ())
        with open(outfile, 'w', encoding='utf-8') as f:
            json.dump(res, f)
    finally:
        os.chdir('/')
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    os._exit(0)


def probe(argv):
    """internal: --probe pid test casefile outfile: runs a single case."""
    pid, test, casefile, outfile = argv
    setup_paths()
    scratch = tempfile.mkdtemp(prefix='vf_')
    os.chdir(scratch)
    from lib import pbt
    import traceback, signal
    with open(casefile, encoding='utf-8') as f:
        case = parse_case(f.read())
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    err = ''
    signal.signal(signal.SIGALRM, pbt._alarm)
    signal.alarm(pbt.HANG_SECONDS)
    try:
        load_check(pid)
        pbt.run_case(pbt.REGISTRY[test], case, pbt.Ctx(pbt.Stats()))
    except (Exception, pbt.CaseTimeout):
        err = traceback.format_exc()
    signal.alarm(0)
    sys.stdout = out
    with open(outfile, 'w', encoding='utf-8') as f:
        json.dump({'error': err}, f)
    os.chdir('/')
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)
    os._exit(0)


def run_probe(pid, test, case_repr):
    with tempfile.TemporaryDirectory(prefix='vfp_') as d:
        cf, of = os.path.join(d, 'case'), os.path.join(d, 'out')
        with open(cf, 'w', encoding='utf-8', errors='surrogatepass') as f:
            f.write(case_repr)
        subprocess.run([PYTHON, '-W', 'ignore', os.path.join(VERIF, 'run_check.py'), '--probe', pid, test, cf, of],
                       env=worker_env(), stdout=subprocess.DEVNULL, timeout=300)
        with open(of, encoding='utf-8') as f:
            return json.load(f)['error']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    setup_paths()
    if a.replay:
        with open(a.replay, encoding='utf-8') as f:
            data = json.load(f)
        err = run_probe(data['property'], data['test'], data['case'])
        if err:
            print(err)
            print(f"VIOLATION property={data['property']} replay={a.replay}")
            sys.exit(1)
        print('case passes')
        sys.exit(0)

    pid = a.pid
    t0 = time.time()
    # The list of tests is read in a subprocess-free way; check modules import DHParser lazily
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    mod = load_check(pid)
    from lib import pbt
    tests = [t for t in pbt.REGISTRY.values() if not a.only or t.name == a.only]
    jobs = []
    maxshards = max(t.shards for t in tests)
    for shard in range(maxshards):
        for k, t in enumerate(tests):
            if shard < t.shards:
                n = max(1, int((t.quick if tier == 'quick' else t.thorough) * a.scale))
                jobs.append((t, -n if shard == 0 else n, a.seed * 1000003 + shard * 1009 + k))
    violations, errors, results = [], [], []
    running = []
    hard = {'quick': 780, 'thorough': 9000}[tier]
    with tempfile.TemporaryDirectory(prefix='vfr_') as tmp:
        i = 0
        while (i < len(jobs) or running):
            while i < len(jobs) and len(running) < NPROC and not violations:
                t, n, seed = jobs[i]
                out = os.path.join(tmp, f'{i}.json')
                errf = open(os.path.join(tmp, f'{i}.err'), 'w+')
                p = subprocess.Popen([PYTHON, '-W', 'ignore', os.path.join(VERIF, 'run_check.py'), '--worker', pid, t.name,
                                      str(n), str(seed), tier, out], env=worker_env(),
                                     stdout=subprocess.DEVNULL, stderr=errf, start_new_session=True)
                running.append((p, t, out, errf, seed))
                i += 1
            time.sleep(0.02)
            for item in list(running):
                p, t, out, errf, seed = item
                if p.poll() is None:
                    continue
                running.remove(item)
                if os.path.exists(out):
                    with open(out, encoding='utf-8') as f:
                        r = json.load(f)
                    results.append(r)
                    if r['harness_error']:
                        errors.append(f"{t.name}: {r['harness_error']}")
                    if r['failed']:
                        violations.append(r)
                    if a.v:
                        print(f"  {t.name} seed={seed} n={r['evaluations']} nontrivial={r['nontrivial']} "
                              f"wall={r['wall']:.1f} {'FAILED' if r['failed'] else ''}")
                else:
                    errf.seek(0)
                    errors.append(f'{t.name} (seed {seed}): worker died with {p.returncode}: {errf.read()[-3000:]}')
                errf.close()
            if violations:
                i = len(jobs)
                t_stop = time.time()
                # one failing, shrunk input is enough
                for p, *_ in running:
                    try: os.killpg(p.pid, 9)
                    except ProcessLookupError: pass
                for p, *_ in running: p.wait()
                running = []
            elif time.time() - t0 > hard:
                for p, *_ in running:
                    try: os.killpg(p.pid, 9)
                    except ProcessLookupError: pass
                running = []
                print(f'note: time budget of {hard}s used up, remaining jobs were not run')
                break

    known_lines = []
    for e in read_known(pid):
        if 'fixed' in e or (a.only and e['test'] != a.only): continue
        if run_probe(pid, e['test'], e['case']):
            known_lines.append(f"KNOWN-FINDING: property={pid} {e['what']}")
    for l in known_lines: print(l)

    distinct, labels, samples, ev, nontriv, rules = set(), {}, [], 0, 0, []
    per_test = {}
    for r in results:
        ev += r['evaluations']; nontriv += r['nontrivial']
        distinct.update(r['test'] + ':' + d for d in r['distinct'])
        pt = per_test.setdefault(r['test'], {'evaluations': 0, 'distinct_nontrivial': set(), 'labels': {}})
        pt['evaluations'] += r['evaluations']
        pt['distinct_nontrivial'].update(r['distinct'])
        for k, v in r['labels'].items():
            pt['labels'][k] = pt['labels'].get(k, 0) + v
        if sum(1 for s in samples if s.startswith(r['test'] + ': ')) < 2:
            samples.extend(f"{r['test']}: {s}" for s in r['samples'][:2])
    for pt in per_test.values():
        pt['distinct_nontrivial'] = len(pt['distinct_nontrivial'])
        pt['labels'] = dict(sorted(pt['labels'].items(), key=lambda kv: -kv[1])[:40])
    wall = time.time() - t0
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        evidence = {
            'property': pid, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': ev, 'distinct_nontrivial': len(distinct),
                'rule': getattr(mod, 'RULE', '') + ' | ' + ' | '.join(f'{t.name}: {t.rule}' for t in tests if t.rule),
                'samples': samples[:24], 'per_test': per_test,
                'known_findings_reproduced': known_lines},
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'violations': len(violations), 'wall_s': round(wall, 2)}
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w', encoding='utf-8') as f:
            json.dump(evidence, f, indent=1)
    if violations:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        for r in violations[:1]:
            path = os.path.join(VERIF, 'replay', f"{pid}-{r['test']}-{r['seed']}.json")
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({'property': pid, 'test': r['test'], 'case': r['case'], 'error': r['error']}, f, indent=1)
            print(f"{r['test']}: failing case: {r['case'][:1500]}\n{r['error'][-2500:]}")
            print(f'VIOLATION property={pid} replay={path}')
        sys.exit(1)
    if errors:
        print('HARNESS ERROR:\n' + '\n'.join(errors))
        sys.exit(3)
    print(f'{pid}: held on {ev} cases ({len(distinct)} distinct non-trivial), {tier}, seed {a.seed}, {wall:.1f}s')
    if a.v:
        for k, v in per_test.items(): print(k, json.dumps(v))
    sys.exit(0)


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--worker':
        worker(sys.argv[2:])
    elif len(sys.argv) > 1 and sys.argv[1] == '--probe':
        probe(sys.argv[2:])
    else:
        main()
