#!/usr/bin/env python3
"""plant.py SPECFILE [--check]: confirm planted bugs and store them under seeded/.

SPECFILE defines BUGS = [dict(id, property, file, edits=[(old, new)...], demo=<python source>, needs, breaks)].
For each: scratch copy of /repo under /tmp, apply, demo (0 on /repo, nonzero on the copy), stable tests in the copy.
With --check also runs the check of the property on /repo with the patch applied (serially, restored afterwards)."""
import json, os, subprocess, sys, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as specified; nonzero: property violated.  Runs in cwd (/repo).
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
cp "$HERE/demo.py" "$W/demo.py"
cd "$W" && timeout 120 /opt/venv/bin/python demo.py
'''


def sh(cmd, cwd=None, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def confirm(b):
    d = tempfile.mkdtemp(prefix='bug_')
    try:
        copy = d + '/repo'
        sh(f'cp -a /repo {copy}')
        for old, new in b['edits']:
            f = b['file']
            if isinstance(old, tuple):
                f, old = old
            path = f'{copy}/{f}'
            s = open(path, encoding='utf-8').read()
            if s.count(old) != 1:
                return f"{b['id']}: edit matches {s.count(old)} times: {old[:60]!r}"
            open(path, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = sh('git diff', copy).stdout
        out = f"{ROOT}/seeded/{b['id']}"
        base = sh('git rev-list --max-parents=0 HEAD', '/repo').stdout.split()[-1]
        for f in re.findall(r'^--- a/(.*)$', diff, re.M):
            orig = set(sh(f'git show {base}:{f}', '/repo').stdout.split('\n'))
            for ln in re.findall(r'^-(?!--)(.*)$', diff, re.M):
                if ln not in orig: return f"{b['id']}: not an original line: {ln!r}"
        tmp = d + '/seed'
        os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(diff)
        open(tmp + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(tmp + '/meta.json', 'w'), indent=1)
        r0 = sh(f'bash {tmp}/demo.sh', '/repo')
        if r0.returncode:
            return f"{b['id']}: demo fails on clean tree: {r0.stdout[-600:]} {r0.stderr[-900:]}"
        r1 = sh(f'bash {tmp}/demo.sh', copy)
        if not r1.returncode:
            return f"{b['id']}: demo passes with patch"
        why = (r1.stderr or r1.stdout).strip().split('\n')[-1][:160]
        t = re.sub(r'(?<!WORK)/repo\b', lambda m: copy, open('/opt/vp/test.sh').read())
        open(d + '/test.sh', 'w').write(t)
        sh(f'bash {d}/test.sh {d}/t.json')
        try:
            passed = set(json.load(open(d + '/t.json'))['passed'])
        except Exception as e:
            return f"{b['id']}: tests did not run {e}"
        miss = sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed)
        if miss:
            return f"{b['id']}: {len(miss)} stable tests fail: {miss[:3]}"
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        return f"{b['id']}: CONFIRMED ({why})"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(bid, seed='1'):
    meta = json.load(open(f'{ROOT}/seeded/{bid}/meta.json'))
    assert not sh('git status --porcelain', '/repo').stdout.strip(), 'repo not clean'
    r = sh(f'git apply {ROOT}/seeded/{bid}/patch.diff', '/repo')
    try:
        if r.returncode:
            return f'{bid}: patch does not apply {r.stderr}'
        p = meta['property']
        c = sh(f"VERIF_SEED={seed} {PY} run_check.py {p} --tier quick", ROOT)
        v = re.findall(r'^VIOLATION property=\S+', c.stdout, re.M)
        t = re.findall(r'test=(\S+)|in test (\S+)', c.stdout)
        return f'{bid}: ' + (f'caught by {p}' if c.returncode == 1 and v else f'MISSED by {p} rc={c.returncode}')
    finally:
        sh('git checkout -- .', '/repo')


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--only-check' in sys.argv:
        for bid in args or sorted(os.listdir(ROOT + '/seeded')):
            print(check(bid), flush=True)
        sys.exit()
    ns = {}
    exec(open(args[0], encoding='utf-8').read(), ns)
    bugs = [b for b in ns['BUGS'] if len(args) == 1 or b['id'] in args[1:]]
    with ThreadPoolExecutor(3) as ex:
        res = list(ex.map(confirm, bugs))
    for m in res:
        print(m)
    if '--check' in sys.argv:
        for b, m in zip(bugs, res):
            if 'CONFIRMED' in m:
                print(check(b['id']), flush=True)
