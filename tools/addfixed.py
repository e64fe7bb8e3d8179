"""addfixed.py ID TEST [N]: registers repair commits of /repo (by a substring of their message) in known_findings.json"""
import json, subprocess, sys
pid, test, sub = sys.argv[1:4]
h, m = subprocess.run(['git', '-C', __import__('os').environ.get('VERIF_REPO', '/repo'), 'log', '--format=%h %s', '-F', '--grep', sub, '-1'], capture_output=True, text=True).stdout.strip().split(' ', 1)
p = __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))) + '/known_findings.json'
k = json.load(open(p))
k['findings'].append({"property": pid, "test": test, "key": "", "case": "", "fixed": f"fixed: property={pid} {h} {m.removeprefix('fix: ')}"})
open(p, 'w').write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(f, ensure_ascii=False) for f in k['findings']) + '\n]}\n')
