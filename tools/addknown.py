"""addknown.py ID TEST KEY CASE-REPR DESCRIPTION: lists a genuine defect that is not repaired."""
import json, sys, ast
pid, test, key, case, what = sys.argv[1:6]
ast.literal_eval(case)
p = __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))) + '/known_findings.json'
k = json.load(open(p))
k['findings'].append({"property": pid, "test": test, "key": key, "case": case, "what": what})
open(p, 'w').write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(f, ensure_ascii=False) for f in k['findings']) + '\n]}\n')
