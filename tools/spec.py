#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py"""
import json, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
PY = '/opt/venv/bin/python'
P = []


def p(id, title, statement, over, text, why, files, mech, technique='', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, na=na))


exec(open(os.path.join(ROOT, 'tools', 'properties_src.py'), encoding='utf-8').read())

lines, checks, na = [], [], []
for q in P:
    assert len(q['title']) <= 80, q['title']
    lines.append(json.dumps({
        'id': q['id'], 'title': q['title'], 'statement': ' '.join(q['statement'].split()),
        'quantifier': {'over': q['over'], 'text': ' '.join(q['text'].split())},
        'why_tests_cant': ' '.join(q['why'].split()),
        'anchors': {'files': ['DHParser/' + f for f in q['files']],
                    'mechanism': [{'name': n, 'where': 'DHParser/' + w} for n, w in q['mech']]}},
        ensure_ascii=False))
    if q['na'] or not os.path.exists(os.path.join(ROOT, 'checks', q['id'] + '.py')):
        na.append({'property': q['id'], 'reason': q['na'] or 'check not built yet'})
    else:
        cmd = f"{PY} run_check.py {q['id']} --tier "
        checks.append({'property': q['id'], 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                       'evidence_file': f"evidence/{q['id']}.json",
                       'technique': 'property-based testing: ' + q['technique'],
                       'level': 'exploration',
                       'level_note': ' '.join((q['note'] + ' Random search: no guarantee beyond the generated cases; '
                                      'trusts the oracle code in checks/ and lib/, CPython and the regex package.').split())})
with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    f.write('\n'.join(lines) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump({'version': 1,
               'setup_cmd': f"{PY} tools/selfcheck.py",
               'checks': checks, 'not_applicable': na,
               'notes': 'Pure-Python code base: every check imports DHParser from /repo\'s working tree in fresh '
                        'worker processes. No hooks in /repo are needed. Replay a failure with: '
                        f'{PY} run_check.py --replay <file>.'}, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(lines), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
