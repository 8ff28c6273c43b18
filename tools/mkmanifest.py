#!/opt/venv/bin/python
"""Writes MANIFEST.json from checks/meta.py and properties.jsonl."""
import json, os, sys
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, base)
sys.dont_write_bytecode = True
from checks.meta import CHECKS
props = [json.loads(l) for l in open(os.path.join(base, 'properties.jsonl'))]
py = '/opt/venv/bin/python'
man = {'version': 1,
       'setup_cmd': f"{py} -c \"import sys; sys.dont_write_bytecode=True; sys.path.insert(0, '/repo'); import DHParser, regex; print('ok')\"",
       'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS and os.path.exists(os.path.join(base, 'checks', i.lower() + '.py')):
        c = CHECKS[i]
        man['checks'].append({'property': i, 'quick_cmd': f'{py} check.py {i} --tier quick',
                              'thorough_cmd': f'{py} check.py {i} --tier thorough',
                              'technique': 'runtime monitoring: ' + c['technique'],
                              'level': c['level'], 'level_note': c['note']})
    else:
        man['not_applicable'].append({'property': i, 'reason': 'the monitor for this property has not been built yet'})
if not man['not_applicable']:
    del man['not_applicable']
man['notes'] = ('All checks run the unmodified code of /repo (imported directly, nothing to build) in fresh '
                'interpreter processes; no hooks in /repo are used. See DESIGN.md.')
with open(os.path.join(base, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
