"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTES['not_applicable']:
        na.append({'property': i, 'reason': NOTES['not_applicable'][i]})
    elif os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': f'./run.sh check {i} --tier quick',
                       'thorough_cmd': f'./run.sh check {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': 'deterministic simulation with fault injection: ' + NOTES['technique'][i],
                       'level': 'exploration', 'level_note': NOTES['level_note'][i]})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na, 'notes': NOTES['notes']}
open(os.path.join(V, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not applicable')
