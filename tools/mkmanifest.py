"""Regenerates MANIFEST.json from properties.jsonl and the property modules
that exist (run by hand; the result is committed)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B check.py'
NOTES = json.load(open(os.path.join(HERE, 'tools', 'level_notes.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  i = p['id']
  if os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')) and i in NOTES and not i.startswith('P'):
    n = NOTES[i]
    checks.append({
        'property': i,
        'quick_cmd': '%s %s --tier quick' % (PY, i),
        'thorough_cmd': '%s %s --tier thorough' % (PY, i),
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection: ' + n['technique'],
        'level': n.get('level', 'exploration'),
        'level_note': n['note']})
  elif i.startswith('P'):
    na.append({'property': i, 'reason': NOTES.get(i, {}).get(
        'reason', 'Pure function of its input: no schedule, clock, fault, I/O, randomness or history for a simulation to '
        'decide; sampling inputs would be ordinary property testing.')})
  else:
    na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: thread switches, tensor operations, allocation, randomness and file-system calls are '
              'intercepted from outside (sys.monitoring, TorchDispatchMode, LD_PRELOAD).'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
