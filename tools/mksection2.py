"""Regenerates section 2 of DESIGN.md from the properties' own descriptions,
keeping the hand-written 'Beyond tests' lines (run by hand with the venv)."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, '/repo', '/repo/projects']
notes = json.load(open(HERE + '/tools/level_notes.json'))
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
s = open(HERE + '/DESIGN.md').read()
a = s.index('### C01 ')
b = s.index('### Not applicable')
why = dict(re.findall(r'### (C\d\d) .*?\*Beyond tests\.\* (.*?)\n\n', s[a:b] , re.S))
cap = lambda t: t[0].upper() + t[1:]
out = []
for p in props:
  i = p['id']
  if i.startswith('P') or i not in notes:
    continue
  P = importlib.import_module('props.' + i.lower()).PROP
  out.append('### %s %s\n\n*Method.* %s.\n\n*Runs.* %s.\n\n*Bounds and oracle.* %s\n\n*Real.* %s.  *Stubs.* %s.\n\n*Assumptions.* %s.\n\n*Beyond tests.* %s\n\n' % (
      i, p['title'], cap(notes[i]['technique']), cap(P.rule), notes[i]['note'], '; '.join(P.real), '; '.join(P.stubs) or 'none',
      '; '.join(P.assumptions) or 'none', why.get(i) or p['why_tests_cant']))
s = s[:a] + ''.join(out) + s[b:]
open(HERE + '/DESIGN.md', 'w').write(s)
