"""Lines of the repository that the quick checks execute, by file, and those
that none does. usage: coverage.py [CHECK ...] (run by hand with the venv)."""
import dis
import glob
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
checks = sys.argv[1:] or [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]


def lines(path):
  out, todo = set(), [compile(open(path).read(), path, 'exec')]
  top = {l for _, _, l in todo[0].co_lines() if l}
  while todo:
    c = todo.pop()
    out |= {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno}
    todo += [k for k in c.co_consts if hasattr(k, 'co_code')]
  return out - top


seen, per = {}, {}
for c in checks:
  with tempfile.NamedTemporaryFile() as f:
    subprocess.run([sys.executable, '-B', 'check.py', c], cwd=HERE, env=dict(os.environ, SIM_COV=f.name, SIM_RUNS=os.environ.get('SIM_RUNS', '150')),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for l in open(f.name, errors='replace'):
      p, _, n = l.strip().rpartition(':')
      for d in ('/ocnn/', '/projects/'):
        if p.startswith(REPO + d):
          seen.setdefault(p[len(REPO) + 1:], set()).add(int(n))
      if not p.startswith(REPO) and n.isdigit():
        b = os.path.basename(p)
        if os.path.exists(REPO + '/projects/tools/' + b):
          seen.setdefault('projects/tools/' + b, set()).add(int(n))
  print(c, sum(map(len, seen.values())), flush=True)
tot = hit = 0
for p in sorted(glob.glob(REPO + '/ocnn/**/*.py', recursive=True) + glob.glob(REPO + '/projects/**/*.py', recursive=True)):
  r = os.path.relpath(p, REPO)
  want = lines(p)
  miss = sorted(want - seen.get(r, set()))
  tot += len(want)
  hit += len(want) - len(miss)
  if want:
    print('%-45s %4d/%4d  %s' % (r, len(want) - len(miss), len(want), miss))
print('total %d/%d' % (hit, tot))
