"""Development helper (no check uses it): makes and confirms a planted bug.

plant.py ID  - reads /verif/seeded/ID/edit.py style arguments from stdin:
  JSON {"property":..,"needs":..,"what_it_breaks":..,"edits":[[file, old, new],..],"demo": python source}
Confirms in a scratch copy: applies, stable tests pass, demo 0 clean / nonzero patched.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None):
  return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                        env={**os.environ, **(env or {})})


def main():
  ident = sys.argv[1]
  spec = json.load(sys.stdin)
  scratch = '/tmp/plant.%s' % ident
  shutil.rmtree(scratch, ignore_errors=True)
  subprocess.check_call(['cp', '-a', '/repo', scratch])
  try:
    sh('git checkout -q -- . && git clean -qfd', scratch)
    for f, old, new in spec['edits']:
      p = os.path.join(scratch, f)
      s = open(p).read()
      if s.count(old) != 1:
        print('EDIT: %d matches in %s for %r' % (s.count(old), f, old))
        return 1
      open(p, 'w').write(s.replace(old, new))
    d = os.path.join(HERE, 'seeded', ident)
    os.makedirs(d, exist_ok=True)
    diff = sh('git diff', scratch).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(spec['demo'])
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD:$PWD/projects:$PWD/projects/tools" '
        'PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=\n'
        'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    json.dump({k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, '/repo')
    b = sh('bash %s/demo.sh' % d, scratch)
    env = {'PYTHONPATH': scratch, 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1'}
    base = json.load(open('/opt/vp/BASELINE.json'))
    t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider test 2>&1 | tail -8', scratch, env)
    print('clean demo:', a.returncode, a.stdout[-300:] if a.returncode else '')
    print('patched demo:', b.returncode, b.stdout[-400:])
    print('tests:', t.stdout.strip().splitlines()[-1])
    ok = a.returncode == 0 and b.returncode != 0 and '25 passed' in t.stdout
    print('KEEP' if ok else 'REJECT', ident)
    return 0 if ok else 1
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


sys.exit(main())
