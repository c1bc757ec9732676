#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough]   |   check.py --replay FILE"""
import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
       'PYTHONDONTWRITEBYTECODE': '1', 'CUDA_VISIBLE_DEVICES': '', 'TQDM_DISABLE': '1',
       'MKL_CBWR': 'COMPATIBLE', 'ATEN_CPU_CAPABILITY': 'default'}


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop', nargs='?')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--replay')
  a = ap.parse_args()
  pid = a.prop
  if a.replay:
    pid = json.load(open(a.replay))['property']
  sys.path.insert(0, HERE)
  from sim import core, simio
  # everything that must be fixed before torch loads goes through one re-exec
  if os.environ.get('SIM_REEXEC') != '1':
    env = dict(os.environ)
    env.update(ENV)
    env['SIM_REEXEC'] = '1'
    so = simio.build()
    env['LD_PRELOAD'] = so
    env['SIM_SO'] = so
    os.execve(sys.executable, [sys.executable, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)
  sys.path.insert(0, os.path.join(core.REPO, 'projects'))
  sys.path.insert(0, core.REPO)
  code = 2
  try:
    from sim import boot
    boot.boot()
    mod = importlib.import_module('props.' + pid.lower())
    prop = mod.PROP
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.replay:
      code = core.run_replay(prop, a.replay)
    else:
      code = core.run_check(prop, a.tier, seed)
  except SystemExit:
    raise
  except BaseException:
    import traceback
    traceback.print_exc()
    code = 2
  finally:
    simio.cleanup()
  sys.stdout.flush()
  sys.exit(code)


if __name__ == '__main__':
  main()
