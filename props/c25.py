"""C25: launched pipelines report their own results."""
import contextlib
import copy
import io
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import zlib

import numpy as np

from props.c13 import IDS20
from sim import simio, tools
from sim.core import REPO, Prop, Violation

# the ShapeNet part benchmark: categories, test shapes, parts
CATS = ['02691156', '02773838', '02954340', '02958343', '03001627', '03261776', '03467517', '03624134', '03636649', '03642806', '03790512', '03797390',
        '03948459', '04099429', '04225987', '04379243']
TESTS = [341, 14, 11, 153, 693, 14, 159, 80, 285, 78, 51, 38, 41, 12, 31, 842]
TRAINS = [2348, 62, 44, 717, 3052, 55, 626, 312, 1261, 367, 151, 146, 234, 54, 121, 4421]
PARTS = [4, 2, 2, 4, 4, 3, 3, 2, 4, 2, 6, 2, 3, 3, 3, 3]
FAILS = ['exit', 'partial', 'kill', 'torn']


class Failed(BaseException):
  """The simulated program ends with this wait status."""


def popen_of(system):
  """subprocess.Popen whose commands are simulated programs."""
  class Popen:
    def __init__(self, args, *a, **kw):
      self.args = args
      st = system(args if isinstance(args, str) else ' '.join(shlex.quote(str(x)) for x in args))
      self.returncode = st >> 8 if st & 127 == 0 else -(st & 127)
      self.pid, self.stdin, self.stdout, self.stderr = 4242, None, None, None

    def communicate(self, *a, **kw):
      return None, None

    def wait(self, timeout=None):
      return self.returncode

    poll = wait

    def kill(self):
      pass

    terminate = kill

    def __enter__(self):
      return self

    def __exit__(self, *a):
      pass
  return Popen


class P(Prop):
  id = 'C25'
  runs = {'quick': 400, 'thorough': 20000}
  soft_s = {'quick': 60, 'thorough': 2700}
  run_timeout = 150
  shrink_lists = ('scans', 'faults')
  shrink_min = {'scans': 1}
  rule = ('a run starts a launcher (ScanNet validation, test or training; ShapeNet benchmark) whose commands are simulated programs: the real configuration '
          'parser and the real label tool in processes of their own, network programs by a stand-in, any of which may exit with an error, be killed with part of its '
          'output written, or meet file-system faults; then the launcher is run again without faults; leftovers of earlier runs lie in the same folders; '
          'the reported scores and label files are compared with a reference; non-trivial when a program failed or leftovers exist')
  distinct_measure = 'distinct (launcher, mode, failing program, kind of failure and position, leftovers) tuples'
  real = ['projects/scripts/run_seg_scannet.py, run_seg_shapenet.py', 'projects/tools/seg_scannet.py', 'projects/configs', 'thsolver.config.parse_args, AverageTracker.log']
  stubs = ['shell (os.system, subprocess: each command runs in a process of the simulator)', 'segmentation.py (writes predictions or logs decided by the checkpoint '
           'and the configuration it was given)', 'file-system calls (seam that injects faults)']
  assumptions = ['aliases are lower case, as the configuration makes them', 'a process crash, not power loss']
  required_probes = ('validate', 'test', 'train', 'shapenet', 'leftovers', 'program-failed', 'reported', 'rerun', 'tool-fault', 'launcher-fault', 'ratios',
                     'ckpt-given', 'chunks') + tuple('fail:' + k for k in FAILS)

  def prepare(self, base):
    tools.warm()
    import thsolver.config, thsolver.tracker, yaml  # noqa
    yaml.safe_load = lambda f: yaml.load(f, Loader=yaml.CSafeLoader)
    yaml.safe_dump = lambda d, *a, **k: yaml.dump(d, *a, Dumper=yaml.CSafeDumper, **k)
    os.environ.setdefault('SIM_SO', simio.build())

  def gen(self, rng, idx, tier):
    mode = rng.wchoice([('validate', 5), ('test', 3), ('train', 0.5), ('train_all', 0.5), ('shapenet', 3)])
    faults = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
      w = rng.choice(['program', 'program', 'tool', 'launcher'])
      if w == 'program':
        f = {'what': w, 'kind': rng.choice(FAILS), 'at': rng.random(), 'step': rng.random()}
      else:
        f = {'what': w, 'cls': rng.choice(['rd', 'mut', 'mut']), 'frac': rng.random(), 'step': rng.random(), 'arg': rng.choice(['EIO', 'ENOSPC']), 'count': rng.choice([1, 1000]),
             'where': 'any'}
        f['kind'] = rng.choice(['err', 'err', 'err-from', 'short', 'eintr']) if f['cls'] == 'rd' else rng.choice(
            ['crash-before', 'crash-partial', 'crash-after', 'err', 'err-from', 'short', 'eintr'])
      faults.append(f)
    return {'mode': mode, 'alias': rng.choice(['scannet', 'r4', 'd9_2']), 'ckpt': rng.choice(['', '', 'given']), 'left': rng.choice(['', '', 'other', 'partial']),
            'ratios': rng.choice([None, None, [1.0], [0.5], [0.01], [0.01, 1.0], [0.2, 0.05]]),
            'scans': [{'n': rng.randint(2, 25), 'chunks': rng.choice([0, 0, 0, 1, 3]), 'seed': rng.seed31()} for _ in range(rng.choice([1, 2, 3]))],
            'faults': faults, 'again': rng.choice([1, 1, 2]), 'seed': rng.seed31()}

  def simplify(self, plan):
    for k, v in (('left', ''), ('ckpt', ''), ('ratios', None), ('alias', 'scannet'), ('again', 1)):
      if plan[k] != v:
        p = copy.deepcopy(plan)
        p[k] = v
        yield p
    for i, s in enumerate(plan['scans']):
      if s['chunks']:
        p = copy.deepcopy(plan)
        p['scans'][i]['chunks'] = 0
        yield p

  # -- the simulated installation ------------------------------------------
  def install(self, plan, root, ctx):
    proj = os.path.join(root, 'projects')
    tools.copy_tools(root)
    for d in ('configs', 'scripts'):
      shutil.copytree(os.path.join(REPO, 'projects', d), os.path.join(proj, d))
    g = np.random.RandomState(plan['seed'] % (2 ** 31))
    self.truth = {}
    lists = {'val': [], 'test': []}
    for i, s in enumerate(plan['scans']):
      split = 'test' if plan['mode'] == 'test' else 'val'
      loc = os.path.join(proj, 'data/scannet', 'test' if split == 'test' else 'train')
      os.makedirs(loc, exist_ok=True)
      name = 'scene%04d_00' % (g.randint(700) * 10 + i)
      r = np.random.RandomState(s['seed'] % (2 ** 31))
      n = s['n']
      gt = np.array(IDS20[1:])[r.randint(20, size=n)]
      if split == 'val':
        np.savetxt(os.path.join(loc, name + '.txt'), gt, fmt='%d')
      parts = []
      if s['chunks']:
        ctx.probe('chunks')
      for c in range(s['chunks']):
        m = r.rand(n) < 0.6
        m[r.randint(n)] = True
        nm = '%s.chunk_%d' % (name, c)
        np.save(os.path.join(loc, nm + '.mask.npy'), m)
        np.savez(os.path.join(loc, nm + '.npz'), points=np.zeros([int(m.sum()), 3], np.float32))
        parts.append((nm, m))
      if not parts:
        np.savez(os.path.join(loc, name + '.npz'), points=np.zeros([n, 3], np.float32))
        parts.append((name, None))
      self.truth[name] = (n, gt, parts)
      lists[split] += [p[0] + '.npz' for p in parts]
    d = os.path.join(proj, 'data/scannet')
    for split, l in lists.items():
      with open(os.path.join(d, 'scannetv2_%s.txt' % split), 'w') as f:
        f.write(''.join(x + ' 0\n' for x in l))
    for i, c in enumerate(('trained', 'given', 'other')):
      p = os.path.join(proj, 'logs/scannet/D10_2cm_%s/checkpoints/00600.model.pth' % plan['alias'] if c == 'trained' else c + '.pth')
      os.makedirs(os.path.dirname(p), exist_ok=True)
      with open(p, 'w') as f:
        f.write(str(plan['seed'] + i))
    return proj

  @staticmethod
  def prob(seed, name, n):
    """Predictions of the checkpoint `seed` for one entry of the list (exact sums)."""
    r = np.random.RandomState((seed * 7 + zlib.crc32(name.encode())) % (2 ** 31))
    p = r.randint(0, 1024, [n, 21]) / 1024.0
    return p.astype(np.float32)

  def labels(self, seed, plan):
    out = {}
    for name, (n, gt, parts) in self.truth.items():
      tot = np.zeros([n, 21])
      for nm, m in parts:
        k = n if m is None else int(m.sum())
        p = self.prob(seed, nm, k)
        tot[slice(None) if m is None else m] += p
      out[name] = np.array(IDS20)[tot.argmax(1)]
    return out

  # -- the simulated programs ----------------------------------------------
  def flags(self, argv):
    import thsolver.config as tc
    tc.FLAGS = tc._C.clone()
    tc.FLAGS.defrost()
    sys.argv = list(argv)
    return tc.parse_args()

  def segmentation(self, argv, fail, plan):
    """The stand-in for segmentation.py; `fail` is None or {kind, at}."""
    if fail and fail['kind'] == 'exit':
      raise Failed(256)
    fg = self.flags(argv)
    out = fg.SOLVER.logdir
    os.makedirs(out, exist_ok=True)
    if fg.SOLVER.run == 'evaluate':
      if not os.path.exists(fg.SOLVER.ckpt):
        raise Failed(256)
      seed = int(open(fg.SOLVER.ckpt).read())
      names = [l.split()[0] for l in open(fg.DATA.test.filelist)]
      cut = int(fail['at'] * len(names)) if fail else len(names)
      for i, nm in enumerate(names):
        if i == cut and fail['kind'] != 'torn':
          break
        with np.load(os.path.join(fg.DATA.test.location, nm)) as z:
          n = len(z['points'])
        path = os.path.join(out, nm[:-4] + '.eval.npz')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        np.savez(path, prob=self.prob(seed, nm[:-4], n))
        if i == cut:
          b = open(path, 'rb').read()
          with open(path, 'wb') as f:
            f.write(b[:len(b) // 2])
          break
    else:
      from thsolver.tracker import AverageTracker
      import torch
      log = os.path.join(out, 'log.csv')
      done = 0
      if os.path.exists(log):      # a checkpoint of that epoch is there
        ls = open(log).read().splitlines()
        done = int(re.match(r'Epoch: (\d+)', ls[-1]).group(1)) if ls else 0
      ends = [e for e in range(done + 1, fg.SOLVER.max_epoch + 1) if e % fg.SOLVER.test_every_epoch == 0]
      cut = int(fail['at'] * len(ends)) if fail else len(ends)
      for i, e in enumerate(ends[-4:] if not fail else ends[:cut][-4:]):
        t = AverageTracker()
        s = self.score(plan, fg.DATA.train.filelist, fg.DATA.train.take, e)
        v = {'test/loss': 0.5, 'test/accu': 1 - s / 2, 'test/mIoU': s}
        for k in range(fg.LOSS.num_class):
          v['test/intsc_%d' % k] = 3.0
          v['test/union_%d' % k] = 4.0
        v['test/mIoU_part'] = 0.75
        t.update({k: torch.tensor(x) for k, x in v.items()})
        with contextlib.redirect_stdout(io.StringIO()):
          t.log(e, None, log, msg_tag='=>')
    if fail:
      raise Failed(9 if fail['kind'] in ('kill', 'torn') else 256)

  @staticmethod
  def score(plan, filelist, take, epoch):
    r = zlib.crc32(('%d %s %s %d' % (plan['seed'], filelist, take, epoch)).encode())
    return (r % 1001) / 1000.0

  def shell(self, plan, root, record, fails, toolfaults):
    """os.system of the launcher."""
    def system(cmd):
      argv = shlex.split(cmd)
      i = len(record)
      rec = {'cmd': cmd, 'status': None, 'nmut': 0, 'nrd': 0, 'fired': False, 'tool': False}
      record.append(rec)
      if argv[:2] == ['python', 'segmentation.py']:
        # the stand-in runs in this process, outside the launcher's seam
        rec['fired'] = i in fails
        rec['status'] = 0
        keep = sys.argv
        with simio.Disarmed(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
          try:
            self.segmentation(argv[1:], fails.get(i), plan)
          except Failed as e:
            rec['status'] = e.args[0]
          except BaseException:
            import traceback
            rec.update(status=256, why=traceback.format_exc()[-500:])
        sys.argv = keep
      elif len(argv) > 1 and argv[0] == 'python' and argv[1].startswith('tools/'):
        keep = []

        def fn():
          tools.run_tool(os.path.join(os.getcwd(), 'tools'), os.path.basename(argv[1])[:-3], argv[2:], keep=keep)
          return ''.join(keep)
        r = simio.run_in_child(fn, root, toolfaults.get(i, []))
        rec.update(tool=True, nmut=r['nmut'], nrd=r['nrd'], fired=any(r['fired']), ops=r.get('ops'))
        rec['status'] = 0 if r['status'] == 'ok' else 9 if r['status'] in ('crash', 'died') else 256
        if r['status'] == 'ok':
          print(r['value'])
        elif r['status'] == 'raise':
          rec['why'] = r['error']
      else:
        rec['status'] = 127 << 8
      return rec['status']
    return system

  def launch(self, plan, root, fails, toolfaults, faults):
    proj = os.path.join(root, 'projects')
    shp = plan['mode'] == 'shapenet'
    argv = ['--alias', plan['alias']]
    if plan['ckpt']:
      argv += ['--ckpt', plan['ckpt'] + '.pth']
    if shp:
      argv += ['--ratios'] + [str(r) for r in plan['ratios']] if plan['ratios'] else []
    else:
      argv += ['--run', plan['mode']]

    def fn():
      os.chdir(proj)
      record, text = [], []
      os.system = self.shell(plan, root, record, fails, toolfaults)
      subprocess.Popen = popen_of(os.system)
      code = None
      try:
        tools.run_tool(os.path.join(proj, 'scripts'), 'run_seg_shapenet' if shp else 'run_seg_scannet', argv, keep=text)
      except SystemExit as e:
        code = e.code
      except Exception as e:
        code = '%s: %s' % (type(e).__name__, e)
      return {'record': record, 'text': ''.join(text), 'error': code}
    return simio.run_in_child(fn, root, faults)

  # ----------------------------------------------------------------------
  def execute(self, plan, ctx):
    root = os.path.join(ctx.scratch, 'w')
    os.makedirs(root)
    mode = plan['mode']
    ctx.probe('train' if mode == 'train_all' else mode)
    if plan['ckpt']:
      ctx.probe('ckpt-given')
    if mode == 'shapenet' and plan['ratios'] and len(plan['ratios']) > 1:
      ctx.probe('ratios')
    proj = self.install(plan, root, ctx)
    self.final = {}
    if mode == 'shapenet':      # where the trainings end, from a launch in empty folders
      bare = os.path.join(ctx.scratch, 'b')
      shutil.copytree(root, bare)
      self.launch(plan, bare, {}, {}, [])
      for d, _, fs in os.walk(os.path.join(bare, 'projects/logs/seg_shapenet')):
        if 'log.csv' in fs:
          self.final[os.path.relpath(d, bare)] = self.last(os.path.join(d, 'log.csv'))
    self.leftovers(plan, root, ctx)
    # the undisturbed run, on a copy, tells where the faults can strike
    clean = os.path.join(ctx.scratch, 'c')
    shutil.copytree(root, clean)
    r = self.launch(plan, clean, {}, {}, [])
    self.judge(plan, os.path.join(clean, 'projects'), r, 'an undisturbed run', ctx)
    if r['status'] != 'ok' or r['value']['error'] not in (None, 0):
      raise Violation('unexpected-error', '%s: %s' % (mode, r['value']['error'] if r['status'] == 'ok' else r.get('error') or r['status']))
    rec = r['value']['record']
    ctx.log(mode, [x['cmd'].split()[:2] for x in rec])
    if not plan['faults']:
      ctx.state((mode, plan['left'], plan['ckpt']))
      if plan['left']:
        ctx.nontrivial = True
      return
    fails, toolfaults, faults, names = {}, {}, [], []
    for f in plan['faults']:
      progs = [i for i, x in enumerate(rec) if not x['tool']]
      tl = [i for i, x in enumerate(rec) if x['tool']]
      if f['what'] == 'program' and progs:
        i = progs[int(f['step'] * len(progs))]
        fails[i] = f
        names.append('program %d: %s' % (i, f['kind']))
      elif f['what'] == 'tool' and tl:
        i = tl[int(f['step'] * len(tl))]
        toolfaults.setdefault(i, []).append(simio.aim(f, rec[i]))
        names.append('tool %d: %s' % (i, f['kind']))
      elif f['what'] == 'launcher' and (r['nmut'] if f['cls'] == 'mut' else r['nrd']):
        faults.append(simio.aim(f, r))
        names.append('launcher: %s' % f['kind'])
    at = ', '.join(names) or 'nothing'
    for k in range(plan['again']):
      r = self.launch(plan, root, fails, toolfaults, faults)
      simio.count_fired(ctx, faults, r['fired'])
      if any(r['fired']):
        ctx.probe('launcher-fault')
        ctx.nontrivial = True
      if r['status'] == 'ok':
        for i, x in enumerate(r['value']['record']):
          if x['fired']:
            ctx.nontrivial = True
            kind = fails[i]['kind'] if i in fails else 'io'
            ctx.fault('program:' + kind if i in fails else 'tool:' + toolfaults[i][0]['kind'])
            ctx.probe('fail:' + kind if i in fails else 'tool-fault')
            if x['status']:
              ctx.probe('program-failed')
      if r['status'] == 'raise':
        raise Violation('unexpected-error', '%s: %s' % (mode, r['error']))
      self.judge(plan, proj, r, 'run with ' + at, ctx)
      ctx.count('steps', r['nmut'] + r['nrd'])
      ctx.log(at, r['status'], [x['status'] for x in r['value']['record']] if r['status'] == 'ok' else None)
    ctx.state((mode, plan['left'], at))
    ctx.probe('rerun')
    r = self.launch(plan, root, {}, {}, [])
    if r['status'] != 'ok' or r['value']['error'] not in (None, 0):
      raise Violation('rerun-failed', '%s after %s: %s' % (mode, at, (r['value']['error'], [x.get('why') for x in r['value']['record']]) if r['status'] == 'ok' else r.get('error') or r['status']))
    self.judge(plan, proj, r, 'rerun after ' + at, ctx)

  def leftovers(self, plan, root, ctx):
    """An earlier run of the same launcher with another checkpoint (other seed)."""
    if not plan['left']:
      return
    ctx.probe('leftovers')
    p = dict(plan, ckpt='other')
    fails = {}
    if plan['mode'] == 'shapenet':
      if plan['left'] == 'partial':
        fails = {3: {'kind': 'kill', 'at': 0.5}}
      else:
        return      # a finished benchmark is what a rerun continues from
    elif plan['left'] == 'partial':
      fails = {0: {'kind': 'partial', 'at': 0.5}}
    self.launch(p, root, fails, {}, [])

  def judge(self, plan, proj, r, what, ctx):
    """A launcher that ends without an error has run everything and reports
    what the checkpoint gives."""
    if r['status'] == 'crash':
      return
    if r['status'] != 'ok':
      raise Violation('process-died', '%s: %s: %s' % (plan['mode'], what, r.get('error') or r['status']))
    v = r['value']
    bad = [i for i, x in enumerate(v['record']) if x['status']]
    what = '%s: %s' % (plan['mode'], what)
    said = re.findall(r'(?m)^IoU:\s*(\S+)', v['text'])
    if v['error'] not in (None, 0):
      ctx.probe('reported')
      if not bad and not any(r['fired']):
        raise Violation('unexpected-error', '%s: %s' % (what, v['error']))
      if said and bad and plan['mode'] == 'validate':
        # a score was printed although a program failed before it
        raise Violation('score-after-failure', '%s: a score is reported although program %d failed' % (what, bad[0]))
      return
    if bad:
      x = v['record'][bad[0]]
      raise Violation('failure-ignored', '%s: the launcher ends without an error although program %d (%s) ended with status %d%s' % (
          what, bad[0], ' '.join(x['cmd'].split()[:2]), x['status'], '; it reports IoU %s' % said[-1] if said else ''))
    seed = plan['seed'] + (1 if plan['ckpt'] else 0)
    if plan['mode'] in ('validate', 'test'):
      lab = self.labels(seed, plan)
      k = 'val' if plan['mode'] == 'validate' else 'test'
      d = os.path.join(proj, 'logs/scannet/D10_2cm_eval_%s_seg_%s' % (k, plan['alias']))
      for name, l in lab.items():
        p = os.path.join(d, name + '.txt')
        if not os.path.exists(p):
          raise Violation('files', '%s: no labels of %s' % (what, name))
        got = np.loadtxt(p, ndmin=1)
        if got.shape != l.shape or (got != l).any():
          raise Violation('labels', '%s: the labels of %s are not those of the checkpoint' % (what, name))
      if plan['mode'] == 'validate':
        iou = 0.0
        gt = np.concatenate([self.truth[n][1] for n in lab])
        pr = np.concatenate([lab[n] for n in lab])
        for c in IDS20[1:]:
          u = ((gt == c) | (pr == c)).sum()
          iou += ((gt == c) & (pr == c)).sum() / u if u else 0.0
        if not said or abs(float(said[-1]) - iou / 20) > 2e-6:
          raise Violation('score', '%s: IoU %s, the predictions of the checkpoint give %.6f' % (what, said, iou / 20))
    elif plan['mode'] == 'shapenet':
      self.summary(plan, proj, what)
    elif len(v['record']) != 1 or not v['record'][0]['cmd'].startswith('python segmentation.py'):
      raise Violation('commands', '%s: %s' % (what, [x['cmd'] for x in v['record']]))

  @staticmethod
  def last(log):
    with open(log) as f:
      return int(re.match(r'Epoch: (\d+)', f.read().splitlines()[-1]).group(1))

  def summary(self, plan, proj, what):
    p = os.path.join(proj, 'logs/seg_shapenet', plan['alias'], 'summaries.csv')
    if not os.path.exists(p):
      raise Violation('files', '%s: no summary' % what)
    rows = {}
    head = None
    for line in open(p).read().splitlines():
      c = [x.strip() for x in line.split(',')]
      if c[0] == 'names':
        head = c[1:]
      m = re.fullmatch(r'Ratio:(\S+)', c[0])
      if m:
        rows[m.group(1)] = [float(x) for x in c[1:]]
    if head is None or len(head) != 18:
      raise Violation('summary', '%s: no header' % what)
    for ratio in plan['ratios'] or [1.0]:
      want = []
      for k, cat in enumerate(CATS):
        take = int(np.ceil(TRAINS[k] * ratio))
        log = [d for d, _, fs in os.walk(os.path.join(proj, 'logs/seg_shapenet', plan['alias'])) if 'log.csv' in fs and cat in d and d.endswith('ratio_%.2f' % ratio)]
        if len(log) != 1:
          raise Violation('summary', '%s: no log of category %s' % (what, cat))
        last = self.last(os.path.join(log[0], 'log.csv'))
        end = self.final.get(os.path.relpath(log[0], os.path.dirname(proj)))
        if last != end:
          raise Violation('summary', '%s: the training of category %s, ratio %.2f, ended after epoch %s of %s' % (what, cat, ratio, last, end))
        want.append(round(self.score(plan, 'data/shapenet_segmentation/filelist/%s_train_val.txt' % cat, take, last), 3))
      got = rows.get('%.2f' % ratio)
      if got is None or len(got) != 18:
        raise Violation('summary', '%s: no row of ratio %.2f' % (what, ratio))
      for k in range(16):
        if abs(got[k] - want[k]) > 1e-6:
          raise Violation('summary', '%s: category %s, ratio %.2f: %.3f, its training reached %.3f' % (what, CATS[k], ratio, got[k], want[k]))
      c, i = np.mean(want), np.sum(np.array(want) * TESTS) / np.sum(TESTS)
      if abs(got[16] - c) > 6e-4 or abs(got[17] - i) > 6e-4:
        raise Violation('summary', '%s: ratio %.2f: averages %.3f and %.3f, the rows give %.3f and %.3f' % (what, ratio, got[16], got[17], c, i))


PROP = P()
