"""C23: results are reproducible from inputs, weights and seeds."""
import copy
import gc
import json
import os
import pickle
import random
import subprocess
import sys
import time

import numpy as np
import torch
import ocnn

from props import c01, c02
from sim import catalog, datasets, gen, snap, tools
from sim.core import HarnessError, Prop, VERIF, Violation, sut
from sim.torchseam import OpSeam

POISON = ['nan', 'inf', 'big', 'varied']
CLOCKS = ('time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns', 'perf_counter_ns', 'process_time')


class Environment:
  """What may differ between two executions of the same program."""

  def __init__(self, env, scratch):
    self.env = env
    self.seam = OpSeam(poison=env['poison'])

  def __enter__(self):
    e = self.env
    g = random.Random(e['seed'])
    # the clock: another date, jumps forwards and backwards
    off = g.choice([0, 86400 * 365 * 3, -86400 * 900])
    for n in CLOCKS:
      real = getattr(time, n)
      k = 10 ** 9 if n.endswith('_ns') else 1
      jump = [0]

      def fake(real=real, k=k, jump=jump):
        jump[0] += g.choice([0, 0, 1, 3600, -7])
        v = real() + (off + jump[0]) * k
        return int(v) if k > 1 else v
      setattr(time, n, fake)
    # entropy
    def urandom(n):
      return bytes(g.randrange(256) for _ in range(n))
    os.urandom = urandom
    random._urandom = urandom
    os.getpid = lambda: e['seed'] % 30000 + 2
    # addresses: objects allocated before
    self.junk = [[object() for _ in range(g.randrange(50))] for _ in range(g.randrange(400))]
    self.junk2 = [torch.empty(g.randrange(1, 3000)) for _ in range(g.randrange(60))]
    del self.junk[::3], self.junk2[::2]
    if g.random() < 0.5:
      gc.disable()
    tools.listing_order(e['seed'])
    os.environ['TZ'] = g.choice(['UTC', 'Asia/Tokyo', 'America/Lima'])
    os.environ['LANG'] = g.choice(['C', 'C.UTF-8'])
    self.seam.__enter__()
    return self

  def __exit__(self, *a):
    self.seam.__exit__(*a)


class P(Prop):
  id = 'C23'
  runs = {'quick': 700, 'thorough': 40000}
  soft_s = {'quick': 100, 'thorough': 2700}
  run_timeout = 150
  shrink_lists = ('steps',)
  shrink_min = {'steps': 1}
  rule = ('a run executes one history of 1-6 uses (construction with the own initialisation of the layers, training steps with random depth and '
          'momentum statistics, augmented dataset visits, growth, queries, collation, saving) twice, each time in a process of its own, with the '
          'same seeds but another clock (date and jumps), entropy source, process id, contents of fresh memory, addresses of objects, directory '
          'order, time zone, garbage collection and earlier work, in some runs in a new interpreter with another hash seed; every result is '
          'compared bit by bit after each use; non-trivial when a use draws random numbers or two different uses ran')
  distinct_measure = 'distinct (uses, operators, dataset, difference of environments) histories'
  real = ['ocnn.octree, ocnn.nn, ocnn.modules, ocnn.models, ocnn.dataset, ocnn.utils', 'all datasets of projects/datascts', 'torch generators and kernels']
  stubs = ['clock', 'entropy source of the operating system', 'contents of fresh memory', 'directory listing order', 'process id']
  assumptions = ['the caller seeds torch, numpy and random', 'one thread of CPU arithmetic, so that results are equal bit by bit']
  required_probes = ('init', 'train', 'visit', 'distort', 'net', 'hashseed', 'earlier-work', 'grow', 'save', 'droppath', 'collate') + tuple(
      'kind:' + k for k in datasets.KINDS)

  def prepare(self, base):
    datasets.warm()

  def gen(self, rng, idx, tier):
    D, F = rng.choice([3, 3, 4]), rng.choice([1, 2, 2])
    clouds = [gen.cloud_spec(rng, 2, 20) for _ in range(rng.choice([1, 2, 2, 3]))]
    ops = []
    for _ in range(rng.randint(1, 3)):
      while True:
        c = catalog.gen_net(rng, D, F, full_unet=0) if rng.chance(0.3) else catalog.gen_op(rng, D, F, ['droppath'] if rng.chance(0.15) else None)
        if catalog.supported(c, D, F):
          ops.append(c)
          break

    def history(n):
      steps = []
      for _ in range(n):
        steps.append({'do': rng.wchoice([('init', 3), ('train', 4), ('op', 2), ('bwd', 2), ('build', 1), ('neigh', 0.5), ('grow', 1), ('merge', 1), ('mergepts', 0.5),
                                         ('collate', 1), ('query', 1), ('points', 0.5), ('growcopy', 0.5), ('visit', 5), ('save', 1)]),
                      'i': rng.randrange(1000), 'b': rng.chance(0.5), 'n': rng.choice([1, 1, 2, 3]), 'p': rng.choice([0.2, 0.5, 1.0]),
                      'which': [rng.randrange(4) for _ in range(rng.randint(1, 3))], 'scene': rng.choice([0, 1]), 'seed': rng.seed31()})
      return steps
    envs = [{'seed': rng.seed31(), 'poison': p, 'earlier': history(rng.choice([0, 0, 1, 3])), 'hash': None} for p in rng.sample(POISON, 2)]
    if rng.chance(0.06):
      envs[1]['hash'] = rng.randrange(1, 1000)
    return {'depth': D, 'full': F, 'clouds': clouds, 'ops': ops, 'steps': history(rng.choice([1, 2, 3, 4, 6])), 'envs': envs, 'kind': rng.choice(datasets.KINDS),
            'samples': [gen.cloud_spec(rng, 3, 20) for _ in range(rng.choice([1, 2, 3]))],
            'cfg': {'depth': D, 'full': F, 'distort': rng.chance(0.7), 'angle': rng.choice([[0, 0, 0], [0, 180, 0], [5, 5, 5]]),
                    'interval': rng.choice([[1, 1, 1], [5, 5, 5]]), 'scale': rng.choice([0.0, 0.25]), 'uniform': rng.chance(0.5),
                    'jitter': rng.choice([0.0, 0.125]), 'flip': rng.choice([[0, 0, 0], [0.5, 0.5, 0.5]]), 'orient': rng.choice(['', 'x']),
                    'in_memory': rng.chance(0.5), 'merge': rng.chance(0.5)}, 'seed': rng.seed31()}

  def simplify(self, plan):
    for j in (0, 1):
      if plan['envs'][j]['earlier']:
        p = copy.deepcopy(plan)
        p['envs'][j]['earlier'] = []
        yield p
    for i in range(len(plan['ops'])):
      if len(plan['ops']) > 1:
        p = copy.deepcopy(plan)
        del p['ops'][i]
        yield p
    if plan['envs'][1]['hash']:
      p = copy.deepcopy(plan)
      p['envs'][1]['hash'] = None
      yield p

  # ----------------------------------------------------------------------
  def step(self, w, o, a, plan, scratch):
    """Returns a JSON-able digest of the result."""
    k, D, F = a['do'], w.D, w.F
    if k == 'visit':
      n = len(plan['samples'])
      ids = range(n) if a['b'] else [a['i'] % n]
      batch = [o.dataset[i] for i in ids]
      r = {'samples': snap.any_(batch)}
      r['batch'] = snap.any_(o.collate(batch))
      return r
    if k == 'save':
      p = w.points[a['i'] % len(w.points)]
      path = os.path.join(scratch, 'p.' + ('npz' if a['b'] else 'xyz'))
      p.save(path)
      if a['b']:
        with np.load(path) as z:
          return snap.any_({n: z[n] for n in z.files})
      return open(path).read()
    if k == 'init':
      cfg = plan['ops'][a['i'] % len(plan['ops'])]
      m = catalog.make(cfg, D, F)
      return snap.module(m) if m is not None else {}
    if k == 'train':
      i = a['i'] % len(plan['ops'])
      cfg, m, x = plan['ops'][i], w.mods[i], w.x[i][0]
      r = {}
      if m is not None:
        m.train()
      try:
        if x is not None and x.is_floating_point():
          x = x.clone().requires_grad_()
        outs = catalog.run(cfg, m, w.batch, D, F, x, w.pts[i][0])
        for q in outs:
          r[q.name] = snap.any_(q.t)
        fl = [q.t for q in outs if q.t.is_floating_point() and q.t.requires_grad]
        if fl:
          sum((t * torch.sin(torch.arange(t.numel()).view(t.shape) * 0.9)).sum() for t in fl).backward()
          if x is not None:
            r['gx'] = snap.any_(x.grad) if x.grad is not None else None
        if m is not None:
          with torch.no_grad():
            for p in m.parameters():
              if p.grad is not None:
                p.sub_(p.grad, alpha=1e-3)
          r['state'] = snap.module(m)
      except ValueError as e:      # statistics of a single row: documented by torch
        if 'more than 1 value per channel' not in str(e):
          raise
        return 'single row'
      finally:
        if m is not None:
          m.eval()
      return r
    if k in ('op', 'bwd', 'query', 'points', 'growcopy', 'merge', 'mergepts'):
      res = c01.act(w, a, plan)
    else:
      res = c02.prepare(w, a, plan)[0]()
    return snap.any_({n: v for n, v in res.items() if isinstance(v, torch.Tensor) and v.device.type == 'cpu'})

  def world(self, plan, env, scratch):
    """One execution; returns the digests after every step."""
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    with Environment(env, scratch):
      if env['earlier']:
        # other work of the same process, over objects of its own
        datasets.full_seed(env['seed'])
        w0 = c01.World(plan)
        o0 = datasets.open_(plan['kind'], scratch + '/earlier', plan['samples'], plan['cfg'])
        for a in env['earlier']:
          self.step(w0, o0, a, plan, scratch)
        if env['seed'] % 2:
          del w0, o0
      datasets.full_seed(plan['seed'])
      o = datasets.open_(plan['kind'], scratch + '/data', plan['samples'], plan['cfg'])
      w = c01.World(plan)
      out = []
      for i, a in enumerate(plan['steps']):
        datasets.full_seed(a['seed'])
        before = self.generators()
        r = self.step(w, o, a, plan, scratch)
        after = self.generators()
        out.append({'result': r, 'generators': after, 'drew': before != after})
    return out

  def generators(self):
    s = np.random.get_state()
    return [snap.any_(torch.get_rng_state()), snap.any_(s[1]), s[2], hash(random.getstate())]

  def execute(self, plan, ctx):
    res = []
    for j, env in enumerate(plan['envs']):
      scratch = os.path.join(ctx.scratch, 'env%d' % j)
      st, v = self.exec_new(plan, j, scratch) if env['hash'] else self.in_child(plan, j, scratch)
      if st == 'violation':
        raise Violation('unexpected-error', 'environment %d: %s' % (j, v))
      if st == 'error':
        raise HarnessError(v)
      res.append(v)
      if env['hash']:
        ctx.probe('hashseed')
        ctx.fault('hash-seed')
      if env['earlier']:
        ctx.probe('earlier-work')
      for f in ('clock', 'entropy', 'memory:' + env['poison'], 'addresses', 'directory-order'):
        ctx.fault(f)
    for i, a in enumerate(plan['steps']):
      cfg = plan['ops'][a['i'] % len(plan['ops'])]
      ctx.probe(a['do'])
      if a['do'] in ('train', 'op', 'bwd', 'init'):
        if cfg['op'] in catalog.NETS:
          ctx.probe('net')
        if cfg['op'] == 'droppath' and a['do'] == 'train':
          ctx.probe('droppath')
      if a['do'] == 'visit':
        ctx.probe('kind:' + plan['kind'])
        if plan['cfg']['distort']:
          ctx.probe('distort')
      if res[0][i]['drew']:
        ctx.nontrivial = True
      d = first_diff(res[0][i], res[1][i], '')
      if d:
        what = '%s %s' % (a['do'], cfg['op'] if a['do'] in ('train', 'op', 'bwd', 'init') else plan['kind'] if a['do'] == 'visit' else '')
        raise Violation('not-reproducible', 'step %d %s: %s differs between two executions with the same seeds' % (i, what.strip(), d))
      ctx.log(i, a['do'], json.dumps(res[0][i]['result'], sort_keys=True) if a['do'] != 'save' else 'saved')
      ctx.count('steps')
    if len({a['do'] for a in plan['steps']}) > 1:
      ctx.nontrivial = True
    ctx.state(([a['do'] for a in plan['steps']], [c['op'] for c in plan['ops']], plan['kind'], [e['poison'] for e in plan['envs']]))

  def in_child(self, plan, j, scratch):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        os.close(rfd)
        out = self.guarded(plan, j, scratch)
        with os.fdopen(wfd, 'wb') as f:
          pickle.dump(out, f)
      finally:
        os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
      data = f.read()
    os.waitpid(pid, 0)
    if not data:
      raise HarnessError('the environment ended without a result')
    return pickle.loads(data)

  def guarded(self, plan, j, scratch):
    try:
      with sut('history'):
        return 'ok', self.world(plan, plan['envs'][j], scratch)
    except Violation as v:
      return 'violation', v.detail
    except BaseException as e:
      import traceback
      return 'error', '%s\n%s' % (e, traceback.format_exc()[-3000:])

  def exec_new(self, plan, j, scratch):
    os.makedirs(scratch, exist_ok=True)
    path = os.path.join(scratch, 'plan.json')
    with open(path, 'w') as f:
      json.dump(plan, f)
    env = dict(os.environ, PYTHONHASHSEED=str(plan['envs'][j]['hash']))
    p = subprocess.run([sys.executable, '-B', '-c', 'import sys; sys.path[:0] = %r; from props import c23; c23.main(%r, %d, %r)' % (
        [VERIF] + [x for x in sys.path if x.startswith(os.environ.get('SIM_REPO', '/repo'))], path, j, scratch)],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=140, cwd=scratch)
    if p.returncode or not os.path.exists(path + '.out'):
      raise HarnessError('new interpreter: %s' % p.stderr.decode(errors='replace')[-2000:])
    with open(path + '.out', 'rb') as f:
      return pickle.load(f)


def first_diff(a, b, path):
  if isinstance(a, dict) and isinstance(b, dict):
    for k in sorted(set(a) | set(b), key=str):
      d = first_diff(a.get(k), b.get(k), '%s/%s' % (path, k))
      if d:
        return d
    return None
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
    for i, (x, y) in enumerate(zip(a, b)):
      d = first_diff(x, y, '%s[%d]' % (path, i))
      if d:
        return d
    return None
  return None if a == b else path or 'value'


def main(path, j, scratch):
  """One execution in a new interpreter."""
  from sim import boot
  boot.boot()
  datasets.warm()
  plan = json.load(open(path))
  out = PROP.guarded(plan, j, scratch)
  with open(path + '.out.tmp', 'wb') as f:
    pickle.dump(out, f)
  os.rename(path + '.out.tmp', path + '.out')


PROP = P()
