"""C22: repeated use accumulates nothing."""
import collections
import copy
import gc
import os
import tempfile
import threading

import numpy as np
import torch
import ocnn

from props import c01, c02
from sim import catalog, datasets, faults, gen, threads
from sim.core import Prop, Violation, sut
from sim.torchseam import INJECTED, KINDS, OpSeam

ROUNDS, WARM, CYCLE = 11, 5, 3
SIZED = (list, dict, set, bytearray, collections.deque)


class Lasting:
  """What lives as long as the process: layers, an octree object that is used
  again, a dataset, a collate function."""


class P(Prop):
  id = 'C22'
  runs = {'quick': 400, 'thorough': 20000}
  soft_s = {'quick': 60, 'thorough': 2700}
  run_timeout = 150
  shrink_lists = ('steps',)
  shrink_min = {'steps': 1}
  rule = ('a run repeats one history of 1-5 uses (building, growing, merging, collating, operators and networks with and without gradients, '
          'dataset visits, saving, constructing layers) for 11 rounds over long-lived layers, datasets and an octree object, on inputs that '
          'change from round to round, some uses failing midway in every round or running on a thread of their own; when the results are '
          'dropped, what is still alive is counted after every round; non-trivial when a use failed midway, or three different uses ran')
  distinct_measure = 'distinct (uses, operators, fault sites) histories'
  real = ['ocnn.octree, ocnn.nn, ocnn.modules, ocnn.models, ocnn.dataset, ocnn.utils', 'all datasets of projects/datascts', 'torch autograd',
          'CPython reference counting and garbage collector', 'file system']
  stubs = ['allocator and interrupt source (OpSeam, line seam)']
  assumptions = ['a use accumulates something when the count grows in every one of the last five of eleven rounds',
                 'memory held by C++ code alone is seen through the Python objects that own it',
                 'the inputs return every three rounds, so that a store bounded by the number of distinct inputs is not an accumulation']
  required_probes = ('build', 'grow', 'merge', 'collate', 'op', 'bwd', 'net', 'visit', 'save', 'make', 'reuse', 'fault', 'thread', 'in-memory', 'neigh',
                     'train')

  def prepare(self, base):
    datasets.warm()

  def gen(self, rng, idx, tier):
    D, F = rng.choice([3, 3, 4]), rng.choice([1, 2, 2])
    clouds = [gen.cloud_spec(rng, 2, 16) for _ in range(rng.choice([1, 2, 2]))]
    ops = []
    for _ in range(rng.randint(1, 2)):
      while True:
        c = catalog.gen_net(rng, D, F, full_unet=0) if rng.chance(0.25) else catalog.gen_op(rng, D, F)
        if catalog.supported(c, D, F):
          ops.append(c)
          break
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
      a = {'do': rng.wchoice([('op', 5), ('bwd', 4), ('train', 2), ('build', 2), ('neigh', 1), ('split', 0.7), ('grow', 1.5), ('growfull', 0.5), ('merge', 1.5),
                              ('mergepts', 0.7), ('collate', 1.5), ('to', 0.7), ('query', 1), ('growcopy', 0.7), ('points', 0.7), ('make', 2),
                              ('visit', 4), ('save', 1.5), ('reuse', 2)]),
           'i': rng.randrange(1000), 'b': rng.chance(0.5), 'n': rng.choice([1, 1, 2, 3]), 'p': rng.choice([0.2, 0.5, 1.0]),
           'which': [rng.randrange(4) for _ in range(rng.randint(1, 3))], 'scene': rng.choice([0, 1]), 'thread': rng.chance(0.15),
           'fault': faults.gen_fault(rng) if rng.chance(0.35) else None}
      if a['do'] == 'make':
        while True:
          c = catalog.gen_op(rng, D, F, catalog.CONV + ['groupnorm', 'resblocks', 'maxpool', 'globalpool', 'interp', 'avgpool'])
          if catalog.supported(c, D, F):
            break
        c['default_kernel'] = rng.chance(0.5)
        a['cfg'] = c
      steps.append(a)
    kind = rng.choice(datasets.KINDS)
    return {'depth': D, 'full': F, 'clouds': clouds, 'ops': ops, 'steps': steps, 'kind': kind, 'samples': [gen.cloud_spec(rng, 3, 20) for _ in range(2)],
            'cfg': {'depth': D, 'full': F, 'distort': rng.chance(0.7), 'angle': rng.choice([[0, 0, 0], [0, 180, 0], [5, 5, 5]]), 'interval': [1, 1, 1],
                    'scale': rng.choice([0.0, 0.25]), 'uniform': rng.chance(0.5), 'jitter': rng.choice([0.0, 0.125]),
                    'flip': rng.choice([[0, 0, 0], [0.5, 0.5, 0.5]]), 'orient': rng.choice(['', 'x']), 'in_memory': rng.chance(0.5), 'merge': rng.chance(0.5)},
            'seed': rng.seed31()}

  def simplify(self, plan):
    for i, s in enumerate(plan['steps']):
      for k, v in (('fault', None), ('thread', False)):
        if s[k] != v:
          p = copy.deepcopy(plan)
          p['steps'][i][k] = v
          yield p
    if len(plan['ops']) > 1:
      for i in range(len(plan['ops'])):
        p = copy.deepcopy(plan)
        del p['ops'][i]
        yield p

  # ----------------------------------------------------------------------
  def variant(self, plan, k):
    """The inputs of round k."""
    k %= CYCLE
    p = dict(plan)
    p['clouds'] = [dict(c, seed=(c['seed'] + 977 * k) % (1 << 31), n=c['n'] + 3 * k) for c in plan['clouds']]
    return p

  def lasting(self, plan, scratch, k=0):
    L = Lasting()
    L.mods = [catalog.build(c, plan['depth'], plan['full'], train=False) for c in plan['ops']]
    L.octree = ocnn.octree.Octree(plan['depth'], plan['full'])
    L.o = None
    if any(s['do'] == 'visit' for s in plan['steps']):
      L.o = datasets.open_(plan['kind'], scratch, plan['samples'], plan['cfg'])
    return L

  def step(self, L, w, a, plan, scratch, rnd):
    k, D, F = a['do'], w.D, w.F
    if k == 'visit':
      n = len(plan['samples'])
      batch = [L.o.dataset[i] for i in (range(n) if a['b'] else [a['i'] % n])]
      return L.o.collate(batch)
    if k == 'save':
      p = w.points[a['i'] % len(w.points)]
      path = os.path.join(scratch, 'out', 'p%d.%s' % (a['i'] % 2, 'npz' if a['b'] else 'xyz'))
      os.makedirs(os.path.dirname(path), exist_ok=True)
      return p.save(path, 'PN' if a['n'] == 1 else 'PNFL')
    if k == 'reuse':
      # one octree object for the whole life of the process
      o = L.octree
      if a['b']:
        o.build_octree(w.points[a['i'] % len(w.points)])
        o.construct_all_neigh()
      else:
        o.batch_size = 1
        for d in range(F + 1):
          o.octree_grow_full(d)
        for d in range(F, D):
          lab = np.random.RandomState(a['i'] + rnd % CYCLE + d).rand(int(o.nnum[d])) < 0.4
          o.octree_split(torch.from_numpy(lab.astype(np.int64)), d)
          o.octree_grow(d + 1)
      return c01.octree_result(o, D)
    if k == 'train':
      i = a['i'] % len(plan['ops'])
      m, x = w.mods[i], w.x[i][0]
      if m is None or plan['ops'][i]['op'] == 'Image2Shape':
        return None
      m.train()
      try:
        m.zero_grad()
        if plan['ops'][i]['op'] in ('globalpool',) or x is not None:
          x = x.clone().requires_grad_() if x is not None else None
        outs = catalog.run(plan['ops'][i], m, w.batch, D, F, x, w.pts[i][0])
        fl = [q.t for q in outs if q.t.is_floating_point() and q.t.requires_grad]
        if fl:
          sum(t.sum() for t in fl).backward()
      except ValueError as e:      # statistics of a single row: documented by torch
        if 'more than 1 value per channel' not in str(e):
          raise
      finally:
        m.eval()
      return None
    if k in ('op', 'bwd', 'make', 'query', 'points', 'growcopy', 'merge', 'mergepts'):
      return c01.act(w, a, plan)
    return c02.prepare(w, a, plan)[0]()

  def one_round(self, L, plan, scratch, rnd, ats, info):
    """Every step once; everything it made is gone when this returns."""
    pl = self.variant(plan, rnd)
    w = c01.World(pl, L.mods)
    datasets.full_seed(plan['seed'] + rnd % CYCLE)
    for i, a in enumerate(plan['steps']):
      if a['fault'] is not None and ats[i] is not None:
        at = ats[i]
        seam = OpSeam(fail_at=[at], kind=a['fault']['kind']) if a['fault']['where'] == 'op' else threads.LineFaults(fail_at=[at], exc=KINDS[a['fault']['kind']])
        try:
          with seam:
            self.step(L, w, a, pl, scratch, rnd)
        except INJECTED:
          pass
        except Exception:
          if not seam.fired:
            raise
        if seam.fired and info is not None:
          info.append((i, seam.fired[0][1]))
        del seam
      if a['thread']:
        err = []

        def body():
          try:
            self.step(L, w, a, pl, scratch, rnd)
          except BaseException as e:
            err.append(e)
        t = threading.Thread(target=body)
        t.start()
        t.join()
        if err:
          raise err[0]
        del t, err, body
      else:
        self.step(L, w, a, pl, scratch, rnd)

  def measure(self, scratch, frozen):
    gc.collect()
    gc.collect()
    objs = gc.get_objects()
    n = len(objs)
    size = tens = byts = 0
    for o in objs:
      if isinstance(o, SIZED):
        size += len(o)
      elif isinstance(o, torch.Tensor):
        tens += 1
        if o.device.type == 'cpu':
          byts += o.untyped_storage().nbytes()
    del objs
    size += sum(map(len, frozen))
    files = sum(len(f) for _, _, f in os.walk(scratch))
    return (n, size, tens, byts, len(os.listdir('/proc/self/fd')), threading.active_count(), files)

  NAMES = ('live objects', 'entries of containers', 'live tensors', 'bytes of live tensors', 'open files', 'threads', 'files on disk')

  def execute(self, plan, ctx):
    scratch = os.path.join(ctx.scratch, 'w')
    os.makedirs(scratch)
    tempfile.tempdir = scratch
    with sut('preparing'):
      datasets.full_seed(plan['seed'])
      L = self.lasting(plan, scratch)
    # where the faults strike: counted in an undisturbed first round
    ats = []
    w = c01.World(self.variant(plan, 0), L.mods)
    for i, a in enumerate(plan['steps']):
      at = None
      if a['fault'] is not None:
        seam = OpSeam() if a['fault']['where'] == 'op' else threads.LineFaults()
        with sut('step %d %s' % (i, a['do'])):
          with seam:
            self.step(L, w, a, plan, scratch, 0)
        at = min(seam.n - 1, int(a['fault']['frac'] * seam.n)) if seam.n else None
        del seam
      ats.append(at)
    del w
    info = []
    gc.collect()
    frozen = [o for o in gc.get_objects() if isinstance(o, SIZED) and o is not info]
    gc.freeze()
    rows = np.zeros([ROUNDS, len(self.NAMES)], np.int64)   # not a container: it must not count itself
    for rnd in range(ROUNDS):
      with sut('round %d' % rnd):
        self.one_round(L, plan, scratch, rnd, ats, info if rnd == 0 else None)
      rows[rnd] = self.measure(scratch, frozen)
    kinds = set()
    for i, a in enumerate(plan['steps']):
      ctx.probe(a['do'])
      kinds.add(a['do'])
      if a['thread']:
        ctx.probe('thread')
      if a['do'] in ('op', 'bwd', 'train') and plan['ops'][a['i'] % len(plan['ops'])]['op'] in catalog.NETS:
        ctx.probe('net')
      if a['do'] == 'visit' and L.o.dataset.in_memory:
        ctx.probe('in-memory')
      ctx.count('steps', ROUNDS)
    for i, site in info:
      ctx.probe('fault')
      ctx.fault('%s:%s' % (plan['steps'][i]['fault']['kind'], plan['steps'][i]['fault']['where']), ROUNDS)
    ctx.nontrivial = bool(info) or len(kinds) >= 3
    ctx.state((sorted(kinds), [c['op'] for c in plan['ops']], [s for _, s in info]))
    ctx.log(sorted(kinds), [c['op'] for c in plan['ops']], info)
    for j, name in enumerate(self.NAMES):
      v = rows[:, j].tolist()
      if all(b > a for a, b in zip(v[WARM:], v[WARM + 1:])):
        raise Violation('accumulates', '%s %s after rounds 1-%d: %s' % ([a['do'] for a in plan['steps']], name, ROUNDS, v))


PROP = P()
