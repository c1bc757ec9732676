"""C08: cached training samples stay pristine."""
import copy
import os

import numpy as np
import torch
import ocnn
from ocnn.dataset import CollateBatch

from props.c07 import in_child
from sim import boot, datasets, faults, gen, snap, threads
from sim.core import Prop, Violation, sut

RANDOM_KINDS = ('completion', 'completion_npz', 'image2shape', 'image2shape_npz')
OPS = ['rotate', 'translate', 'scale', 'flip', 'orient', 'orientx', 'normalize', 'clip', 'index', 'bbox', 'to', 'uniform', 'scale1']


def point_op(p, name, seed):
  r = np.random.RandomState(seed % (2 ** 31))
  if name == 'rotate':
    p.rotate(torch.from_numpy(r.uniform(-3, 3, 3)).float())
  elif name == 'translate':
    p.translate(torch.from_numpy(r.uniform(-.2, .2, 3)).float())
  elif name == 'scale':
    p.scale(torch.from_numpy(r.uniform(.5, 1.5, 3)).float())
  elif name == 'uniform':
    p.scale(torch.full((3,), float(r.uniform(.5, 1.5))))
  elif name == 'scale1':
    p.scale(torch.ones(3))
  elif name == 'flip':
    p.flip(''.join(r.choice(list('xyz'), 1 + r.randint(2), replace=False)))
  elif name == 'orient':
    p.orient_normal('xyz')
  elif name == 'orientx':
    p.orient_normal('xyz'[r.randint(3)])
  elif name == 'normalize':
    a, b = p.bbox()
    p.normalize(a, b, 0.8)
  elif name == 'clip':
    p.clip(-0.6, 0.6)
  elif name == 'index':
    q = p[torch.from_numpy(r.rand(p.points.shape[0]) < 0.5)]
    if q.points.shape[0]:
      q.flip('x')
      q.orient_normal('xyz')
  elif name == 'bbox':
    p.bbox()
    p.inbox_mask(-0.5, 0.5)
  else:
    p.to('cpu:0').flip('y')


def file_state(o, kind):
  h = {}
  for n in o.names:
    for f in datasets.paths(kind, o.root, n):
      if os.path.exists(f):
        with open(f, 'rb') as fid:
          h[f] = hash(fid.read())
      else:
        h[f] = None
  return h


def cache_state(o):
  if not o.dataset.in_memory:
    return {}
  out = {}
  for i, s in enumerate(o.dataset.samples):
    if isinstance(s, dict):
      d = dict(s)
    else:                       # a lazily read npz archive
      d = {k: s[k] for k in s.files}
    d = {k: (np.asarray(v) if k == 'image' else v) for k, v in d.items()}
    for k, v in snap.any_(d).items():
      out['%d.%s' % (i, k)] = v
  return out


class P(Prop):
  id = 'C08'
  runs = {'quick': 1000, 'thorough': 40000}
  soft_s = {'quick': 45, 'thorough': 2700}
  shrink_lists = ('visits', 'samples')
  shrink_min = {'visits': 1, 'samples': 1}
  rule = ('a run opens one dataset of the repository (cached or read from disk) and visits samples in a seeded order over several epochs: '
          'visits may fail midway and be repeated, run interleaved with other visits on scheduled threads, and be followed by point-cloud '
          'operations and collation of the result; non-trivial when a sample is visited twice')
  distinct_measure = 'distinct (dataset, cached, augmentation, visit step, fault site) tuples'
  real = ['all datasets of projects/datascts with their readers', 'ocnn.dataset', 'ocnn.octree.Points', 'thsolver.Dataset']
  stubs = ['loader workers (scheduled threads)', 'allocator and interrupt source', 'global random generators, seeded per visit']
  assumptions = ['the random numbers of a visit are those of torch, numpy and random, all seeded at its start']
  required_probes = ('in-memory', 'revisit', 'distort', 'threads', 'fault', 'consume', 'collate', 'direct') + tuple(
      'kind:' + k for k in datasets.KINDS)

  def prepare(self, base):
    datasets.warm()

  def gen(self, rng, idx, tier):
    kind = rng.choice(datasets.KINDS)
    n = rng.choice([1, 2, 2, 3])
    visits = []
    for _ in range(rng.randint(2, 6)):
      v = {'i': rng.randrange(n), 'seed': rng.seed31(), 'fault': None, 'mode': 'seq', 'consume': [], 'collate': rng.chance(0.25), 'keep': rng.chance(0.5)}
      r = rng.random()
      if r < 0.3:
        v['fault'] = faults.gen_fault(rng)
      elif r < 0.5:
        v['mode'] = 'threads'
        v['with'] = [rng.randrange(n) for _ in range(rng.choice([1, 2]))]
        v['switches'] = sorted(rng.sample(range(1, 3000), rng.choice([2, 8, 20])))
      if rng.chance(0.4):
        v['consume'] = [rng.choice(OPS) for _ in range(rng.randint(1, 4))]
      visits.append(v)
    D = rng.choice([2, 3, 4])
    cfg = {'depth': D, 'full': rng.randint(1, min(2, D)), 'distort': rng.chance(0.6), 'angle': rng.choice([[0, 0, 0], [0, 180, 0], [5, 5, 5], [0, 0, 30]]),
           'interval': rng.choice([[1, 1, 1], [5, 5, 5]]), 'scale': rng.choice([0.0, 0.25]), 'uniform': rng.chance(0.5),
           'jitter': rng.choice([0.0, 0.125, 0.6]), 'flip': rng.choice([[0, 0, 0], [1, 0, 0], [0.5, 0.5, 0.5], [0, 0, 1.0]]),
           'orient': rng.choice(['', '', 'xyz', 'x', 'y']), 'in_memory': rng.chance(0.7), 'merge': rng.chance(0.5)}
    direct = [{'op': rng.choice(OPS), 'seed': rng.seed31()} for _ in range(rng.randint(1, 6))] if rng.chance(0.25) else []
    return {'kind': kind, 'cfg': cfg, 'samples': [dict(gen.cloud_spec(rng, 2, 30), wide=rng.choice([0, 0, 2.0, 3.0])) for _ in range(n)], 'visits': visits, 'seed': rng.seed31(),
            'direct': direct}

  def simplify(self, plan):
    for i, v in enumerate(plan['visits']):
      for k, val in (('fault', None), ('mode', 'seq'), ('consume', []), ('collate', False)):
        if v[k] != val:
          p = copy.deepcopy(plan)
          p['visits'][i][k] = val
          yield p
    for k, val in (('distort', False), ('orient', ''), ('in_memory', False), ('scale', 0.0), ('jitter', 0.0), ('angle', [0, 0, 0]), ('flip', [0, 0, 0])):
      if plan['cfg'][k] != val:
        p = copy.deepcopy(plan)
        p['cfg'][k] = val
        yield p
    if plan['direct']:
      p = copy.deepcopy(plan)
      p['direct'] = []
      yield p

  def execute(self, plan, ctx):
    kind, cfg = plan['kind'], plan['cfg']
    datasets.full_seed(plan['seed'])
    with sut('opening the dataset'):
      o = datasets.open_(kind, ctx.scratch, plan['samples'], cfg)
    ctx.probe('kind:' + kind)
    nsamp = len(plan['samples'])
    files0, cache0 = file_state(o, kind), cache_state(o)
    if o.dataset.in_memory:
      ctx.probe('in-memory')
    if cfg['distort']:
      ctx.probe('distort')
    random_kind = kind in RANDOM_KINDS or cfg['distort']

    def fresh(i, seed):
      """The same visit on a dataset nobody has touched."""
      def f():
        datasets.full_seed(plan['seed'])
        fd = datasets.reopen(kind, o, cfg)
        datasets.full_seed(seed)
        return snap.any_(fd[i])
      return in_child(f)

    seen, results = {}, []
    for vi, v in enumerate(plan['visits']):
      i = v['i'] % nsamp
      what = 'visit %d of sample %d (%s)' % (vi, i, kind)
      if v['fault']:
        f = v['fault']
        try:
          def count():
            datasets.full_seed(v['seed'])
            return faults.measure(lambda k: o.dataset[k], (i,))
          counts = in_child(count)
          datasets.full_seed(v['seed'])
          r, out = faults.attempt(lambda k: o.dataset[k], (i,), f, ctx, counts)
        except Violation:
          raise
        ctx.probe('fault')
        self.pristine(o, kind, files0, cache0, 'an attempt of ' + what + ' that failed')
      if v['mode'] == 'threads':
        others = [w % nsamp for w in v['with']]
        outs = {}

        def worker(k, j):
          return lambda: outs.__setitem__(k, o.dataset[j])
        datasets.full_seed(v['seed'])
        s = threads.Scheduler([worker(k, j) for k, j in enumerate([i] + others)], [(at, k) for k, at in enumerate(v['switches'])])
        for t in s.run():
          if t.exc is not None:
            raise Violation('unexpected-error', '%s on a thread: %s: %s' % (what, type(t.exc).__name__, str(t.exc)[:300]))
        ctx.probe('threads')
        ctx.count('steps', s.step)
        for tk in s.taken:
          ctx.state(('switch', kind, tk[3]))
        self.pristine(o, kind, files0, cache0, what + ' interleaved')
        out = outs[0]
        if not random_kind:
          for k, j in enumerate([i] + others):
            self.same(snap.any_(outs[k]), seen.get(j) or fresh(j, 0), what + ' interleaved, sample %d' % j)
      else:
        datasets.full_seed(v['seed'])
        with sut(what):
          out = o.dataset[i]
        got = snap.any_(out)
        want = fresh(i, v['seed'])
        self.same(got, want, what)
        if not random_kind:
          if i in seen:
            self.same(got, seen[i], what + ' again')
          seen[i] = got
        self.pristine(o, kind, files0, cache0, what)
      ctx.log(what, v['mode'], bool(v['fault']), snap.any_(out.get('points'))['points'])
      ctx.state((kind, o.dataset.in_memory, cfg['distort'], v['mode'], bool(v['fault']), tuple(v['consume'])))
      if any(w['i'] % nsamp == i for w in plan['visits'][:vi]):
        ctx.nontrivial = True
        ctx.probe('revisit')
      if v['collate']:
        ctx.probe('collate')
        others = results[-2:] + [out]
        with sut('collating after ' + what):
          (CollateBatch(merge_points=vi % 2 == 0) if vi % 3 else o.collate)(others)
        self.pristine(o, kind, files0, cache0, 'collation after ' + what)
      if v['consume']:
        ctx.probe('consume')
        p = out['points']
        for k, name in enumerate(v['consume']):
          if name == 'normalize' and p.points.shape[0] == 0:
            continue
          if p.points.shape[0] == 0:
            break
          with sut('point-cloud operation %s' % name):
            point_op(p, name, v['seed'] + k)
        self.pristine(o, kind, files0, cache0, 'point-cloud operations %s on the result of %s' % (v['consume'], what))
      else:
        results.append(out)
    if plan['direct']:
      self.direct(plan, ctx)

  def direct(self, plan, ctx):
    """Point clouds made over stored arrays, as preprocess functions do."""
    ctx.probe('direct')
    spec = plan['samples'][0]
    a = gen.attrs(spec, True, 2, True)
    src = {'points': gen.cloud(spec), **a}
    t = {k: torch.from_numpy(v) for k, v in src.items()}
    before = snap.any_(src)
    p = ocnn.octree.Points(t['points'], t['normals'], t['features'], t['labels'])
    for k, op in enumerate(plan['direct']):
      if p.points.shape[0] == 0:
        break
      with sut('point-cloud operation ' + op['op']):
        point_op(p, op['op'], op['seed'])
      d = snap.diff(before, snap.any_(src))
      if d:
        raise Violation('stored-data-changed', 'Points.%s changed the arrays it was made from: %s' % (op['op'], d))
    with sut('building an octree'):
      p.clip()
      if p.points.shape[0]:
        oc = ocnn.octree.Octree(3, 1)
        oc.build_octree(p)
    if snap.diff(before, snap.any_(src)):
      raise Violation('stored-data-changed', 'building an octree changed the stored arrays')

  def same(self, got, want, what):
    d = snap.diff(got, want)
    if d:
      raise Violation('visit-differs', '%s differs from the same visit of untouched data: %s' % (what, d[:8]))

  def pristine(self, o, kind, files0, cache0, what):
    d = snap.diff(cache0, cache_state(o))
    if d:
      raise Violation('stored-data-changed', '%s changed the cached sample: %s' % (what, d[:8]))
    d = snap.diff(files0, file_state(o, kind))
    if d:
      raise Violation('stored-data-changed', '%s changed stored files: %s' % (what, [os.path.basename(x) for x in d[:8]]))


PROP = P()
