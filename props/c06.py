"""C06: a batch is the exact disjoint union of its samples."""
import copy

import numpy as np
import torch
import ocnn
from ocnn.dataset import CollateBatch

from sim import boot, datasets, faults, gen, snap, threads
from sim.core import Prop, Violation, sut
from sim.refmodel import RefOctree, compare_level, voxels
from sim.torchseam import INJECTED

ATTR = ('points', 'normals', 'features', 'labels')


def eq(a, b):
  if a is None or b is None:
    return a is None and b is None
  return a.shape == b.shape and a.dtype == b.dtype and torch.equal(a, b)


def check_points(out, parts, what):
  for k in ATTR:
    want = [getattr(p, k) for p in parts]
    got = getattr(out, k)
    if want[0] is None:
      if got is not None:
        raise Violation('points-union', '%s: %s appeared' % (what, k))
      continue
    if got is None or not eq(got, torch.cat(want)):
      raise Violation('points-union', '%s: %s is not the concatenation of the samples' % (what, k))
  n = [p.points.shape[0] for p in parts]
  bid = torch.cat([torch.full((m,), i) for i, m in enumerate(n)])
  if out.batch_id is None or out.batch_id.dim() != 2 or out.batch_id.shape[1] != 1 or not torch.equal(
      out.batch_id.flatten().long(), bid) or not torch.equal(out.batch_id.flatten().double(), bid.double()):
    raise Violation('points-batch', '%s: batch_id does not name the sample of each point' % what)
  if out.batch_size != len(parts):
    raise Violation('points-batch', '%s: batch_size %s for %d samples' % (what, out.batch_size, len(parts)))
  if out.batch_npt is None or out.batch_npt.tolist() != n:
    raise Violation('points-batch', '%s: batch_npt %s, points per sample %s' % (what, out.batch_npt, n))
  if out.npt != sum(n):
    raise Violation('points-batch', '%s: npt' % what)


def check_octree(out, parts, clouds, what, ctx, neigh=True):
  """parts: single octrees; clouds: their points (numpy)."""
  D, F = parts[0].depth, parts[0].full_depth

  def fail(cls, msg):
    raise Violation('octree-' + cls, '%s: %s' % (what, msg))
  if out.batch_size != len(parts) or out.depth != D or out.full_depth != F:
    fail('header', 'batch_size %s depth %s full_depth %s' % (out.batch_size, out.depth, out.full_depth))
  ref = RefOctree(D, F, len(parts))
  ref.build(np.concatenate([voxels(c, np.full(len(c), i), D) for i, c in enumerate(clouds)]))
  ref.neigh_ok = [neigh] * (D + 1)
  for d in range(D + 1):
    compare_level(out, ref, d, fail, check_neigh=neigh)
    cnt = np.bincount(ref.coords[d][:, 0], minlength=len(parts))
    cne = np.bincount(ref.coords[d][ref.nempty[d]][:, 0], minlength=len(parts))
    if parts and out.batch_nnum is not None:
      if out.batch_nnum[d].tolist() != cnt.tolist():
        fail('batch-nnum', 'depth %d: batch_nnum %s, nodes per sample %s' % (d, out.batch_nnum[d].tolist(), cnt.tolist()))
      if out.batch_nnum_nempty[d].tolist() != cne.tolist():
        fail('batch-nnum', 'depth %d: batch_nnum_nempty %s, expected %s' % (d, out.batch_nnum_nempty[d].tolist(), cne.tolist()))
    for name in ('features', 'normals', 'points'):
      want = [getattr(p, name)[d] for p in parts]
      got = getattr(out, name)[d]
      if any(w is None for w in want):
        if got is not None:
          fail('data', '%s[%d] appeared' % (name, d))
        continue
      if not eq(got, torch.cat(want)):
        fail('data', '%s[%d] is not the concatenation of the samples' % (name, d))
  return ref


def lists_equal(a, b, what, cls, tol=False):
  for k in ('depth', 'full_depth', 'batch_size'):
    if getattr(a, k) != getattr(b, k):
      raise Violation(cls, '%s: %s differs: %s, %s' % (what, k, getattr(a, k), getattr(b, k)))
  for k in ('keys', 'children', 'features', 'normals', 'points', 'neighs'):
    if tol and k == 'neighs':
      continue
    for d, (x, y) in enumerate(zip(getattr(a, k), getattr(b, k))):
      if tol and x is not None and y is not None and x.is_floating_point():
        ok = x.shape == y.shape and torch.allclose(x, y, rtol=1e-4, atol=1e-4, equal_nan=True)
      else:
        ok = eq(x, y)
      if not ok:
        raise Violation(cls, '%s: %s[%d] differs' % (what, k, d))
  for k in ('nnum', 'nnum_nempty') + (() if tol else ('batch_nnum', 'batch_nnum_nempty')):
    x, y = getattr(a, k), getattr(b, k)
    if not ((x is None and y is None) or (x is not None and y is not None and x.tolist() == y.tolist())):
      raise Violation(cls, '%s: %s differs' % (what, k))


def check_to(obj, what):
  """to another device and back loses nothing and leaves the source alone"""
  s0 = snap.any_(obj)
  with sut('%s.to' % what):
    there = obj.to('cpu:0')
    back = there.to('cpu')
  for t in (there, back):
    a, b = dict(s0), snap.any_(t)
    a.pop('device', None), b.pop('device', None)
    d = snap.diff(a, b)
    if d:
      raise Violation('move-loses', '%s moved to another device: %s differ' % (what, d[:6]))
  d = snap.diff(s0, snap.any_(obj))
  if d:
    raise Violation('move-changes-source', '%s: %s' % (what, d[:6]))


class P(Prop):
  id = 'C06'
  runs = {'quick': 1400, 'thorough': 30000}
  soft_s = {'quick': 45, 'thorough': 2700}
  shrink_lists = ('steps', 'samples')
  shrink_min = {'steps': 1, 'samples': 1}
  rule = ('a run writes 1-5 sample files of one dataset of the repository, then executes a loader history: batches of requested indices '
          'whose samples are produced in a seeded completion order by sequential or interleaved workers with failures and retries, are '
          'reused by later batches and collated, failed collations repeated; non-trivial when a batch holds at least two samples')
  distinct_measure = 'distinct (dataset, requested order, completion order, reuse, fault site) histories'
  real = ['all datasets of projects/datascts', 'ocnn.dataset.Transform, CollateBatch', 'merge_octrees, merge_points, Octree, Points',
          'SegSolver.process_batch', 'plyfile, numpy, PIL readers on real files']
  stubs = ['loader worker pool (simulated: seeded completion order or scheduled threads)', 'allocator and interrupt source',
           'GPU: .cuda() is the identity, another device is cpu:0']
  assumptions = ['torch indexing and concatenation are correct']
  required_probes = ('retry', 'threads', 'reuse', 'merge-points', 'list-points', 'to', 'process-batch', 'collate-fault', 'union-build',
                     'empty-points', 'real-size') + tuple('kind:' + k for k in datasets.KINDS)

  def prepare(self, base):
    datasets.warm()

  def gen(self, rng, idx, tier):
    kind = rng.choice(datasets.KINDS)
    D = rng.choice([2, 3, 3, 4, 5])
    F = rng.randint(1, min(D, 3))
    n = rng.choice([1, 2, 3, 3, 4, 5])
    many = rng.chance(0.06)     # a batch of ordinary size
    steps = []
    for _ in range(rng.randint(1, 4)):
      req = [rng.randrange(n) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
      if rng.chance(0.5):
        req = rng.sample(range(n), rng.randint(1, n))
      if many:
        req = [rng.randrange(n) for _ in range(rng.choice([9, 17, 33]))]
        D, F = min(D, 3), min(F, 2)
      comp = list(range(len(req)))
      rng.shuffle(comp)
      st = {'req': req, 'comp': comp, 'reuse': rng.chance(0.4), 'mode': rng.choice(['seq', 'seq', 'threads']),
            'merge': rng.choice([None, None, True, False]), 'faults': {}, 'cfault': None, 'to': rng.chance(0.5), 'union': rng.chance(0.5),
            'proc': rng.chance(0.4), 'empty': rng.chance(0.2), 'again': rng.chance(0.5), 'switches': sorted(rng.sample(range(1, 4000), rng.choice([0, 3, 12])))}
      for j in range(len(req)):
        if rng.chance(0.25):
          st['faults'][str(j)] = [faults.gen_fault(rng) for _ in range(rng.choice([1, 2]))]
      if rng.chance(0.25):
        st['cfault'] = faults.gen_fault(rng)
      steps.append(st)
    samples = [gen.cloud_spec(rng, 2, 30) for _ in range(n)]
    if not many and rng.chance(0.025):     # clouds of the size users have
      D, F = rng.choice([7, 8, 9, 10]), rng.choice([2, 3, 4])
      big = rng.choice([2500, 6000, 14000])
      samples = [dict(s, n=big, kind=rng.choice(['uniform', 'sphere', 'cluster', 'plane'])) for s in samples]
      steps = steps[:1]
      for st in steps:
        st.update(faults={}, mode='seq', again=False)
    cfg = {'depth': D, 'full': F, 'distort': rng.chance(0.3), 'angle': [0, 0, 5], 'scale': 0.2, 'jitter': 0.1,
           'flip': [0.5, 0, 0], 'in_memory': rng.chance(0.3), 'merge': rng.chance(0.5)}
    return {'kind': kind, 'cfg': cfg, 'samples': samples, 'steps': steps, 'seed': rng.seed31()}

  def simplify(self, plan):
    for i, s in enumerate(plan['steps']):
      for key, v in (('faults', {}), ('cfault', None), ('mode', 'seq'), ('to', False), ('union', False), ('proc', False), ('reuse', False),
                     ('empty', False), ('again', False)):
        if s[key] != v:
          p = copy.deepcopy(plan)
          p['steps'][i][key] = v
          yield p
      if len(s['req']) > 1:
        p = copy.deepcopy(plan)
        q = p['steps'][i]
        q['req'] = q['req'][:-1]
        q['comp'] = [c for c in q['comp'] if c < len(q['req'])]
        yield p
    if plan['cfg']['distort']:
      p = copy.deepcopy(plan)
      p['cfg']['distort'] = False
      yield p

  def execute(self, plan, ctx):
    boot.patch_cuda()
    kind = plan['kind']
    datasets.full_seed(plan['seed'])
    with sut('opening the dataset'):
      o = datasets.open_(kind, ctx.scratch, plan['samples'], plan['cfg'])
    ctx.probe('kind:' + kind)
    pool = {}
    nsamp = len(plan['samples'])
    if plan['samples'][0]['n'] >= 1500:
      ctx.probe('real-size')
    for si, st in enumerate(plan['steps']):
      req = [r % nsamp for r in st['req']]
      batch = [None] * len(req)
      todo = []
      for j in st['comp']:
        if st['reuse'] and req[j] in pool:
          batch[j] = pool[req[j]]
          ctx.probe('reuse')
        else:
          todo.append(j)
      self.load(o, st, req, batch, todo, ctx, si)
      for j, b in enumerate(batch):
        if b is None:
          raise Violation('lost-sample', 'step %d: no sample for position %d' % (si, j))
        # a sample is the one asked for
        if b['filename'] != o.names[req[j]] or b['label'] != o.labels[req[j]]:
          raise Violation('wrong-sample', 'step %d position %d: %s for %s' % (si, j, b['filename'], o.names[req[j]]))
        pool[req[j]] = b
      self.batch(o, kind, st, batch, plan, ctx, si)
      ctx.state((kind, tuple(req), tuple(st['comp']), st['reuse'], st['mode'], str(st['merge'])))

  def load(self, o, st, req, batch, todo, ctx, si):
    def one(j, allow_fault):
      specs = st['faults'].get(str(j), []) if allow_fault else []
      for spec in specs:
        r, v = faults.attempt(lambda k: o.dataset[k], (req[j],), spec, ctx)
        if r == 'ok':
          batch[j] = v
          return
        ctx.probe('retry')
      with sut('loading sample %s after %d failures' % (o.names[req[j]], len(specs))):
        batch[j] = o.dataset[req[j]]
    if st['mode'] == 'threads' and len(todo) > 1:
      def worker(j):
        return lambda: batch.__setitem__(j, o.dataset[req[j]])
      s = threads.Scheduler([worker(j) for j in todo], [(at, k) for k, at in enumerate(st['switches'])])
      for t in s.run():
        if t.exc is not None:
          raise Violation('unexpected-error', 'step %d: a loader worker raised %s: %s' % (si, type(t.exc).__name__, str(t.exc)[:300]))
      ctx.probe('threads')
      ctx.count('switches', len(s.taken))
      ctx.count('steps', s.step)
      for tk in s.taken:
        ctx.state(('switch', tk[3]))
    else:
      for j in todo:
        one(j, True)
    ctx.log('load', si, req, st['comp'], st['mode'], [snap.any_(b['points'])['points'] for b in batch])

  def batch(self, o, kind, st, batch, plan, ctx, si):
    what = 'step %d %s' % (si, kind)
    before = [snap.any_(b) for b in batch]
    if st['merge'] is None:
      col, merges = o.collate, o.merges
    else:
      col, merges = CollateBatch(merge_points=st['merge']), st['merge']
    if st['cfault']:
      counts = self.sites(col, batch)
      n = counts[0] if st['cfault']['where'] == 'op' else counts[1]
      if n:
        ctx.probe('collate-fault')
        r, out = self.fault_collate(col, batch, st['cfault'], n, ctx)
        self.unchanged(batch, before, what + ' after a failed collation')
    with sut('collating ' + what):
      out = col(list(batch))
    self.unchanged(batch, before, what)
    if len(batch) > 1:
      ctx.nontrivial = True
    self.check_out(out, batch, merges, what, ctx, kind, st['merge'] is None)
    ctx.log('batch', si, sorted(out), [out[k].nnum.tolist() for k in sorted(out) if 'octree' in k])
    if st['again'] and len(batch) > 1:
      rev = list(reversed(batch))
      with sut('collating the same samples in another order'):
        out2 = CollateBatch(merge_points=True)(rev)
      self.check_out(out2, rev, True, what + ' (same samples, other order)', ctx, kind, False)
      self.unchanged(batch, before, what + ' collated twice')
    if st['to']:
      ctx.probe('to')
      for k, v in out.items():
        if isinstance(v, (ocnn.octree.Octree, ocnn.octree.Points)):
          check_to(v, k)
        elif isinstance(v, list) and v and isinstance(v[0], ocnn.octree.Points):
          check_to(v[0], k + '[0]')
    if st['union']:
      ctx.probe('union-build')
      for k in [k for k in out if 'points' in k]:
        parts = [b[k] for b in batch]
        with sut('building one octree from merged points'):
          m = ocnn.octree.merge_points(parts)
          u = ocnn.octree.Octree(plan['cfg']['depth'], plan['cfg']['full'], batch_size=len(parts))
          u.build_octree(m)
          g = ocnn.octree.merge_octrees([self.single(p, plan) for p in parts])
        check_points(m, parts, what + ' merge_points')
        lists_equal(u, g, what + ': octree of the merged points and merged octrees', 'union-differs', tol=True)
    if st['empty']:
      ctx.probe('empty-points')
      p = batch[0]['points']
      none = p[torch.zeros(p.points.shape[0], dtype=torch.bool)]
      parts = [p, none, p]
      with sut('merging with a point cloud without points'):
        m = ocnn.octree.merge_points(parts)
      check_points(m, parts, what + ' with an empty cloud')
      # the attributes in the widest types a caller may use
      wide = []
      for j, b in enumerate(batch):
        n = b['points'].npt
        r = np.random.RandomState((plan['seed'] + j) % (2 ** 31))
        wide.append(ocnn.octree.Points(b['points'].points.double() * (1 + 2.0 ** -40), None, torch.from_numpy(r.randn(n, 2)),
                                       torch.from_numpy(r.randint(0, 2 ** 52, (n, 1)))))
      with sut('merging point clouds of 64-bit attributes'):
        m = ocnn.octree.merge_points(wide)
      check_points(m, wide, what + ' with 64-bit attributes')
    if st['proc']:
      self.process(out, batch, merges, plan, what, ctx)

  def single(self, p, plan):
    s = ocnn.octree.Octree(plan['cfg']['depth'], plan['cfg']['full'])
    s.build_octree(p)
    return s

  def process(self, out, batch, merges, plan, what, ctx):
    """what the segmentation solver makes of a loader batch"""
    import segmentation
    has = 'octree' in out
    if has != bool(merges) or any(k not in ('octree', 'points', 'label', 'filename', 'inbox_mask') for k in out):
      return
    s = segmentation.SegSolver.__new__(segmentation.SegSolver)
    fl = datasets.flags(plan['cfg'])
    before = [snap.any_(b) for b in batch]
    b = dict(out)
    with sut('SegSolver.process_batch'):
      r = s.process_batch(b, fl)
    parts = [x['points'] for x in batch]
    check_points(r['points'], parts, what + ' process_batch')
    with sut('single octrees'):
      singles = [x['octree'] for x in batch] if has else [self.single(p, plan) for p in parts]
    check_octree(r['octree'], singles, [p.points.numpy() for p in parts], what + ' process_batch', ctx)
    if [n for n in r['filename']] != [x['filename'] for x in batch]:
      raise Violation('list-order', what + ': process_batch changed the file names')
    self.unchanged(batch, before, what + ' process_batch')
    ctx.probe('process-batch')

  def sites(self, col, batch):
    from sim.torchseam import OpSeam
    ops, lines = OpSeam(), threads.LineFaults()
    with lines, ops:
      col(list(batch))
    return ops.n, lines.n

  def fault_collate(self, col, batch, spec, n, ctx):
    from sim.torchseam import KINDS, OpSeam
    at = min(n - 1, int(spec['frac'] * n))
    seam = OpSeam(fail_at=[at], kind=spec['kind']) if spec['where'] == 'op' else threads.LineFaults(fail_at=[at], exc=KINDS[spec['kind']])
    try:
      with seam:
        col(list(batch))
      r = 'ok'
    except INJECTED:
      r = 'fault'
    if seam.fired:
      ctx.fault('%s:%s' % (spec['kind'], spec['where']))
      ctx.state(('collate-fault', seam.fired[0][1]))
      if r == 'ok':
        raise Violation('swallowed-failure', 'collation swallowed a failure at %s' % (seam.fired[0][1],))
    return r, None

  def unchanged(self, batch, before, what):
    for j, (b, s) in enumerate(zip(batch, before)):
      d = snap.diff(s, snap.any_(b))
      if d:
        raise Violation('sample-changed', '%s: sample at position %d changed: %s' % (what, j, d[:6]))

  def check_out(self, out, batch, merges, what, ctx, kind, own):
    want = set(batch[0]) | ({'label'} if any('label' in k for k in batch[0]) else set())
    if set(out) != want:
      raise Violation('batch-keys', '%s: keys %s, expected %s' % (what, sorted(out), sorted(want)))
    for k in batch[0]:
      vals = [b[k] for b in batch]
      if 'octree' in k:
        pk = k.replace('octree', 'points')
        check_octree(out[k], vals, [b[pk].points.numpy() for b in batch], '%s %s' % (what, k), ctx)
      elif 'points' in k:
        if merges:
          ctx.probe('merge-points')
          check_points(out[k], vals, '%s %s' % (what, k))
        else:
          ctx.probe('list-points')
          if not isinstance(out[k], list) or len(out[k]) != len(vals) or any(a is not b and snap.diff(snap.any_(a), snap.any_(b))
                                                                               for a, b in zip(out[k], vals)):
            raise Violation('list-order', '%s: %s are not the samples\' point clouds in order' % (what, k))
      elif 'label' in k:
        if not isinstance(out['label'], torch.Tensor) or out['label'].tolist() != [int(v) for v in vals]:
          raise Violation('label-order', '%s: labels %s, samples %s' % (what, out['label'], vals))
      elif k == 'image' and own:
        if not isinstance(out[k], torch.Tensor) or not eq(out[k], torch.stack(vals)):
          raise Violation('image-order', '%s: images are not the samples\' images in order' % what)
      else:
        got = out[k]
        if not isinstance(got, list) or len(got) != len(vals):
          raise Violation('list-order', '%s: %s' % (what, k))
        for a, b in zip(got, vals):
          same = eq(a, b) if isinstance(b, torch.Tensor) else a == b
          if not same:
            raise Violation('list-order', '%s: %s is not in the requested order' % (what, k))
      if k == 'inbox_mask':
        ps = out['points'].batch_npt.tolist() if merges and 'points' in out else [p.npt for p in out['points']]
        if [int(m.sum()) for m in out[k]] != ps:
          raise Violation('mask-mismatch', '%s: masks keep %s points, clouds have %s' % (what, [int(m.sum()) for m in out[k]], ps))


PROP = P()
