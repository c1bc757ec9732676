"""C11: voting evaluation accumulates each point exactly once per pass."""
import copy
import os

import numpy as np
import torch

from sim import datasets, gen, simio, solvers, threads
from sim.core import HarnessError, Prop, Violation, sut
from sim.refmodel import voxels

KINDS = {'seg_shapenet': 'shapenet', 'scannet': 'scannet', 'scannet_npz': 'scannet', 'kitti': 'kitti'}


class P(Prop):
  id = 'C11'
  runs = {'quick': 700, 'thorough': 30000}
  soft_s = {'quick': 45, 'thorough': 2700}
  shrink_lists = ('samples', 'switches')
  shrink_min = {'samples': 1}
  rule = ('a run is a complete voting evaluation (thsolver loop, real SegSolver steps, real datasets with augmentation that clips points) over '
          '1-6 files, 1-4 passes, batches cut and ordered by the plan, on one rank, on 2-3 interleaved ranks sharing the folder, or with one '
          'file-system fault or crash followed by a rerun; non-trivial when a fault fired, ranks interleaved or points were clipped')
  distinct_measure = 'distinct (dataset, mode, passes, batch cut, fault position or taken switches) tuples'
  real = ['projects/segmentation.py SegSolver (process_batch, model_forward, eval_step)', 'thsolver.Solver.evaluate / eval_epoch / DataLoader',
          'datasets, transforms, collation', 'np.savez and the operating system below the fault seam']
  stubs = ['network (a function of point position and voxel count of the sample)', 'CUDA placement (identity)',
           'file-system calls (LD_PRELOAD seam that counts and injects faults)']
  assumptions = ['ranks evaluate disjoint files', 'every visit keeps at least one point of the sample', 'float32 accumulation within 2e-5 per pass']
  required_probes = ('ranks', 'fault', 'crash', 'reported', 'rerun', 'plain', 'clipped', 'real-loader', 'unlabelled', 'no-mask-setting', 'stale',
                     'several-passes', 'switched', 'folders') + tuple('kind:' + k for k in KINDS)

  def prepare(self, base):
    datasets.warm()
    solvers.warm()
    os.environ.setdefault('SIM_SO', simio.build())

  def gen(self, rng, idx, tier):
    n = rng.choice([1, 2, 3, 4, 5, 6])
    kind = rng.choice(list(KINDS))
    mode = rng.choice(['plain', 'plain', 'ranks', 'fault', 'fault'])
    if mode == 'ranks':
      n = max(n, 2)
    nd = rng.choice([1, 2, 4])
    samples = [dict(gen.cloud_spec(rng, 4, 40), wide=rng.choice([0, 2.0, 3.0]), dir=rng.choice(['a', 'b', 'a/c', 'd'][:nd])) for _ in range(n)]
    stem = rng.choice(['s%03d', 's%03d', 'scene0000_00.chunk_%d', 'part.v%d.final'])
    for s in samples:
      s['stem'] = stem
    if rng.chance(0.6):
      datasets.number(samples)
    E = rng.choice([1, 1, 2, 3, 4])
    return {'kind': kind, 'mode': mode, 'samples': samples, 'passes': E, 'batch': rng.choice([1, 1, 2, 3, n]),
            'real_loader': mode != 'ranks' and rng.chance(0.4), 'orders': [[rng.random() for _ in range(6)] for _ in range(E)],
            'cuts': [rng.random() for _ in range(8)], 'classes': rng.choice([2, 5, 21]), 'seed': rng.seed31(),
            'distort': rng.chance(0.8), 'mask': rng.choice([None, None, 0, -1, -255]), 'stale': rng.chance(0.2),
            'ranks': rng.choice([2, 2, 3]), 'switches': [[rng.random(), rng.randrange(3), rng.choice(['io', 'io', 'line'])] for _ in range(rng.choice([1, 2, 3, 6, 24]))],
            'fault': {'cls': 'mut', 'kind': rng.choice(['crash-before', 'crash-after', 'crash-partial', 'crash-partial', 'err', 'err', 'err-from', 'short', 'eintr']),
                      'frac': rng.random(), 'arg': rng.choice(['ENOSPC', 'EIO', 'EDQUOT']), 'count': rng.choice([1, 1000])}}

  def simplify(self, plan):
    for k, v in (('mode', 'plain'), ('passes', 1), ('batch', 1), ('real_loader', False), ('distort', False), ('stale', False), ('classes', 2), ('kind', 'seg_shapenet')):
      if plan[k] != v:
        p = copy.deepcopy(plan)
        p[k] = v
        yield p

  # ---------------------------------------------------------------------
  def cfg(self, plan):
    return {'depth': 4, 'full': 2, 'distort': plan['distort'], 'angle': (0, 0, 180), 'interval': (1, 1, 1), 'scale': 0.3, 'jitter': 0.35,
            'flip': (0.5, 0.0, 0.0), 'batch': plan['batch']}

  def passes(self, plan, members):
    """Plan's batches per pass over the given sample indices."""
    out = []
    for o in plan['orders'][:plan['passes']] or [[0.0] * 6]:
      idx = sorted(members, key=lambda i: (o[i % 6], i))
      bs, k = [], 0
      B = max(1, plan['batch'])
      while k < len(idx):
        bs.append(idx[k:k + B])
        k += B
      out.append(bs)
    return out

  def solver(self, plan, o, logdir, members, log):
    import segmentation
    fg = o.flags.clone()
    fg.name = KINDS[plan['kind']]
    fg.batch_size = max(1, plan['batch'])
    loss = {'num_class': plan['classes']}
    if plan['mask'] is not None:
      loss['mask'] = plan['mask']
    F = solvers.flags(fg, logdir, {'eval_epoch': plan['passes']}, loss, {'name': 'stub', 'feature': 'ND' if plan['kind'] != 'kitti' else 'P', 'nempty': True, 'channel': 4})
    s = segmentation.SegSolver(F)
    s.get_model = lambda flags: solvers.StubSeg(plan['classes'], plan['seed'])
    real_get = s.get_dataset

    def get_dataset(flags):
      d, c = real_get(flags)
      return solvers.Recorder(d, log), c
    s.get_dataset = get_dataset
    if not plan['real_loader']:
      def config_dataloader(disable_train_data=False):
        d, c = s.get_dataset(s.FLAGS.DATA.test)
        s.test_loader = solvers.PlanLoader(d, c, self.passes(plan, members))
        s.test_iter = iter(s.test_loader)
      s.config_dataloader = config_dataloader
    return s

  def expected(self, plan, log, sizes):
    """The sum over the visits made, from what the dataset handed out."""
    out = {}
    for name, mask, pts, _ in log:
      cnt = len(np.unique(voxels(pts, np.zeros(len(pts), np.int64), 4), axis=0))
      pr = solvers.softmax(solvers.logits(pts, np.full(len(pts), cnt), plan['classes'], plan['seed']))
      full = np.zeros([len(mask), plan['classes']])
      full[mask] = pr
      out[name] = out.get(name, 0) + full
    return out

  def check(self, plan, o, logdir, exp, counts, ctx, what, exact=True):
    want = {n[:-4] + '.eval.npz' for n in o.names}
    have = {os.path.relpath(os.path.join(d, f), logdir) for d, _, fs in os.walk(logdir) for f in fs}
    if not want <= have:
      raise Violation('missing', '%s: no result for %s' % (what, sorted(want - have)))
    if exact:
      extra = {f for f in have if f.endswith('.eval.npz')} - want
      if extra:
        raise Violation('extra', '%s: unexpected results %s' % (what, sorted(extra)))
    for n, raw in zip(o.names, o.raw):
      try:
        with np.load(os.path.join(logdir, n[:-4] + '.eval.npz')) as z:
          p = z['prob']
      except Exception as e:
        raise Violation('damaged', '%s: the result of %s cannot be read: %s' % (what, n, e))
      if p.shape != (len(raw['points']), plan['classes']):
        raise Violation('shape', '%s: %s has probabilities %s for %d points' % (what, n, p.shape, len(raw['points'])))
      e = exp[n]
      if not np.allclose(p, e, atol=2e-5 * counts[n] + 1e-6, rtol=1e-4):
        j = int(np.abs(p - e).max(1).argmax())
        raise Violation('probabilities', '%s: %s point %d: %s written, sum over %d passes is %s' % (
            what, n, j, p[j].round(4).tolist(), counts[n], e[j].round(4).tolist()))

  def execute(self, plan, ctx):
    kind = plan['kind']
    ctx.probe('kind:' + kind)
    ctx.probe('no-mask-setting' if plan['mask'] is None else 'mask-set')
    if plan['passes'] > 1:
      ctx.probe('several-passes')
    if len({s['dir'] for s in plan['samples']}) > 1:
      ctx.probe('folders')
    if plan['real_loader']:
      ctx.probe('real-loader')
    ctx.probe(plan['mode'])
    datasets.full_seed(plan['seed'])
    o = datasets.open_(kind, ctx.scratch, plan['samples'], self.cfg(plan))
    logdir = os.path.join(ctx.scratch, 'logs')
    os.makedirs(logdir)
    if plan['stale']:
      ctx.probe('stale')
      p = os.path.join(logdir, o.names[0][:-4] + '.eval.npz')
      os.makedirs(os.path.dirname(p), exist_ok=True)
      np.savez(p, prob=np.ones([5000, 7]), other=np.arange(3))
    if any((r['labels'] & 0xFFFF == 0).any() for r in o.raw):
      ctx.probe('unlabelled')
    getattr(self, 'run_' + plan['mode'])(plan, o, logdir, ctx)
    ctx.state((kind, plan['mode'], plan['passes'], plan['batch'], len(plan['samples']), ctx.stats.get('at', ''), str(ctx.trace[-3:])))

  def tally(self, plan, logs, ctx):
    exp, counts = {}, {}
    for log in logs:
      e = self.expected(plan, log, None)
      for n in e:
        if n in exp:
          raise HarnessError('a file was evaluated by two ranks')
      exp.update(e)
      for name, mask, _, _ in log:
        counts[name] = counts.get(name, 0) + 1
        if not mask.all():
          ctx.probe('clipped')
          ctx.nontrivial = True
        ctx.log('visit', name, int(mask.sum()), len(mask))
    return exp, counts

  def run_plain(self, plan, o, logdir, ctx):
    log = []
    with sut('evaluation'):
      self.solver(plan, o, logdir, list(range(len(o.names))), log).evaluate()
    exp, counts = self.tally(plan, [log], ctx)
    ctx.count('steps', len(log))
    self.check(plan, o, logdir, exp, counts, ctx, 'evaluation', not plan['stale'])

  def run_ranks(self, plan, o, logdir, ctx):
    R = min(plan['ranks'], len(o.names))
    members = [list(range(r, len(o.names), R)) for r in range(R)]
    threads.io_points()
    os.makedirs(os.path.join(ctx.scratch, 'probe'))
    datasets.full_seed(plan['seed'])
    # one rank after the other, elsewhere: where the scheduling points are
    first = threads.Scheduler([self.solver(plan, o, os.path.join(ctx.scratch, 'probe'), m, []).evaluate for m in members], [], op_points=False, record=True)
    for t in first.run():
      if t.exc is not None:
        raise Violation('unexpected-error', 'evaluation alone: %s: %s' % (type(t.exc).__name__, t.exc))
    sw, iosw = threads.place(plan['switches'], first.positions)
    logs = [[] for _ in range(R)]
    ss = [self.solver(plan, o, logdir, members[r], logs[r]) for r in range(R)]
    datasets.full_seed(plan['seed'])
    sch = threads.Scheduler([s.evaluate for s in ss], sw, op_points=False, iosw=iosw)
    for t in sch.run():
      if t.exc is not None:
        raise Violation('rank-failed', 'rank %d of %d: %s: %s (switches %s)' % (t.idx, R, type(t.exc).__name__, t.exc, sch.taken[-6:]))
    if sch.taken:
      ctx.probe('switched')
      ctx.nontrivial = True
      ctx.fault('thread-switch', len(sch.taken))
    ctx.count('steps', sch.step)
    ctx.log('taken', sch.taken, sch.step)
    exp, counts = self.tally(plan, logs, ctx)
    self.check(plan, o, logdir, exp, counts, ctx, '%d ranks' % R, not plan['stale'])

  def child(self, plan, o, logdir, faults, seed):
    def fn():
      datasets.full_seed(seed)
      log = []
      self.solver(plan, o, logdir, list(range(len(o.names))), log).evaluate()
      e = self.expected(plan, log, None)
      c = {}
      for r in log:
        c[r[0]] = c.get(r[0], 0) + 1
      return {'exp': {k: v.tolist() for k, v in e.items()}, 'n': c}
    return simio.run_in_child(fn, logdir, faults)

  def run_fault(self, plan, o, logdir, ctx):
    probe = os.path.join(ctx.scratch, 'probe')
    os.makedirs(probe)
    r0 = self.child(plan, o, probe, [], plan['seed'])
    if r0['status'] != 'ok':
      raise Violation('unexpected-error', 'evaluation: %s' % (r0.get('error') or r0['status']))
    f = dict(plan['fault'])
    if f['kind'] != 'err' and f['kind'] != 'err-from':
      f['arg'] = 0
    f['at'] = min(r0['nmut'] - 1, int(f.pop('frac') * r0['nmut']))
    r1 = self.child(plan, o, logdir, [f], plan['seed'])
    simio.count_fired(ctx, [f], r1['fired'])
    ctx.log('fault', f['kind'], f['at'], r0['nmut'], r1['status'])
    ctx.count('steps', r1['nmut'])
    if any(r1['fired']):
      ctx.nontrivial = True
    if r1['status'] == 'died':
      raise Violation('process-died', 'evaluation with %s at call %d' % (f['kind'], f['at']))
    if r1['status'] == 'ok':
      self.check(plan, o, logdir, {k: np.array(v) for k, v in r1['value']['exp'].items()}, r1['value']['n'], ctx,
                 'evaluation that reports success after %s at file-system call %d of %d' % (f['kind'], f['at'], r0['nmut']), False)
      return
    if r1['status'] == 'crash':
      ctx.probe('crash')
    else:
      ctx.probe('reported')
      if not any(r1['fired']):
        raise Violation('unexpected-error', 'evaluation: %s' % r1['error'])
    ctx.probe('rerun')
    r2 = self.child(plan, o, logdir, [], plan['seed'] + 1)
    if r2['status'] != 'ok':
      raise Violation('rerun-failed', 'after %s at file-system call %d the evaluation cannot be run again: %s' % (
          f['kind'], f['at'], r2.get('error') or r2['status']))
    self.check(plan, o, logdir, {k: np.array(v) for k, v in r2['value']['exp'].items()}, r2['value']['n'], ctx,
               'rerun after %s at file-system call %d of %d' % (f['kind'], f['at'], r0['nmut']), False)


PROP = P()
