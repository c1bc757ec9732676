"""C29: a training step descends the documented loss of its own batch."""
import copy
import os

import numpy as np
import torch

from sim import datasets, faults, gen, simio, solvers, threads
from sim.core import Prop, Violation
from sim.refmodel import voxels
from sim.torchseam import INJECTED, KINDS, OpSeam
from props import c24

DATA, RECON = c24.DATA, c24.RECON
DIRTY = ['nan', 'inf', 'big', 'wave']


def points_of(p):
  """(n x 3 positions, sample numbers, labels) of a list of clouds or a batch."""
  if isinstance(p, (list, tuple)):
    xyz = np.concatenate([q.points.numpy() for q in p])
    bid = np.concatenate([np.full(len(q.points), i, np.int64) for i, q in enumerate(p)])
    lab = None if p[0].labels is None else np.concatenate([q.labels.numpy().reshape(-1) for q in p])
    return xyz, bid, lab
  return p.points.numpy(), p.batch_id.numpy().reshape(-1).astype(np.int64), None if p.labels is None else p.labels.numpy().reshape(-1)


class P(Prop):
  id = 'C29'
  runs = {'quick': 320, 'thorough': 20000}
  soft_s = {'quick': 60, 'thorough': 2700}
  run_timeout = 240
  shrink_lists = ('steps',)
  shrink_min = {'steps': 1}
  rule = ('a run is 2-7 training steps of a real solver (classification, segmentation, autoencoder, completion, image to shape) on batches of 1-4 samples '
          'of a real dataset, some of them failing at a seeded tensor operation or source line of the forward or backward pass and done again, some after '
          'a test step, some over fresh memory of chosen content; every reported term and the gradient that reaches every output of the network are '
          'compared with those computed in double precision from the outputs and the samples; non-trivial when a step follows another')
  distinct_measure = 'distinct (program, dataset, network, batch sizes, step kinds, fault sites) tuples'
  real = ['projects/classification.py, segmentation.py, autoencoder.py, completion.py, image2shape.py (train_step, test_step, losses)',
          'ocnn.models in training mode, autograd', 'thsolver optimisers', 'datasets, transforms, collation']
  stubs = ['CUDA placement (identity)', 'data loader (batches of the plan)', 'answers of the network (those of the real network, in a quarter of the runs times 20)', 'tensor operations (seam that fails one or fills fresh memory)']
  assumptions = ['accuracies are compared up to the number of near ties (two scores closer than 1e-4)', 'a batch without any labelled point (or without any point) has no loss',
                 'after a failed step the caller clears the gradients and repeats the step with the samples read again']
  required_probes = ('failed', 'repeated', 'test-between', 'dirty', 'masked', 'labels', 'later-step', 'single', 'several') + tuple('kind:' + k for k in DATA)

  def prepare(self, base):
    c24.PROP.prepare(base)

  def gen(self, rng, idx, tier):
    kind = rng.wchoice([('cls', 4), ('seg', 4), ('ae', 4), ('completion', 2), ('i2s', 0.6)])
    if idx < 5:
      kind = list(DATA)[idx]
    big = kind in ('completion', 'i2s')
    D = 3 if kind == 'completion' else rng.choice([3, 4]) if kind in RECON else rng.choice([4, 5])
    model = {'cls': rng.wchoice([('lenet', 6), ('resnet', 4), ('hrnet', 0.5)]), 'seg': rng.wchoice([('segnet', 12), ('unet', 1)])}.get(kind, kind)
    if model == 'unet':
      D = 5
    n = 2 if big else rng.choice([2, 3, 4, 6])
    steps = []
    for _ in range(rng.choice([1, 2] if big else [2, 3, 4, 5, 7])):
      B = rng.randint(1, min(n, 4))
      steps.append({'ids': rng.sample(range(n), B), 'fault': faults.gen_fault(rng) if rng.chance(0.3) else None,
                    'test': rng.chance(0.2), 'dirty': rng.choice(DIRTY) if rng.chance(0.2) else None})
    hi = 40 if big else rng.choice([40, 40, 160])
    return {'kind': kind, 'data': rng.choice(DATA[kind]), 'model': model, 'depth': D, 'full': 2, 'train': [gen.cloud_spec(rng, 12, hi) for _ in range(n)],
            'test': [gen.cloud_spec(rng, 12, hi)], 'steps': steps, 'bt': 1, 'opt': rng.choice(['sgd', 'adam', 'adamw']), 'nempty': rng.chance(0.5),
            'feature': rng.choice(['ND', 'L', 'P', 'N']), 'clip': -1.0, 'distort': rng.chance(0.4), 'in_memory': rng.chance(0.5),
            'mask': rng.choice([-1, 0, 0, 1]), 'amp': rng.choice([1, 1, 1, 20]), 'seed': rng.seed31()}

  def simplify(self, plan):
    for i, e in enumerate(plan['steps']):
      for k, v in (('fault', None), ('test', False), ('dirty', None)):
        if e[k]:
          p = copy.deepcopy(plan)
          p['steps'][i][k] = v
          yield p
    for k, v in (('amp', 1), ('opt', 'sgd'), ('distort', False), ('in_memory', False), ('nempty', False)):
      if plan[k] != v:
        p = copy.deepcopy(plan)
        p[k] = v
        yield p

  # ----------------------------------------------------------------------
  def life(self, plan, scratch):
    os.makedirs(scratch, exist_ok=True)
    s = c24.PROP.solver(plan, scratch, 0)
    data, collate = s.train_loader.dataset, s.train_loader.collate
    notes = []
    seen = []

    def keep(m, i, o):
      a = plan['amp']
      if a != 1:        # far from right answers: large losses
        o = o * a if isinstance(o, torch.Tensor) else dict(o, logits={d: t * a for d, t in o['logits'].items()})
      ts = {'logits': o} if isinstance(o, torch.Tensor) else dict({'logits_%d' % d: t for d, t in o['logits'].items()}, signal=o['signal'])
      for t in ts.values():
        if t.requires_grad:
          t.retain_grad()
      seen.append(ts)
      return o
    s.model.register_forward_hook(keep)
    n_op, n_line = 600, 1200
    for k, e in enumerate(plan['steps']):
      def load():
        datasets.full_seed((plan['seed'] + 1009 * k) % (2 ** 31))
        return collate([data[i] for i in e['ids']])
      if e['test']:
        s.model.eval()
        s.test_step(load() if plan['kind'] == 'cls' else s.test_collate([s.test_data[0]]))
        notes.append(('test',))
      s.model.train()
      f = e['fault']
      for attempt in (0, 1):
        batch = load()
        truth = copy.deepcopy({a: b for a, b in batch.items() if a in ('label', 'points', 'points_gt', 'octree', 'octree_gt')})
        del seen[:]
        if f and not attempt:
          at = [int(f['frac'] * (n_op if f['where'] == 'op' else n_line))]
          seam = OpSeam(fail_at=at, kind=f['kind']) if f['where'] == 'op' else threads.LineFaults(fail_at=at, exc=KINDS[f['kind']])
        else:
          seam = OpSeam(poison=e['dirty'])
        s.optimizer.zero_grad()
        try:
          with seam:
            out = s.train_step(batch)
            out['train/loss'].backward()
        except INJECTED:
          if not seam.fired:
            raise
          notes.append(('failed', k, seam.fired[0][1], '%s:%s' % (f['kind'], f['where'])))
          continue
        except ValueError as x:      # statistics of a single row: documented by torch
          if 'more than 1 value per channel' not in str(x):
            raise
          notes.append(('single-row', k))
          break
        except Exception:
          if not seam.fired:
            raise
          notes.append(('failed', k, seam.fired[0][1], '%s:%s' % (f['kind'], f['where'])))
          continue
        if seam.fired:               # swallowed: the caller does the step again
          notes.append(('failed', k, seam.fired[0][1], '%s:%s' % (f['kind'], f['where'])))
          continue
        if f is None:
          n_op = max(seam.n, 1)
          n_line = 2 * n_op
        if len(seen) != 1:
          raise Violation('forward', 'step %d ran the network %d times' % (k, len(seen)))
        notes.append(('step', k, self.judge(plan, k, seen[0], truth, out, len(e['ids']))))
        s.optimizer.step()
        break
    return notes

  def judge(self, plan, k, outs, truth, rep, B):
    kind = plan['kind']
    what = '%s %s: step %d (batch of %d)' % (kind, plan['model'], k, B)
    ref, grads, masked = {}, {}, 0

    def ce(name, t, lab, key=''):
      lg = t.detach().double().numpy()
      if not np.isfinite(lg).all():
        raise Violation('outputs', '%s: the network answers %s' % (what, lg[~np.isfinite(lg)][:2]))
      if len(lg) != len(lab):
        raise Violation('outputs', '%s: %d answers for %d labels' % (what, len(lg), len(lab)))
      if not len(lab):
        return 0
      keep = lab > plan['mask'] if kind == 'seg' else np.ones(len(lab), bool)
      g = np.zeros_like(lg)
      grads[name] = g
      if not keep.any():
        return int((~keep).sum())
      x, y = lg[keep], lab[keep]
      m = x.max(1, keepdims=True)
      p = np.exp(x - m)
      p /= p.sum(1, keepdims=True)
      top = np.sort(x, axis=1)
      near = (top[:, -1] - top[:, -2] < 1e-4 * (1 + np.abs(x).max())).mean()
      lp = x - m - np.log(np.exp(x - m).sum(1, keepdims=True))
      ref['loss' + key] = (-lp[np.arange(len(y)), y].mean(), 0.0)
      ref['accu' + key] = ((x.argmax(1) == y).mean(), near)
      p[np.arange(len(y)), y] -= 1
      g[keep] = p / len(y)
      return int((~keep).sum())
    if kind == 'cls':
      ce('logits', outs['logits'], np.asarray(truth['label']).reshape(-1).astype(int))
    elif kind == 'seg':
      lab = points_of(truth['points'])[2].astype(int)
      masked = ce('logits', outs['logits'], lab)
      if 'loss' not in ref:
        return {'masked': masked, 'terms': 0}
    else:
      gt = truth['octree_gt'] if kind == 'completion' else truth['octree']
      xyz, bid, _ = points_of(truth['points_gt'] if kind == 'completion' else truth['points'])
      for name, t in outs.items():
        if name == 'signal':
          continue
        d = int(name.split('_')[1])
        full = {tuple(v) for v in voxels(xyz, bid, d).tolist()}
        x, y, z, b = (v.tolist() for v in gt.xyzb(d))
        ce(name, t, np.array([(i, j, l, m) in full for i, j, l, m in zip(b, x, y, z)], int), '_%d' % d)
      if set(outs) != {'logits_%d' % d for d in range(plan['full'], plan['depth'] + 1)} | {'signal'}:
        raise Violation('outputs', '%s: the network answers %s' % (what, sorted(outs)))
      want = self.truth_signal(gt, plan['depth'], xyz, bid, truth, kind)
      sig = outs['signal'].detach().double().numpy()
      if sig.shape != want.shape:
        raise Violation('outputs', '%s: signal %s for %s voxels' % (what, sig.shape, want.shape))
      if len(sig):
        ref['loss_reg'] = (((want - sig) ** 2).sum(1).mean(), 0.0)
        grads['signal'] = 2 * (sig - want) / len(sig)
        ref['loss'] = (sum(v for n, (v, _) in ref.items() if 'loss' in n), 0.0)
    for n, (v, near) in ref.items():
      r = rep.get('train/' + n)
      if r is None:
        raise Violation('not-reported', '%s: %s is not reported' % (what, n))
      tol = near + 1e-5 if 'accu' in n else 2e-4 * (1 + abs(v))
      if not abs(float(r.detach()) - v) <= tol:
        raise Violation('term', '%s: train/%s is %.6f, outputs and samples give %.6f' % (what, n, float(r.detach()), v))
    for n, g in grads.items():
      t = outs[n]
      got = np.zeros_like(g) if t.grad is None else t.grad.double().numpy()
      tol = 1e-6 + 2e-4 * np.abs(g).max()
      if not (np.abs(got - g) <= tol).all():
        j = int(np.abs(got - g).max(1).argmax())
        raise Violation('gradient', '%s: the gradient at %s row %d is %s, that of the loss %s' % (
            what, n, j, got[j].round(6).tolist()[:4], g[j].round(6).tolist()[:4]))
    return {'masked': masked, 'terms': len(ref), 'loss': round(float(ref['loss'][0]), 5) if 'loss' in ref else None}

  def truth_signal(self, gt, D, xyz, bid, truth, kind):
    """Mean unit normal of the points of a voxel and the offset of their mean
    along it, from the points."""
    pts = truth['points_gt'] if kind == 'completion' else truth['points']
    nor = np.concatenate([p.normals.numpy() for p in pts]) if isinstance(pts, (list, tuple)) else pts.normals.numpy()
    x, y, z, b = (v.numpy().astype(np.int64) for v in gt.xyzb(D, nempty=True))
    row = {t: i for i, t in enumerate(zip(b.tolist(), x.tolist(), y.tolist(), z.tolist()))}
    acc = np.zeros([len(b), 7])
    scaled = (xyz.astype(np.float32) + np.float32(1)) * np.float32(2 ** (D - 1))
    for q, m, c, v in zip(scaled.astype(np.float64), nor.astype(np.float64), bid, voxels(xyz, bid, D)):
      i = row[tuple(int(w) for w in v)]
      acc[i, :3] += m
      acc[i, 3:6] += q
      acc[i, 6] += 1
    length = np.linalg.norm(acc[:, :3], axis=1, keepdims=True)
    n = acc[:, :3] / np.maximum(length, 1e-12)
    c = acc[:, 3:6] / acc[:, 6:]
    frac = c - np.floor(c) - 0.5
    dis = (frac * n).sum(1, keepdims=True)
    real = gt.get_input_feature('ND', nempty=True).double().numpy()
    sure = (length[:, 0] > 1e-3 * acc[:, 6]) & (np.abs(c - np.round(c)).min(1) > 1e-4)
    ref = np.concatenate([n, dis], 1)
    ref[~sure] = real[~sure]           # cancelling normals: a rounding decides
    return ref

  # ----------------------------------------------------------------------
  def execute(self, plan, ctx):
    kind = plan['kind']
    ctx.probe('kind:' + kind)

    def go():
      try:
        return ('notes', self.life(plan, os.path.join(ctx.scratch, 'x')))
      except Violation as v:
        return ('violation', (v.cls, v.detail))
    r = simio.run_in_child(go, ctx.scratch, [])
    if r['status'] == 'raise':
      raise Violation('unexpected-error', '%s: %s\n%s' % (kind, r['error'], r['tb'][-800:]))
    if r['status'] != 'ok':
      raise Violation('process-died', '%s ended with %s' % (kind, r['status']))
    how, notes = r['value']
    if how == 'violation':
      raise Violation(*notes)
    sites, prev, failed = [], False, None
    for n in notes:
      ctx.count('steps')
      ctx.log(kind, plan['model'], str(n))
      if n[0] == 'test':
        ctx.probe('test-between')
      elif n[0] == 'failed':
        ctx.probe('failed')
        ctx.fault(n[3])
        sites.append(n[2])
        failed = n[1]
      elif n[0] == 'step':
        e = plan['steps'][n[1]]
        if prev:
          ctx.probe('later-step')
          ctx.nontrivial = True
        prev = True
        if failed == n[1]:
          ctx.probe('repeated')
        if e['dirty']:
          ctx.probe('dirty')
          ctx.fault('dirty-memory:' + e['dirty'])
        ctx.probe('single' if len(e['ids']) == 1 else 'several')
        ctx.probe('masked' if n[2]['masked'] else 'labels')
    ctx.state((kind, plan['data'], plan['model'], [(len(e['ids']), e['test'], e['dirty']) for e in plan['steps']], sites))


PROP = P()
