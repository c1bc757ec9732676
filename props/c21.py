"""C21: data-parallel gradients equal whole-batch gradients."""
import copy

import numpy as np
import torch
import ocnn

from sim import catalog, gen, threads
from sim.core import Prop, Violation, sut
from sim.torchseam import INJECTED, OpSeam

SKIP = ('droppath', 'align', 'input', 'col2octree', 'maxpool')
OPS = sorted({o for o in catalog.OPS if o not in SKIP})
NETS = [n for n in catalog.NETS if n != 'UNetFull']
DOUBLE = catalog.CONV + ['unpool', 'globalpool', 'pad', 'depad', 'groupnorm', 'instnorm', 'batchnorm', 'octree2voxel', 'octree2col', 'conv1x1', 'conv1x1bn',
                         'conv1x1bnrelu', 'resblock', 'resblock2', 'resblocks', 'LeNet', 'ResNet']
MODES = ['serial', 'replicas', 'accumulate', 'threads', 'threads-shared']


class P(Prop):
  id = 'C21'
  runs = {'quick': 1500, 'thorough': 60000}
  soft_s = {'quick': 60, 'thorough': 2700}
  shrink_lists = ('samples', 'switches', 'faults')
  shrink_min = {'samples': 1}
  rule = ('a run computes the gradients of one operator or network (parameters and input features) for a batch of 1-5 samples, and again split over 1-4 '
          'workers in a seeded way: one after another, on copies of the module, accumulating, or interleaved at seeded tensor operations and source lines, '
          'with workers that fail at a seeded operation and recompute; sums over the workers are compared with the batch; non-trivial with two or more '
          'non-empty shards')
  distinct_measure = 'distinct (operator, mode, split, completion order, failed operations or taken switches) tuples'
  real = ['ocnn.models, ocnn.modules, ocnn.nn forward and backward', 'octree construction and merging', 'torch autograd and CPU kernels']
  stubs = ['the workers and the reduction (threads whose interleaving the plan decides)', 'tensor operations (seam that fails one)']
  assumptions = ['batch statistics frozen (evaluation mode)', 'sums are equal to rounding',
                 'max pooling of non-empty nodes is not taken below the full depth, where nodes without points have no value']
  required_probes = tuple('mode:' + m for m in MODES) + tuple('op:' + o for o in OPS + NETS) + (
      'shards', 'one-sample-shards', 'failed', 'failed-twice', 'switched', 'params', 'input-grad', 'tiny-sample', 'recompute')

  def gen(self, rng, idx, tier):
    while True:
      D = rng.choice([3, 4, 5])
      F = rng.choice([1, 2, 2])
      cfg = catalog.gen_net(rng, D, F, NETS, full_unet=0) if rng.chance(0.35) else catalog.gen_op(rng, D, F, OPS)
      if cfg['op'] in catalog.GEN_NETS:
        cfg['update'] = False
        if cfg['op'] == 'Image2Shape' and rng.chance(0.6):
          continue
      # pooling of non-empty nodes stays above the full layers
      if cfg['nempty'] and (cfg['op'] in NETS and D - cfg['stages'] < F or cfg['op'] == 'unpool' and catalog.depth_of(cfg, D, F) <= F or
                            cfg['op'] in ('resblock', 'resblock2') and cfg['stride'] == 2 and catalog.depth_of(cfg, D, F) <= F):
        continue
      if catalog.supported(cfg, D, F):
        break
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    W = rng.choice([1, 2, 2, 3, 4])
    samples = [dict(gen.cloud_spec(rng, 1, 25), w=rng.randrange(W)) for _ in range(n)]
    if cfg['op'] not in NETS and rng.chance(0.3 if cfg['op'] in catalog.CONV else 0.1):     # thousands of nodes
      samples = samples[:3]
      for s in samples:
        s.update(n=rng.choice([200, 600, 1500]), kind='uniform')
    mode = rng.choice(MODES)
    faults = []
    if mode != 'accumulate' and rng.chance(0.45):
      faults = [{'w': rng.randrange(W), 'frac': rng.random(), 'kind': rng.choice(['oom', 'memerr', 'intr'])} for _ in range(rng.choice([1, 1, 2, 3]))]
    return {'cfg': cfg, 'D': D, 'F': F, 'samples': samples, 'mode': mode, 'faults': faults, 'order': rng.seed31(), 'shuffle': rng.chance(0.5),
            'switches': [[rng.random(), rng.randrange(4)] for _ in range(rng.randint(1, 8))] if mode.startswith('threads') else []}

  def simplify(self, plan):
    for k, v in (('mode', 'serial'), ('shuffle', False)):
      if plan[k] != v:
        p = copy.deepcopy(plan)
        p[k] = v
        yield p
    for i, s in enumerate(plan['samples']):
      if s['n'] > 1:
        p = copy.deepcopy(plan)
        p['samples'][i]['n'] = s['n'] // 2
        yield p

  # ---------------------------------------------------------------------
  def dtype(self, cfg):
    return torch.float64 if cfg['op'] in DOUBLE else torch.float32

  def batch(self, plan, ids):
    cfg, D, F = plan['cfg'], plan['D'], plan['F']
    specs = [plan['samples'][i] for i in ids]
    octs = [gen.make_octree(s, D, F, True, 2) for s in specs]
    o = ocnn.octree.merge_octrees(octs)
    o.construct_all_neigh()
    seeds = [s['seed'] for s in specs]
    xs = catalog.sample_data(cfg, D, F, octs, seeds)
    x = torch.cat(xs, 0).to(self.dtype(cfg)) if xs is not None else None
    ps = catalog.sample_pts(cfg, D, F, seeds, specs)
    pts, prows = catalog.batch_pts(ps) if ps is not None else (None, None)
    return o, x, pts, prows

  def grads(self, plan, net, ids, backward=False):
    """Gradients of the samples `ids`: {name: array}; input gradients by sample."""
    cfg, D, F = plan['cfg'], plan['D'], plan['F']
    o, x, pts, prows = self.batch(plan, ids)
    if x is not None:
      x.requires_grad_()
    loss = 0
    for j, u in enumerate(catalog.run(cfg, net, o, D, F, x, pts)):
      t = u.t
      if not t.dtype.is_floating_point:
        continue
      oo = getattr(u, 'octree', o)
      for b, i in enumerate(ids):
        rows = catalog.sample_rows(oo, ('node',) + tuple(u.layout[1:]) if u.layout[0] == 'onode' else u.layout, b, prows)
        v = t[rows].reshape(len(rows), -1)
        r = torch.arange(v.shape[0], dtype=v.dtype)[:, None]
        c = torch.arange(v.shape[1], dtype=v.dtype)[None]
        w = torch.sin(0.9 * r + 1.7 * c + (plan['samples'][i]['seed'] % 97) + j)
        loss = loss + (v * w).sum() + 0.05 * (v * v).sum()
    names = [n for n, _ in net.named_parameters()] if net is not None else []
    ps = [p for _, p in net.named_parameters()] if net is not None else []
    out = {}
    inputs = ps + ([x] if x is not None else [])
    if backward:
      before = [None if p.grad is None else p.grad.clone() for p in ps]
      loss.backward()
      gs = [None if p.grad is None else p.grad - (0 if b is None else b) for p, b in zip(ps, before)] + ([x.grad] if x is not None else [])
    else:
      gs = torch.autograd.grad(loss, inputs, allow_unused=True)
    for n, g in zip(names, gs):
      out['p ' + n] = np.zeros(0) if g is None else g.detach().double().numpy().copy()
    if x is not None:
      g = gs[-1] if gs[-1] is not None else torch.zeros_like(x)
      lay, _ = catalog.in_layout(cfg, D, F)
      for b, i in enumerate(ids):
        rows = [b] if lay is None else catalog.sample_rows(o, lay, b)
        out['x %d' % i] = g[rows].detach().double().numpy().copy()
    return out

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    name = cfg['op']
    ctx.probe('op:' + name)
    n = len(plan['samples'])
    W = 1 + max(s['w'] for s in plan['samples'])
    shards = [[i for i in range(n) if plan['samples'][i]['w'] == w] for w in range(W)]
    r = np.random.RandomState(plan['order'] % (2 ** 31))
    if plan['shuffle']:
      for s in shards:
        r.shuffle(s)
    shards = [(w, [int(i) for i in s]) for w, s in enumerate(shards) if s]
    order = [int(i) for i in r.permutation(len(shards))]
    shards = [shards[i] for i in order]
    if len(shards) > 1:
      ctx.probe('shards')
      ctx.nontrivial = True
      if all(len(s) == 1 for _, s in shards):
        ctx.probe('one-sample-shards')
    if any(s['n'] <= 2 for s in plan['samples']):
      ctx.probe('tiny-sample')
    mode = plan['mode']
    ctx.probe('mode:' + mode)
    net = catalog.build(cfg, plan['D'], plan['F'])
    if net is not None:
      net = net.to(self.dtype(cfg))
      if any(True for _ in net.parameters()):
        ctx.probe('params')
    # re-computation (checkpointing) is incompatible with autograd.grad
    bw = name == 'resblocks' and cfg['ckpt']
    if bw:
      ctx.probe('recompute')
    with sut('%s: gradients of the whole batch' % name):
      whole = self.grads(plan, copy.deepcopy(net) if bw else net, list(range(n)), bw)
    parts, notes = [], []
    nops = {}
    if plan['faults']:
      for w, ids in shards:
        b = OpSeam()
        with sut('%s: gradients of samples %s' % (name, ids)), b:
          self.grads(plan, copy.deepcopy(net) if bw else net, ids, bw)
        nops[w] = b.n

    def worker(w, ids, m, backward=False):
      """Fails as planned, recomputes, delivers once."""
      for f in [f for f in plan['faults'] if f['w'] == w]:
        at = min(nops[w] - 1, int(f['frac'] * nops[w]))
        seam = OpSeam(fail_at=[at], kind=f['kind'])
        try:
          with seam:
            self.grads(plan, m, ids, bw)
        except INJECTED:
          pass
        except BaseException:
          if not seam.fired:
            raise
        if seam.fired:
          notes.append((w, f['kind'], seam.fired[0][1]))
      return self.grads(plan, m, ids, backward or bw)
    what = '%s%s, %s split as %s' % (name, ' (nempty)' if cfg['nempty'] else '', mode, [ids for _, ids in shards])
    if mode.startswith('threads'):
      ms = [net if mode == 'threads-shared' and not bw else copy.deepcopy(net) for _ in shards]
      fns = [(lambda w=w, ids=ids, m=m: worker(w, ids, m)) for (w, ids), m in zip(shards, ms)]
      first = threads.Scheduler([(lambda ids=ids, m=m: self.grads(plan, m, ids, bw)) for (w, ids), m in zip(shards, ms)], [], record=True)
      for t in first.run():
        if t.exc is not None:
          raise Violation('unexpected-error', '%s: %s: %s' % (what, type(t.exc).__name__, str(t.exc)[:300]))
      sw, _ = threads.place([[fr, tgt, 'line'] for fr, tgt in plan['switches']], first.positions)
      sch = threads.Scheduler(fns, sw)
      for t in sch.run():
        if t.exc is not None:
          raise Violation('unexpected-error', '%s: worker %d: %s: %s (switches %s)' % (what, t.idx, type(t.exc).__name__, str(t.exc)[:300], sch.taken[-4:]))
        parts.append(t.result)
      if sch.taken:
        ctx.probe('switched')
        ctx.fault('thread-switch', len(sch.taken))
      ctx.log('taken', sch.taken)
      ctx.count('steps', sch.step)
    else:
      for w, ids in shards:
        m = net if mode in ('serial', 'accumulate') else copy.deepcopy(net)
        with sut(what):
          parts.append(worker(w, ids, m, mode == 'accumulate'))
    for x in notes:
      ctx.fault('op-failure:' + x[1])
      ctx.probe('failed')
    if len(notes) > 1:
      ctx.probe('failed-twice')
    ctx.log(name, mode, [ids for _, ids in shards], notes)
    ctx.state((name, mode, str(shards), str(notes)))
    tol = 1e-10 if self.dtype(cfg) == torch.float64 else 1e-4
    for k, g in whole.items():
      have = [p[k] for p in parts if k in p and p[k].size]
      if k.startswith('x '):
        ctx.probe('input-grad')
        if len(have) != 1 and g.size:
          raise Violation('input-gradient', '%s: %d gradients for the input of sample %s' % (what, len(have), k[2:]))
      if not have:
        if g.size and np.abs(g).max() > 0:
          raise Violation('gradient', '%s: no worker has a gradient of %s' % (what, k))
        continue
      tot = sum(have)
      if not g.size:
        g = np.zeros_like(tot)
      scale = sum(np.abs(h).max() for h in have) + np.abs(g).max() + 1e-12
      if tot.shape != g.shape or not np.isfinite(tot).all() or not np.isfinite(g).all():
        raise Violation('gradient', '%s: %s is not a finite gradient of the same shape' % (what, k))
      d = np.abs(tot - g).max() if g.size else 0
      if d > tol * scale:
        raise Violation('input-gradient' if k.startswith('x ') else 'gradient', '%s: %s differs from the gradient of the whole batch by %.3g (scale %.3g)%s' % (
            what, k, d, scale, ', after failures %s' % notes if notes else ''))
      ctx.stats['max:rounding'] = max(ctx.stats.get('max:rounding', 0), float(d / scale / tol))


PROP = P()
