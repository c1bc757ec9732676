"""C17: training resumed from a checkpoint continues the same trajectory."""
import copy
import hashlib
import os

import numpy as np
import torch
import ocnn

from sim import catalog, gen, simio
from sim.core import Prop, Violation
from sim.torchseam import INJECTED, OpSeam

LAYERS = ['conv', 'deconv', 'dw', 'group', 'convbn', 'convbnrelu', 'deconvbnrelu', 'groupnorm', 'instnorm', 'batchnorm', 'droppath', 'conv1x1', 'conv1x1bn',
          'conv1x1bnrelu', 'resblock', 'resblock2', 'resblocks']
HOW = ['process', 'process', 'objects', 'reload']


def val(t):
  """A tensor as a value that compares by bits."""
  t = t.detach().contiguous()
  return hashlib.sha256(t.numpy().tobytes()).hexdigest()[:20] + str(tuple(t.shape))


class P(Prop):
  id = 'C17'
  runs = {'quick': 700, 'thorough': 40000}
  soft_s = {'quick': 60, 'thorough': 2700}
  run_timeout = 240
  shrink_lists = ('losses', 'saves')
  rule = ('a run trains one network or layer for 3-6 steps (seeded batches, optimiser, random draws seeded per step) without interruption in one process, '
          'then again with 1-4 losses: killed between two steps or by a failing tensor operation inside one, and resumed from the latest checkpoint file in '
          'a new process, in new objects of the same process, or in the same objects; loss, parameters, running statistics and predictions are compared at '
          'every step; non-trivial when training was lost after the first step')
  distinct_measure = 'distinct (network, configuration, optimiser, how and at which step lost, operation that failed) tuples'
  real = ['ocnn.models, ocnn.modules, ocnn.nn forward and backward', 'octree construction', 'torch.optim, state_dict, torch.save / torch.load']
  stubs = ['the training loop (its steps, seeds, saves and losses come from the plan)', 'tensor operations (seam that fails one, or decides what fresh memory holds)']
  assumptions = ['the random generators are seeded per step by the caller', 'one thread of CPU arithmetic, so that results are equal bit by bit']
  required_probes = tuple('how:' + h for h in sorted(set(HOW))) + ('lost-in-step', 'lost-between', 'several', 'replayed-steps', 'poisoned', 'adam', 'sgd', 'changed',
                     'reused-octree', 'warm-process') + tuple('net:' + n for n in catalog.NETS) + tuple('net:' + n for n in LAYERS)

  def prepare(self, base):
    os.environ.setdefault('SIM_SO', simio.build())
    p = os.path.join(base, 'warm.pth')
    torch.save({'a': torch.zeros(2)}, p)
    torch.load(p, map_location='cpu')
    os.remove(p)
    torch.optim.AdamW([torch.nn.Parameter(torch.zeros(1))])
    from torch.utils import checkpoint  # noqa

  def gen(self, rng, idx, tier):
    for _ in range(200):
      if idx == 5 or rng.chance(0.6):
        D = rng.choice([3, 4, 5, 6])
        F = 2
        nm = rng.wchoice([('LeNet', 4), ('ResNet', 4), ('HRNet', 4), ('SegNet', 4), ('UNet', 4), ('AutoEncoder', 3), ('OUNet', 2), ('Image2Shape', 1)])
        if idx == 5:
          nm, D = 'UNetFull', 6
        cfg = catalog.gen_net(rng, D, F, [nm], full_unet=0.03)
        if rng.chance(0.7):
          cfg['update'] = False
      else:
        D = rng.choice([3, 4])
        F = 2
        cfg = catalog.gen_op(rng, D, F, LAYERS)
      if catalog.supported(cfg, D, F):
        break
    big = cfg['op'] in ('UNetFull', 'OUNet', 'Image2Shape')
    T = 3 if big else rng.choice([3, 3, 4, 4, 5, 6])
    batches = [[gen.cloud_spec(rng, 3, 40) for _ in range(2 if big else rng.choice([2, 2, 3]))] for _ in range(rng.choice([1, 2, T]))]
    losses = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
      l = {'after': rng.randint(1, T - 1), 'how': rng.choice(HOW), 'fault': None}
      if rng.chance(0.5):
        l['fault'] = {'frac': rng.random(), 'kind': rng.choice(['oom', 'memerr', 'intr'])}
      losses.append(l)
    return {'cfg': cfg, 'D': D, 'F': F, 'T': T, 'batches': batches, 'opt': rng.choice(['sgd', 'adam', 'adamw']), 'losses': losses,
            'saves': sorted({rng.randint(1, T - 1) for _ in range(rng.choice([1, 2, 3, 5]))}), 'poison': rng.choice([None, None, 'nan', 'wave']),
            'reuse': rng.chance(0.3), 'warm': rng.chance(0.3), 'seed': rng.seed31()}

  def simplify(self, plan):
    for k, v in (('poison', None), ('reuse', False), ('warm', False), ('opt', 'sgd')):
      if plan[k] != v:
        p = copy.deepcopy(plan)
        p[k] = v
        yield p
    for i, l in enumerate(plan['losses']):
      if l['fault']:
        p = copy.deepcopy(plan)
        p['losses'][i]['fault'] = None
        yield p
    if len(plan['batches']) > 1:
      p = copy.deepcopy(plan)
      p['batches'] = p['batches'][:1]
      yield p
    for i, b in enumerate(plan['batches']):
      if len(b) > 2:
        p = copy.deepcopy(plan)
        p['batches'][i] = b[:2]
        yield p

  # ---------------------------------------------------------------------
  def optimiser(self, plan, net):
    ps = list(net.parameters())
    if not ps:
      return None
    if plan['opt'] == 'sgd':
      return torch.optim.SGD(ps, lr=0.02, momentum=0.9)
    if plan['opt'] == 'adam':
      return torch.optim.Adam(ps, lr=0.003)
    return torch.optim.AdamW(ps, lr=0.003, weight_decay=0.05)

  def batch(self, plan, k, cache):
    cfg, D, F = plan['cfg'], plan['D'], plan['F']
    i = k % len(plan['batches'])
    if plan['reuse'] and i in cache:
      return cache[i]
    specs = plan['batches'][i]
    octs = [gen.make_octree(s, D, F, True, 2) for s in specs]
    o = ocnn.octree.merge_octrees(octs)
    o.construct_all_neigh()
    seeds = [s['seed'] for s in specs]
    x = catalog.sample_data(cfg, D, F, octs, seeds)
    pts = catalog.sample_pts(cfg, D, F, seeds, specs)
    lay, _ = catalog.in_layout(cfg, D, F)
    if x is not None:
      x = torch.cat(x, 0)
    if pts is not None:
      pts = catalog.batch_pts(pts)[0]
    cache[i] = (o, x, pts)
    return cache[i]

  def forward(self, plan, net, k, cache):
    o, x, pts = self.batch(plan, k, cache)
    return [u for u in catalog.run(plan['cfg'], net, o, plan['D'], plan['F'], x, pts) if u.t.dtype.is_floating_point]

  def step(self, plan, net, opt, k, cache):
    net.train()
    torch.manual_seed((plan['seed'] + 7919 * k) % (2 ** 31))
    if opt is not None:
      opt.zero_grad()
    loss = 0
    for u in self.forward(plan, net, k, cache):
      t = u.t
      if t.numel():
        tgt = torch.sin(torch.arange(t.numel(), dtype=t.dtype) * 0.7).view(t.shape)
        loss = loss + ((t - tgt) ** 2).mean()
    if opt is not None and isinstance(loss, torch.Tensor) and loss.requires_grad:
      loss.backward()
      opt.step()
    return loss

  def observe(self, plan, net, loss, k, cache):
    """Everything a user can see after step k."""
    out = {'loss': val(loss) if isinstance(loss, torch.Tensor) else str(loss)}
    for n, t in net.state_dict().items():
      out['state ' + n] = val(t)
    net.eval()
    torch.manual_seed(4)
    with torch.no_grad():
      for u in self.forward(plan, net, k + 1, cache):
        out['prediction ' + u.name] = val(u.t)
    return out

  def fresh(self, plan, salt):
    torch.manual_seed((plan['seed'] ^ (salt * 104729)) % (2 ** 31))
    return catalog.make(plan['cfg'], plan['D'], plan['F'])

  def save(self, plan, net, opt, k, path):
    torch.save({'model': net.state_dict(), 'opt': opt.state_dict() if opt is not None else None, 'step': k}, path)

  def restore(self, net, opt, path):
    d = torch.load(path, map_location='cpu', weights_only=True)
    net.load_state_dict(d['model'])
    if opt is not None:
      opt.load_state_dict(d['opt'])
    return d['step']

  def life(self, plan, path, start, losses, salt, saves):
    """One process: trains from `start` (checkpoint or nothing). Handles losses
    that keep the process. Returns the observations and how it ended."""
    obs, cache = [], {}
    if plan['warm'] and start:
      # the process did other work before
      other = self.fresh(plan, salt + 50)
      try:
        self.step(plan, other, self.optimiser(plan, other), 1, {})
      except Exception:
        pass
    net = self.fresh(plan, salt)
    opt = self.optimiser(plan, net)
    if start:
      k = self.restore(net, opt, path)
    else:
      catalog.seed_params(net, plan['cfg']['seed'], True)
      k = 0
      if saves is not None:
        self.save(plan, net, opt, 0, path)
    losses = list(losses)
    sites, nops = [], 100
    while k < plan['T']:
      l = losses[0] if losses and losses[0]['after'] == k else None
      if l is not None:
        losses.pop(0)
        if l['fault']:
          # as many operations as the step before had
          at = int(l['fault']['frac'] * nops)
          seam = OpSeam(fail_at=[at], kind=l['fault']['kind'])
          try:
            with seam:
              self.step(plan, net, opt, k, cache)
          except INJECTED:
            pass
          except BaseException:
            if not seam.fired:
              raise
          sites += [seam.fired[0][1]] if seam.fired else []
        if l['how'] == 'process':
          return {'obs': obs, 'left': losses, 'done': False, 'sites': sites, 'how': l}
        if l['how'] == 'objects':
          salt += 7
          net = self.fresh(plan, salt)
          opt = self.optimiser(plan, net)
          cache = {} if l['fault'] else cache
        k = self.restore(net, opt, path)
        continue
      seam = OpSeam(poison=plan['poison'] if start else None)
      if losses or start and plan['poison']:
        with seam:
          loss = self.step(plan, net, opt, k, cache)
        nops = seam.n
      else:
        loss = self.step(plan, net, opt, k, cache)
      obs.append([k, self.observe(plan, net, loss, k, cache)])
      k += 1
      if saves is not None and k in saves:
        self.save(plan, net, opt, k, path)
    return {'obs': obs, 'left': losses, 'done': True, 'sites': sites, 'how': None}

  def process(self, plan, ctx, *args):
    r = simio.run_in_child(lambda: self.life(plan, *args), ctx.scratch, [])
    if r['status'] == 'raise':
      raise Violation('unexpected-error', '%s: %s\n%s' % (plan['cfg']['op'], r['error'], r['tb'][-600:]))
    if r['status'] != 'ok':
      raise Violation('process-died', '%s: training ended with %s' % (plan['cfg']['op'], r['status']))
    return r['value']

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    name = cfg['op']
    ctx.probe('net:' + name)
    ctx.probe('adam' if plan['opt'].startswith('adam') else 'sgd')
    path = os.path.join(ctx.scratch, 'ckpt.pth')
    ref = self.process(plan, ctx, path, False, [], 1, None)
    want = dict((k, o) for k, o in ref['obs'])
    first, last = want[0], want[plan['T'] - 1]
    if any(first[n] != last[n] for n in first if n.startswith('state ') and 'num_batches' not in n):
      ctx.probe('changed')
    losses = sorted(plan['losses'], key=lambda l: l['after'])
    # two losses at one step do not both happen in one life: keep them in order
    start, salt, life = False, 11, 0
    seen = []
    while True:
      r = self.process(plan, ctx, path, start, losses, salt, plan['saves'])
      for k, o in r['obs']:
        seen.append(k)
        w = want[k]
        if o != w:
          bad = sorted(n for n in set(o) | set(w) if o.get(n) != w.get(n))
          lost = [(l['how'], l['after'], l['fault'] and l['fault']['kind']) for l in plan['losses']]
          raise Violation('diverged', '%s%s: step %d after losses %s (saves after %s) differs from uninterrupted training in %s' % (
              name, ' (nempty)' if cfg['nempty'] else '', k, lost, plan['saves'], bad[:4]), key='diverged')
      ctx.log('life', life, [k for k, _ in r['obs']], r['sites'], r['done'])
      ctx.count('steps', len(r['obs']))
      for s in r['sites']:
        ctx.probe('lost-in-step')
        ctx.fault('op-failure:' + 'step')
        ctx.state(('site', name, s))
      used = len(losses) - len(r['left'])
      for l in losses[:used]:
        ctx.probe('how:' + l['how'])
        ctx.nontrivial = True
        ctx.fault('lost:' + l['how'])
        if not l['fault']:
          ctx.probe('lost-between')
      losses = r['left']
      if r['done']:
        break
      start = True
      salt += 31
      life += 1
      if life > 12:
        raise Violation('no-progress', 'training does not finish')
    if len(plan['losses']) > 1:
      ctx.probe('several')
    if len(seen) > len(set(seen)):
      ctx.probe('replayed-steps')
    if plan['poison'] and life:
      ctx.probe('poisoned')
    if plan['reuse']:
      ctx.probe('reused-octree')
    if plan['warm'] and life:
      ctx.probe('warm-process')
    ctx.state((name, cfg['nempty'], plan['opt'], str([(l['after'], l['how'], bool(l['fault'])) for l in plan['losses']])))
    if set(seen) != set(range(plan['T'])):
      raise Violation('missing-steps', 'steps %s were run of %d' % (sorted(set(seen)), plan['T']))


PROP = P()
