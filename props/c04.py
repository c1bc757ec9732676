"""C04: gradients belong to their own forward call."""
import copy
import gc
import os
import pickle

import numpy as np
import torch
import ocnn

from sim import catalog, faults, gen, snap
from sim.core import HarnessError, Prop, Violation, sut
from sim.torchseam import INJECTED, KINDS, OpSeam

NAMES = [n for n in catalog.OPS if n not in ('input', 'align', 'batchnorm', 'col2octree')]


def forked(fn):
  rfd, wfd = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      try:
        out = ('ok', fn())
      except Violation as v:
        out = ('violation', (v.cls, v.detail, v.key))
      except BaseException as e:
        import traceback
        out = ('error', '%s\n%s' % (e, traceback.format_exc()[-3000:]))
      with os.fdopen(wfd, 'wb') as f:
        pickle.dump(out, f)
    finally:
      os._exit(0)
  os.close(wfd)
  with os.fdopen(rfd, 'rb') as f:
    data = f.read()
  os.waitpid(pid, 0)
  st, v = pickle.loads(data)
  if st == 'violation':
    raise Violation(*v)
  if st == 'error':
    raise HarnessError(v)
  return v


def recomputes(plan, c):
  op = plan['mods'][c['mod'] % len(plan['mods'])]['op']
  return c['ckpt'] and (op == 'resblocks' or op == 'conv' and c['wrap'])


def stale(ex):
  """autograd's own refusal: a tensor saved by the forward call was overwritten"""
  return isinstance(ex, RuntimeError) and ('modified by an inplace operation' in str(ex) or 'has been modified inplace' in str(ex))


class World:
  def __init__(self, plan):
    self.D, self.F = plan['depth'], plan['full']
    self.octs, self.singles = [], []
    for specs in plan['octs']:
      self.octs.append(gen.make_batch(specs, self.D, self.F, True, 2))
      self.singles.append([gen.make_octree(s, self.D, self.F, True, 2) for s in specs])


def forward(w, plan, mods, call, ckpt):
  """Returns (leaf x, outputs with gradients, weights of the loss)"""
  D, F = w.D, w.F
  mi = call['mod'] % len(plan['mods'])
  cfg = plan['mods'][mi]
  oi = call['oct'] % len(w.octs)
  seeds = [(s['seed'] ^ call['seed']) % (2 ** 31) for s in plan['octs'][oi]]
  xs = catalog.sample_data(cfg, D, F, w.singles[oi], seeds)
  x = None if xs is None else torch.cat(xs).requires_grad_()
  ps = catalog.sample_pts(cfg, D, F, seeds, plan['octs'][oi])
  pts = None if ps is None else catalog.batch_pts(ps, call['seed'])[0]
  m = mods[mi]
  if m is not None:
    m.train(bool(call['train']) and cfg['op'] not in ('LeNet', 'AutoEncoder', 'Image2Shape', 'OUNet') or cfg['op'] == 'droppath')
  torch.manual_seed(call['seed'])
  o = w.octs[oi]
  cfg2 = dict(cfg)
  if cfg['op'] == 'conv' and call['wrap'] and ckpt:
    d = catalog.depth_of(cfg, D, F)
    from ocnn.modules.modules import ckpt_conv_wrapper
    t = ckpt_conv_wrapper(lambda a, b: m(a, b, d), x, o)
    outs = [catalog.Out('out', t, None)]
  elif cfg['op'] == 'resblocks':
    m.use_checkpoint = bool(ckpt)
    outs = catalog.run(cfg2, m, o, D, F, x, pts)
  else:
    cfg2['update'] = False if cfg['op'] in catalog.GEN_NETS else cfg.get('update')
    outs = catalog.run(cfg2, m, o, D, F, x, pts)
  res = [q.t for q in outs if q.t.is_floating_point() and q.t.requires_grad]
  ws = [torch.sin(torch.arange(t.numel(), dtype=torch.float32).view(t.shape) * 0.71 + call['seed'] % 17) for t in res]
  return m, x, res, ws


def backward(m, x, res, ws, retain):
  """Runs the backward pass; returns the gradients it produced."""
  if m is not None:
    for p in m.parameters():
      p.grad = None
  if x is not None:
    x.grad = None
  torch.autograd.backward(res, ws, retain_graph=retain)
  g = {}
  if x is not None and x.grad is not None:
    g['x'] = x.grad.clone().numpy()
  if m is not None:
    for n, p in m.named_parameters():
      if p.grad is not None:
        g[n] = p.grad.clone().numpy()
  return g


class P(Prop):
  id = 'C04'
  runs = {'quick': 1300, 'thorough': 50000}
  soft_s = {'quick': 60, 'thorough': 2400}
  shrink_lists = ('events',)
  shrink_min = {'events': 2}
  rule = ('a run interleaves 2-6 forward calls of 1-3 shared modules on 1-3 octrees with their backward passes in seeded order, repeated and '
          'failed backward passes, optimiser steps in between, inference calls, growth and neighbour construction of other octrees and garbage collection; non-trivial '
          'when at least two forward calls were pending at once')
  distinct_measure = 'distinct (event order, operators) sequences'
  real = ['ocnn.nn, ocnn.modules, ocnn.models, ocnn.octree', 'torch autograd, torch.utils.checkpoint']
  stubs = ['allocator / interrupt source during backward (OpSeam)']
  assumptions = ['batch statistics of a training-mode call belong to that call', 'random draws of a call are pinned by torch.manual_seed']
  required_probes = ('pending2', 'reversed', 'retained', 'failed-backward', 'ckpt', 'net', 'interference', 'train', 'stepped', 'input-reused', 'own-octree')

  def gen(self, rng, idx, tier):
    D = rng.choice([3, 3, 4, 4])
    F = rng.choice([1, 2, 2])
    noct = rng.choice([1, 2, 2, 3])
    octs = [[gen.cloud_spec(rng, 1, 25) for _ in range(rng.choice([1, 2]))] for _ in range(noct)]
    same = noct > 1 and rng.chance(0.5)
    if same:    # same shape, other contents
      octs[1] = copy.deepcopy(octs[0])
      if rng.chance(0.7):               # same node counts, other positions
        pm = rng.choice(gen.PERMS)
        octs[1] = [dict(s, perm=pm) for s in octs[1]]
    mods = []
    for _ in range(rng.choice([1, 1, 2, 3])):
      for _ in range(30):
        c = catalog.gen_net(rng, D, F) if rng.chance(0.15) else catalog.gen_op(rng, D, F, NAMES)
        if catalog.supported(c, D, F):
          mods.append(c)
          break
    if not mods:
      mods.append({**catalog.gen_op(rng, D, F, ['conv']), 'stride': 1})
    # one mode per module: running statistics moved by training calls are inputs of later inference calls
    train = [rng.chance(0.5) for _ in mods]
    calls = []
    alt = same and rng.chance(0.6)
    for i in range(rng.randint(2, 6)):
      k = 0 if alt else rng.randrange(len(mods))
      calls.append({'mod': k, 'oct': i % 2 if alt else rng.randrange(noct), 'seed': rng.seed31(), 'train': train[k],
                    'wrap': rng.chance(0.5), 'ckpt': rng.chance(0.7)})
    ev = []
    for i in range(len(calls)):
      ev.append(['F', i])
      for _ in range(rng.choice([1, 1, 1, 2])):
        ev.append(['B', i, rng.random()])
    # a seeded merge that keeps each forward before its backward passes
    mode = rng.choice(['random', 'all-forward', 'reversed', 'random'])
    fs = [e for e in ev if e[0] == 'F']
    bs = [e for e in ev if e[0] == 'B']
    if mode == 'all-forward':
      rng.shuffle(bs)
      ev = fs + bs
    elif mode == 'reversed':
      ev = fs + bs[::-1]
    else:
      pos = {}
      out = []
      pool = list(ev)
      while pool:
        ok = [e for e in pool if e[0] == 'F' or e[1] in pos]
        e = rng.choice(ok)
        pool.remove(e)
        out.append(e)
        if e[0] == 'F':
          pos[e[1]] = 1
      ev = out
    full = []
    nstep = rng.choice([0, 0, 1, 2])
    for e in ev:
      if nstep and rng.chance(0.15):    # an optimiser step between passes
        nstep -= 1
        full.append([rng.choice('SSY'), rng.randrange(len(mods)), rng.seed31()])
      if rng.chance(0.35):
        full.append([rng.choice(['infer', 'grow', 'neigh', 'gc', 'rebuild', 'mergeother', 'own', 'own']), rng.randrange(100), rng.seed31()])
      if e[0] == 'B' and rng.chance(0.2):
        full.append(['X', e[1], {'frac': round(rng.random(), 3), 'kind': rng.choice(['oom', 'memerr', 'intr'])}])
      full.append(e[:2])
    return {'depth': D, 'full': F, 'octs': octs, 'mods': mods, 'calls': calls, 'events': full}

  def simplify(self, plan):
    for i, o in enumerate(plan['octs']):
      for j, c in enumerate(o):
        if len(o) > 1:
          p = copy.deepcopy(plan)
          del p['octs'][i][j]
          yield p
        if c['n'] > 1:
          p = copy.deepcopy(plan)
          p['octs'][i][j]['n'] = c['n'] // 2
          yield p
    for k in ('train', 'wrap', 'ckpt'):
      for m in range(len(plan['mods'])):
        if any(c[k] for c in plan['calls'] if c['mod'] == m):
          p = copy.deepcopy(plan)
          for c in p['calls']:
            if c['mod'] == m:
              c[k] = False
          yield p

  def solo(self, plan):
    out = []
    for c in plan['calls']:
      with sut('a call alone: %s' % plan['mods'][c['mod'] % len(plan['mods'])]['op']):
        w = World(plan)
        mods = [catalog.build(m, w.D, w.F) for m in plan['mods']]
        try:
          m, x, res, ws = forward(w, plan, mods, c, False)
        except ValueError as e:
          if 'more than 1 value per channel' not in str(e):
            raise
          out.append(None)     # batch statistics need two rows
          continue
        n = OpSeam()
        if not res:
          out.append({'out': [], 'g': {}, 'n': 0})
          continue
        o = [t.detach().clone().numpy() for t in res]
        with n:
          g = backward(m, x, res, ws, False)
        out.append({'out': o, 'g': g, 'n': n.n})
    return out

  def execute(self, plan, ctx):
    ref = forked(lambda: self.solo(plan))
    with sut('building'):
      w = World(plan)
      mods = [catalog.build(m, w.D, w.F) for m in plan['mods']]
    D, F = w.D, w.F
    params0 = [[p.detach().clone() for p in m.parameters()] if m is not None else [] for m in mods]
    # parameters moved by an optimiser step: (in-place writes so far, whether they differ from the initial ones)
    version, dirty = [0] * len(mods), [False] * len(mods)
    made, moved = {}, set()

    def restore(mi):
      if dirty[mi]:
        with torch.no_grad():
          for p, q in zip(mods[mi].parameters(), params0[mi]):
            p.copy_(q)
        version[mi] += 1
        dirty[mi] = False
    last = {}
    for k, e in enumerate(plan['events']):
      if e[0] in ('B',):
        last[e[1]] = k
      if e[0] == 'X':
        last.setdefault(e[1], k)
    live = {}
    seq = []
    for k, e in enumerate(plan['events']):
      kind = e[0]
      if kind == 'F':
        if ref[e[1]] is None:
          continue
        c = plan['calls'][e[1]]
        op = plan['mods'][c['mod'] % len(plan['mods'])]['op']
        mi = c['mod'] % len(mods)
        restore(mi)     # calls are compared with the initial parameters
        made[e[1]] = version[mi]
        with sut('forward of call %d (%s)' % (e[1], op)):
          live[e[1]] = forward(w, plan, mods, c, c['ckpt'])
        if recomputes(plan, c):
          ctx.probe('ckpt')
        if c['train']:
          ctx.probe('train')
        if op in catalog.NETS:
          ctx.probe('net')
        if len([v for v in live.values() if v[2]]) > 1:
          ctx.nontrivial = True
          ctx.probe('pending2')
      elif kind in ('B', 'X'):
        if e[1] not in live or not live[e[1]][2]:
          continue
        m, x, res, ws = live[e[1]]
        r = ref[e[1]]
        c = plan['calls'][e[1]]
        op = plan['mods'][c['mod'] % len(plan['mods'])]['op']
        # recomputation replays the module in the mode of its forward call
        if m is not None:
          m.train(bool(c['train']) and op not in ('LeNet',) + catalog.GEN_NETS or op == 'droppath')
          if op == 'resblocks':
            m.use_checkpoint = bool(c['ckpt'])
        mi = c['mod'] % len(mods)
        if recomputes(plan, c):
          restore(mi)   # recomputation reads the parameters again
        tag = 'backward of call %d (%s) at event %d of %s' % (e[1], op, k, seq)
        if kind == 'X':
          at = min(max(0, r['n'] - 1), int(e[2]['frac'] * r['n']))
          seam = OpSeam(fail_at=[at], kind=e[2]['kind'])
          try:
            with seam:
              backward(m, x, res, ws, True)
          except INJECTED:
            pass
          except Exception as ex:
            if not seam.fired and not ((version[mi] != made[e[1]] or e[1] in moved) and stale(ex)):
              raise
          if seam.fired:
            ctx.fault('backward-' + e[2]['kind'])
            ctx.probe('failed-backward')
        else:
          keep = any(v[0] in ('B', 'X') and v[1] == e[1] for v in plan['events'][k + 1:])
          if version[mi] != made[e[1]] or e[1] in moved:
            ctx.probe('stepped')
            tag += ', %s changed in place since' % ('input' if e[1] in moved else 'parameters')
            try:
              g = backward(m, x, res, ws, keep)
            except RuntimeError as ex:
              if not stale(ex):
                with sut(tag):
                  raise
              ctx.probe('stale-refused')
              seq = (seq + ['refused%d' % e[1]])[-20:]
              continue
          else:
            with sut(tag):
              g = backward(m, x, res, ws, keep)
          if keep:
            ctx.probe('retained')
          if any(f < e[1] and plan['events'].index(['F', f]) < k and last.get(f, -1) > k for f in live):
            ctx.probe('reversed')
          if sorted(g) != sorted(r['g']):
            raise Violation('gradient-set', '%s: gradients for %s, alone for %s' % (tag, sorted(g), sorted(r['g'])))
          for n in r['g']:
            a, b = g[n], r['g'][n]
            s = 1e-6 + np.abs(b).max() if b.size else 1
            if a.shape != b.shape or not np.allclose(a, b, rtol=1e-4, atol=2e-5 * s, equal_nan=True):
              raise Violation('gradient', '%s: gradient of %s is off by %.3g (largest entry %.3g)' % (
                  tag, n, float(np.abs(a - b).max()) if a.shape == b.shape else -1, float(s)))
          ctx.log(k, 'B', e[1], op, sorted(g)[:5])
        if not any(v[0] in ('B', 'X') and v[1] == e[1] for v in plan['events'][k + 1:]):
          live[e[1]] = (m, x, [t.detach() for t in res], ws)
      elif kind == 'S':
        mi = e[1] % len(mods)
        if not params0[mi]:
          continue
        with torch.no_grad():
          for j, p in enumerate(mods[mi].parameters()):
            p.add_(gen.tensor(e[2] + j, *p.shape, scale=0.1))
        version[mi] += 1
        dirty[mi] = True
      elif kind == 'Y':     # the caller reuses the input buffer of a call that is over
        ok = [i for i in sorted(live) if live[i][1] is not None and not recomputes(plan, plan['calls'][i])]
        if not ok:
          continue
        i = ok[e[1] % len(ok)]
        with torch.no_grad():
          live[i][1].add_(gen.tensor(e[2], *live[i][1].shape))
        moved.add(i)
        ctx.probe('input-reused')
      else:
        ctx.probe('interference')
        with sut('interference ' + kind):
          self.interfere(kind, e, w, plan, mods, ctx, lambda i: any(
              recomputes(plan, plan['calls'][j]) and plan['calls'][j]['oct'] % len(w.octs) == i for j in live))
      seq.append('%s%s' % (kind, e[1] if kind in 'FBX' else ''))
      seq = seq[-20:]
    for i, (m, x, res, ws) in live.items():
      for a, b in zip(res, ref[i]['out']):
        t = a.detach().numpy()
        s = 1e-6 + (np.abs(b).max() if b.size else 1)
        if t.shape != b.shape or not np.allclose(t, b, rtol=1e-4, atol=1e-5 * s, equal_nan=True):
          raise Violation('output-changed', 'the output of call %d was changed by later events %s' % (i, seq))
    for m, ps, v in zip(mods, params0, version):
      if m is not None and not v:
        for p, q in zip(m.parameters(), ps):
          if not torch.equal(p, q):
            raise Violation('parameter-changed', 'a parameter changed without an optimiser step')
    ctx.count('steps', len(plan['events']))
    ctx.state((seq, [m['op'] for m in plan['mods']]))

  def interfere(self, kind, e, w, plan, mods, ctx, busy):
    D, F = w.D, w.F
    if kind == 'own':
      # the octree of pending calls is changed; later calls use a fresh one
      i = e[1] % len(w.octs)
      if busy(i):
        return
      o, specs = w.octs[i], plan['octs'][i]
      w.octs[i] = gen.make_batch(specs, D, F, True, 2)
      if e[2] % 3 and F < D:
        d = F + e[2] % (D - F)
        f = (np.random.RandomState(e[2] % 1000).permutation(o.children[d].numpy()) >= 0).astype(np.int64)
        o.octree_split(torch.from_numpy(f), d)
        o.octree_grow(d + 1)
      elif e[2] % 2:
        o.construct_all_neigh()
      else:
        o.build_octree(ocnn.octree.merge_points([gen.make_points(dict(s, perm=[2, 0, 1]), True, 2) for s in specs]))
        o.construct_all_neigh()
      ctx.probe('own-octree')
      return
    if kind == 'gc':
      gc.collect()
      return
    if kind == 'infer':
      i = e[1] % len(mods)
      c = {'mod': i, 'oct': e[2], 'seed': e[2], 'train': False, 'wrap': False}
      with torch.no_grad():
        try:
          forward(w, plan, mods, c, False)
        except RuntimeError:
          if plan['mods'][i]['op'] != 'resblocks':
            raise
      return
    if kind == 'grow':
      o = ocnn.octree.init_octree(D, F, 2)
      d = F
      while d < D:
        n = int(o.nnum[d])
        o.octree_split(torch.from_numpy((np.random.RandomState(e[2] % 1000 + d).rand(n) < 0.3).astype(np.int64)), d)
        o.octree_grow(d + 1)
        d += 1
      return
    if kind == 'neigh' or kind == 'mergeother':
      o = ocnn.octree.merge_octrees([w.singles[e[1] % len(w.singles)][0]] * 2)
      o.construct_all_neigh()
      return
    if kind == 'rebuild':
      specs = plan['octs'][e[1] % len(plan['octs'])]
      gen.make_batch([dict(s, seed=s['seed'] ^ 5) for s in specs], D, F, True, 2)


PROP = P()
