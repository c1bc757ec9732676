"""C01: concurrent callers get the results they would get alone."""
import copy
import os
import pickle

import numpy as np
import torch
import ocnn

from sim import catalog, gen, snap, threads
from sim.core import HarnessError, Prop, Violation, sut
from sim.torchseam import digest

KLISTS = [[3], [3, 3], [2], [3, 1, 1], [1, 3], [3, 3, 3], [1, 1, 3], [2, 2]]


def octree_result(o, depth):
  r = {}
  for k in ('keys', 'children', 'neighs', 'features', 'normals', 'points'):
    for d, t in enumerate(getattr(o, k)):
      if t is not None:
        r['%s[%d]' % (k, d)] = t
  r['nnum'] = o.nnum
  r['nnum_nempty'] = o.nnum_nempty
  r['bs'] = torch.tensor([o.batch_size, o.depth, o.full_depth])
  return r


class World:
  """Everything the callers share."""

  def __init__(self, plan, mods=None):
    D, F = plan['depth'], plan['full']
    self.D, self.F = D, F
    self.points = [gen.make_points(s, True, 2, True) for s in plan['clouds']]
    self.singles = [gen.make_octree(s, D, F, True, 2) for s in plan['clouds']]
    self.seeds = [s['seed'] for s in plan['clouds']]
    self.batch = ocnn.octree.merge_octrees([gen.make_octree(s, D, F, True, 2) for s in plan['clouds']])
    self.batch.construct_all_neigh()
    # a second batch of the same samples, for callers that share a layer only
    order = list(range(len(plan['clouds'])))[::-1] + [0] * (len(plan['clouds']) > 1)
    self.batch2 = ocnn.octree.merge_octrees([gen.make_octree(plan['clouds'][i], D, F, True, 2) for i in order])
    self.batch2.construct_all_neigh()
    self.scenes = [self.batch, self.batch2]
    self.mods, self.x, self.pts = [], [], []
    for i, cfg in enumerate(plan['ops']):
      self.mods.append(catalog.build(cfg, D, F) if mods is None else mods[i])
      self.x.append([])
      self.pts.append([])
      for idx in (list(range(len(plan['clouds']))), order):
        seeds = [self.seeds[i] for i in idx]
        xs = catalog.sample_data(cfg, D, F, [self.singles[i] for i in idx], seeds)
        self.x[-1].append(None if xs is None else torch.cat(xs))
        ps = catalog.sample_pts(cfg, D, F, seeds, [plan['clouds'][i] for i in idx])
        self.pts[-1].append(None if ps is None else catalog.batch_pts(ps, cfg['seed'])[0])
    self.klists = [list(k) for k in KLISTS]

  def snapshot(self):
    return snap.any_({'points': self.points, 'singles': self.singles, 'batch': self.batch, 'batch2': self.batch2,
                      'mods': [m for m in self.mods if m is not None], 'x': [x for q in self.x for x in q if x is not None],
                      'pts': [p for q in self.pts for p in q if p is not None], 'klists': self.klists})


def act(w, a, plan):
  """One action of a caller; returns a dict of tensors."""
  k, D, F = a['do'], w.D, w.F
  if k == 'build':
    o = ocnn.octree.Octree(D, F)
    p = w.points[a['i'] % len(w.points)]
    o.build_octree(p)
    if a['b']:
      o.construct_all_neigh()
    return octree_result(o, D)
  if k == 'merge':
    idx = [i % len(w.singles) for i in a['which']]
    o = ocnn.octree.merge_octrees([w.singles[i] for i in idx])
    if a['b']:
      o.construct_all_neigh()
    return octree_result(o, D)
  if k == 'mergepts':
    idx = [i % len(w.points) for i in a['which']]
    p = ocnn.octree.merge_points([w.points[i] for i in idx])
    if a['b']:
      o = ocnn.octree.Octree(D, F, batch_size=len(idx))
      o.build_octree(p)
      return octree_result(o, D)
    return {'p': p.points, 'n': p.normals, 'f': p.features, 'l': p.labels, 'b': p.batch_id}
  if k == 'make':
    cfg = a['cfg']
    kl = w.klists[a['i'] % len(w.klists)] if a['b'] and cfg['op'] != 'avgpool' else None
    cfg = dict(cfg)
    if kl is not None:
      full = (list(KLISTS[a['i'] % len(w.klists)]) * 3)[:len(KLISTS[a['i'] % len(w.klists)])]
      full = full + [full[-1]] * (3 - len(full))
      cfg['kernel'] = ''.join(map(str, full))
      cfg['default_kernel'] = False
    m = catalog.build(cfg, D, F, klist=kl)
    r = {}
    if m is not None:
      for n, p in m.named_parameters():
        r['shape ' + n] = torch.tensor(list(p.shape))
    xs = catalog.sample_data(cfg, D, F, w.singles, w.seeds)
    ps = catalog.sample_pts(cfg, D, F, w.seeds, plan['clouds'])
    with torch.no_grad():
      for q in catalog.run(cfg, m, w.batch, D, F, None if xs is None else torch.cat(xs),
                           None if ps is None else catalog.batch_pts(ps, 1)[0]):
        r[q.name] = q.t
    return r
  if k in ('op', 'bwd'):
    i = a['i'] % len(plan['ops'])
    sc = a.get('scene', 0)
    cfg, m, x, p, o = plan['ops'][i], w.mods[i], w.x[i][sc], w.pts[i][sc], w.scenes[sc]
    if a.get('vary') and x is not None:      # an input of this caller alone
      x = x * (0.4 + 0.37 * a['vary']) + 0.1 * a['vary']
    if a.get('vary') and p is not None:
      p = p.flip(0) if a['vary'] == 1 else p.roll(a['vary'], 0)
    # torch does not allow autograd.grad through re-entrant checkpointing
    if k == 'op' or (cfg['op'] == 'resblocks' and cfg['ckpt']):
      with torch.no_grad():
        return {q.name: q.t for q in catalog.run(cfg, m, o, D, F, x, p)}
    xx = None if x is None else x.clone().requires_grad_()
    outs = catalog.run(cfg, m, o, D, F, xx, p)
    r = {q.name: q.t.detach() for q in outs}
    fl = [q.t for q in outs if q.t.is_floating_point() and q.t.requires_grad]
    if fl:
      ins = ([xx] if xx is not None else []) + ([v for v in m.parameters() if v.requires_grad] if m is not None else [])
      gs = torch.autograd.grad(sum((t * torch.sin(torch.arange(t.numel()).view(t.shape) * 0.9)).sum() for t in fl), ins, allow_unused=True)
      for j, g in enumerate(gs):
        if g is not None:
          r['grad%d' % j] = g
    return r
  if k == 'grow':
    o = ocnn.octree.init_octree(D, F, a['n'])
    for d in range(F, D):
      n = int(o.nnum[d])
      t = torch.from_numpy((np.random.RandomState(a['i'] + d).rand(n) < 0.3).astype(np.int64))
      o.octree_split(t, d)
      o.octree_grow(d + 1)
    return octree_result(o, D)
  if k == 'growcopy':
    o = w.batch.to('cpu:0')
    n = int(o.nnum[D - 1])
    r = octree_result(o, D)
    if D - 1 >= F:
      t = torch.from_numpy((np.random.RandomState(a['i']).rand(n) < 0.4).astype(np.int64))
      o.octree_split(t, D - 1)
      o.octree_grow(D)
      r.update({'grown ' + k: v for k, v in octree_result(o, D).items() if k.startswith(('keys', 'children', 'neighs'))})
    return r
  if k == 'query':
    r = {}
    o = w.batch
    for j, kern in enumerate(['333', '311', '222', '133']):
      for ne in (False, True):
        r['%s%s' % (kern, ne)] = o.get_neigh(1 + (a['i'] + j) % D, kern, 1 + (a['i'] >> j) % 2, ne)
    x, y, z, b = o.xyzb(D, True)
    r['found'] = o.search_xyzb(torch.stack([x, y, z, b], 1), D, True)
    p = o.to_points(rescale=a['b'])
    r['pts'] = p.points
    r['keyD'] = o.key(D, a['b'])
    for f in ('ND', 'LPF'):
      r[f] = o.get_input_feature(f, a['b'])
    return r
  if k == 'points':
    p = w.points[a['i'] % len(w.points)]
    lo, hi = p.bbox()
    q = p.to('cpu:0')
    q2 = p[torch.arange(0, p.points.shape[0], 2)] if hasattr(p, '__getitem__') else p
    r = {'lo': lo, 'hi': hi, 'q': q.points, 'n': q.normals, 'half': q2.points}
    x = torch.arange(40) * 5 % 200
    key = ocnn.octree.xyz2key(x, x * 3 % 256, x * 7 % 256, x % 5, 9)
    r['key'] = key
    for j, t in enumerate(ocnn.octree.key2xyz(key, 9)):
      r['dec%d' % j] = t
    m = torch.empty(5, dtype=torch.int64, device='meta')
    r['meta'] = torch.tensor(ocnn.octree.xyz2key(m, m, m, m, 5).shape)
    r['meta2'] = torch.tensor(ocnn.octree.key2xyz(m, 5)[0].shape)
    return r
  raise HarnessError(k)


def to_np(res):
  out = {}
  for k, t in res.items():
    if isinstance(t, torch.Tensor):
      out[k] = t.detach().numpy() if t.device.type == 'cpu' else np.array(t.shape)
  return out


class P(Prop):
  id = 'C01'
  runs = {'quick': 1500, 'thorough': 30000}
  soft_s = {'quick': 60, 'thorough': 2700}
  shrink_lists = ('rounds', 'switches', 'rare')
  rule = ('a run executes 2-4 callers (1-3 actions each) as real threads over one shared world under a seeded schedule of up to 80 '
          'switches at repository lines and tensor operations; non-trivial when at least two switches happened inside operations')
  distinct_measure = 'distinct interleavings (sequence of (from, to, code position) of the switches taken)'
  real = ['ocnn.octree, ocnn.nn, ocnn.modules, ocnn.models, ocnn.utils', 'CPython threads', 'torch CPU kernels and autograd']
  stubs = ['thread scheduler (one thread runs at a time; switches at lines and tensor operations)', 'locks created by the code under test']
  assumptions = ['a tensor operation of torch is atomic', 'networks are in evaluation mode', 'global torch random state is not compared']
  required_probes = ('net', 'bwd', 'make', 'interp', 'switched')

  def duel(self, rng):
    """Two or three callers of one layer with inputs of their own, under many
    schedules with a single preemption each."""
    D, F = rng.choice([2, 3, 3]), rng.choice([1, 2])
    while True:
      c = catalog.gen_net(rng, D, F, full_unet=0) if rng.chance(0.06) else catalog.gen_op(rng, D, F)
      if catalog.supported(c, D, F) and c['op'] != 'droppath':
        break
    n = rng.choice([2, 2, 2, 3])
    do = rng.choice(['op', 'op', 'bwd'])
    vs = rng.sample([0, 1, 2, 3], n)
    tasks = [[{'do': do if rng.chance(0.8) else 'op', 'i': 0, 'b': False, 'vary': v, 'scene': rng.choice([0, 0, 1])}] for v in vs]
    if rng.chance(0.3):
      do = rng.choice(['build', 'build', 'merge', 'mergepts', 'query', 'points', 'grow', 'growcopy'])
      tasks = [[{'do': do, 'i': rng.randrange(1000), 'b': rng.chance(0.5), 'n': 1 + v % 3,
                 'which': [rng.randrange(4) for _ in range(rng.randint(1, 3))]}] for v in vs]
    rounds = []
    m = 16
    for k in range(m):
      f = (k + rng.random()) / m / n        # inside the first caller
      sw = [[round(f, 5), 1 + rng.randrange(n - 1)]]
      if rng.chance(0.3):                   # and back, inside the second
        sw.append([round(f + rng.random() / n, 5), 0])
      rounds.append([sw, []])
    return {'depth': D, 'full': F, 'clouds': [gen.cloud_spec(rng, 1, 12) for _ in range(rng.choice([1, 2, 3]))], 'ops': [c], 'tasks': tasks,
            'switches': rounds[0][0], 'rare': [], 'rounds': rounds[1:], 'order': list(range(n))}

  def gen(self, rng, idx, tier):
    if rng.chance(0.5):
      return self.duel(rng)
    D = rng.choice([3, 3, 4, 4, 5])
    F = rng.choice([1, 2, 2])
    clouds = [gen.cloud_spec(rng, 1, 30) for _ in range(rng.choice([1, 2, 2, 3]))]
    ops = []
    hot = rng.chance(0.5)
    for _ in range(rng.randint(1, 3)):
      for _ in range(20):
        c = catalog.gen_net(rng, D, F) if rng.chance(0.15) else catalog.gen_op(rng, D, F)
        if catalog.supported(c, D, F) and c['op'] != 'droppath':
          ops.append(c)
          break
    if not ops:
      ops.append({**catalog.gen_op(rng, D, F, ['conv']), 'stride': 1})
    tasks = []
    for _ in range(rng.choice([2, 2, 3, 4])):
      acts = []
      for _ in range(rng.randint(1, 2 if hot else 3)):
        a = {'do': rng.wchoice([('op', 6), ('bwd', 3), ('build', 2), ('merge', 1.5), ('mergepts', 1), ('make', 3),
                                ('grow', 1), ('growcopy', 1.3), ('query', 1.5), ('points', 1.8)]),
             'i': rng.randrange(1000), 'b': rng.chance(0.5)}
        if a['do'] in ('op', 'bwd'):
          a['vary'], a['scene'] = rng.choice([0, 1, 2, 3]), rng.choice([0, 0, 1])
        if hot and a['do'] in ('op', 'bwd'):
          a['i'] = 0
        if a['do'] == 'make':
          while True:
            c = catalog.gen_op(rng, D, F, catalog.CONV + ['groupnorm', 'resblocks', 'maxpool', 'globalpool', 'interp', 'avgpool'])
            if catalog.supported(c, D, F):
              break
          c['default_kernel'] = rng.chance(0.5)
          a['cfg'] = c
        if a['do'] in ('merge', 'mergepts'):
          a['which'] = [rng.randrange(4) for _ in range(rng.randint(1, 3))]
        if a['do'] == 'grow':
          a['n'] = rng.randint(1, 3)
        acts.append(a)
      tasks.append(acts)
    if rng.chance(0.35):       # identical callers: the sharpest races
      tasks = [copy.deepcopy(tasks[0]) for _ in tasks]
      for t in tasks:
        for a in t:
          if 'vary' in a:
            a['vary'], a['scene'] = rng.choice([0, 1, 2, 3]), rng.choice([a['scene'], a['scene'], 0, 1])
    n = rng.choice([1, 2, 3, 6, 15, 40, 80])
    sw = [[round(rng.random(), 5), rng.randrange(4)] for _ in range(n)]
    if rng.chance(0.3):        # dense switching in one window
      s0 = rng.random()
      sw += [[round(min(0.99999, s0 + 0.00007 * i), 6), rng.randrange(4)] for i in range(60)]
    rare = []
    if rng.chance(0.6):        # switch at code positions a caller passes only once or twice
      rare = [[rng.randrange(len(tasks)), round(rng.random(), 4), rng.randrange(4)] for _ in range(rng.choice([2, 4, 8]))]
      if rng.chance(0.7):
        sw = sw[:2]
    return {'depth': D, 'full': F, 'clouds': clouds, 'ops': ops, 'tasks': tasks, 'switches': sorted(sw), 'rare': rare,
            'order': rng.sample(range(len(tasks)), len(tasks))}

  def simplify(self, plan):
    for sw, rare in plan.get('rounds', ()):
      p = copy.deepcopy(plan)
      p.update(switches=sw, rare=rare, rounds=[])
      yield p
    if plan.get('rounds'):
      p = copy.deepcopy(plan)
      p['rounds'] = []
      yield p
    if len(plan['tasks']) > 2:
      for i in range(len(plan['tasks'])):
        p = copy.deepcopy(plan)
        del p['tasks'][i]
        p['order'] = [o - (o > i) for o in p['order'] if o != i]
        p['rare'] = [[r[0] - (r[0] > i)] + r[1:] for r in p['rare'] if r[0] != i]
        yield p
    for i, t in enumerate(plan['tasks']):
      if len(t) > 1:
        for j in range(len(t)):
          p = copy.deepcopy(plan)
          del p['tasks'][i][j]
          yield p
    for i, c in enumerate(plan['clouds']):
      if len(plan['clouds']) > 1:
        p = copy.deepcopy(plan)
        del p['clouds'][i]
        yield p
      if c['n'] > 1:
        p = copy.deepcopy(plan)
        p['clouds'][i]['n'] = c['n'] // 2
        yield p

  def execute(self, plan, ctx):
    used = {a['do'] for t in plan['tasks'] for a in t}
    # reference: every caller alone, in a process of its own
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        try:
          out = ('ok', self.solo(plan))
        except Violation as v:
          out = ('violation', (v.cls, v.detail, v.key))
        except BaseException as e:
          import traceback
          out = ('error', '%s\n%s' % (e, traceback.format_exc()[-3000:]))
        with os.fdopen(wfd, 'wb') as f:
          pickle.dump(out, f)
      finally:
        os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
      data = f.read()
    os.waitpid(pid, 0)
    st, ref = pickle.loads(data)
    if st == 'violation':
      raise Violation(*ref)
    if st == 'error':
      raise HarnessError(ref)

    with sut('building the shared objects'):
      w = World(plan)
    before = w.snapshot()
    total = sum(r['steps'] for r in ref)
    taken = 0
    for switches, rares in [(plan['switches'], plan.get('rare', ()))] + list(plan.get('rounds', ())):
      sw = []
      for f, tgt in switches:
        sw.append((int(f * total), tgt))

      own = {}
      for t, f, tgt in rares:
        rp = ref[t % len(ref)]['rare']
        if rp:
          own[(t % len(ref), rp[min(len(rp) - 1, int(f * f * len(rp)))])] = tgt

      def caller(acts):
        return lambda: [act(w, a, plan) for a in acts]
      s = threads.Scheduler([caller(t) for t in plan['tasks']], sw, plan['order'], cap=20 * total + 100000, own=own)
      tasks = s.run()
      ctx.count('steps', s.step)
      ctx.count('switches', len(s.taken))
      ctx.count('interleaved-callers', len(plan['tasks']))
      ctx.state([t[1:] for t in s.taken])
      ctx.log('steps', s.step, 'taken', len(s.taken), s.taken[:20])
      names = [[a['do'] for a in t] for t in plan['tasks']]
      for t in tasks:
        what = 'caller %d %s of %s after switches %s' % (t.idx, names[t.idx], names, s.taken[:6])
        if t.exc is not None:
          raise Violation('concurrent-error', '%s: %s: %s' % (what, type(t.exc).__name__, str(t.exc)[:300]))
        for j, (res, rr) in enumerate(zip(t.result, ref[t.idx]['res'])):
          self.compare(to_np(res), rr, '%s, action %d %s' % (what, j, plan['tasks'][t.idx][j]), 'concurrent-result')
      d = snap.diff(before, w.snapshot())
      if d:
        raise Violation('input-changed', 'callers %s changed shared inputs: %s' % (names, d[:6]))
      taken = max(taken, len(s.taken))
    if taken:
      ctx.probe('switched')
    for k in used:
      ctx.probe(k)
    for c in plan['ops']:
      if c['op'] in catalog.NETS and used & {'op', 'bwd'}:
        ctx.probe('net')
      if c['op'] == 'interp':
        ctx.probe('interp')
    ctx.nontrivial = taken >= 2

  def compare(self, got, want, what, cls):
    if sorted(got) != sorted(want):
      raise Violation(cls, '%s: results %s, alone %s' % (what, sorted(got), sorted(want)))
    for k in want:
      a, b = got[k], want[k]
      if a.shape != b.shape or a.dtype != b.dtype:
        raise Violation(cls, '%s: %s has shape %s %s, alone %s %s' % (what, k, a.shape, a.dtype, b.shape, b.dtype))
      if a.dtype.kind == 'f':
        ok = np.allclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True)
      else:
        ok = np.array_equal(a, b)
      if not ok:
        raise Violation(cls, '%s: %s differs from the result alone' % (what, k))

  def solo(self, plan):
    with sut('building the shared objects'):
      w = World(plan)
    out = []
    before = w.snapshot()
    for t in plan['tasks']:
      s = threads.Scheduler([lambda: [act(w, a, plan) for a in t]], [], record=True)
      (task,) = s.run()
      if task.exc is not None:
        import traceback
        tb = ''.join(traceback.format_exception(task.exc)[-4:])
        raise Violation('unexpected-error', 'alone, %s: %s' % ([a['do'] for a in t], tb[-1500:]))
      d = snap.diff(before, w.snapshot())
      if d:
        raise Violation('input-changed', 'alone, %s changed inputs: %s (operators %s)' % (
            [(a['do'], a['i']) for a in t], d[:6], [c['op'] for c in plan['ops']]))
      cnt = {}
      for q in s.positions:
        cnt[q] = cnt.get(q, 0) + 1
      by = sorted(range(len(s.positions)), key=lambda i: (cnt[s.positions[i]], i * 2654435761 % 1000003))
      out.append({'steps': s.step, 'rare': [i + 1 for i in by[:400]], 'res': [to_np(r) for r in task.result]})
    return out


PROP = P()
