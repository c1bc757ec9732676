"""C26: corrupted data of one sample do not spread to the others."""
import copy
import os

import numpy as np
import torch
import ocnn

from sim import catalog, datasets, gen, snap
from sim.core import Prop, Violation, sut

OPS = [n for n in dict.fromkeys(catalog.OPS) if n != 'col2octree']
NETS = [n for n in catalog.NETS if n != 'UNetFull']
VALUES = ['nan', 'inf', '-inf', 'huge', '-huge', 'bits', 'mix']
SITES = ['input', 'input', 'layer', 'layer', 'query', 'signal', 'gradient', 'layer-gradient']
TOL = 2e-4


def poison(t, rows, what, seed, part):
  """t with some entries of the rows overwritten."""
  t = t.clone()
  rows = list(rows)
  r = np.random.RandomState(seed % (2 ** 31))
  if not rows or t.numel() == 0:
    return t, 0
  if part < 1 and len(rows) > 1:
    n = max(1, int(round(part * len(rows))))
    rows = sorted(rows[k] for k in r.choice(len(rows), n, replace=False))
  flat = t[rows].reshape(len(rows), -1).detach().numpy().copy()
  hit = r.rand(*flat.shape) < (1.0 if part >= 1 else 0.5)
  hit[:, r.randint(flat.shape[1])] = True
  kinds = ['nan', 'inf', '-inf', 'huge', '-huge'] if what == 'mix' else [what]
  for k, kind in enumerate(kinds):
    m = hit & (r.randint(len(kinds), size=flat.shape) == k)
    if kind == 'bits':
      u = flat.view(np.uint32)
      flips = (np.uint32(1) << r.randint(0, 32, size=flat.shape).astype(np.uint32))
      u[m] = (u ^ flips)[m]
    else:
      flat[m] = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'huge': 3.2e38, '-huge': -3.2e38}[kind]
  t[rows] = torch.from_numpy(flat).view(t[rows].shape)
  return t, int(hit.sum())


def bits(t):
  return t.detach().contiguous().numpy().tobytes()


class Owners:
  """Which sample owns each row of a tensor, from its row count."""

  def __init__(self, batch, B, ptrows=None):
    self.B, self.octs, self.ptrows = B, [batch], ptrows

  def see(self, args):
    for a in args:
      if isinstance(a, ocnn.octree.Octree) and all(a is not o for o in self.octs):
        self.octs.append(a)

  def of(self, n):
    """(n,) sample indices or None when the row count leaves a doubt."""
    cand = []
    if n == self.B:
      cand.append(torch.arange(self.B))
    if self.ptrows is not None and n == len(self.ptrows):
      cand.append(torch.tensor([s for s, _ in self.ptrows]))
    for o in self.octs:
      for d in range(o.depth + 1):
        if o.keys[d] is None or o.children[d] is None:
          continue
        b = o.keys[d] >> 48
        if len(b) == n:
          cand.append(b)
        m = o.children[d] >= 0
        if int(m.sum()) == n:
          cand.append(b[m])
    if not cand or any(not torch.equal(c, cand[0]) for c in cand):
      return None
    return cand[0]


class Layers:
  """Overwrites rows of one sample in the output (or its gradient) of one
  layer of a network, found by counting."""

  def __init__(self, mod, owners, victim, at=None, spec=None, grad=False):
    self.mod, self.owners, self.victim, self.at, self.spec, self.grad = mod, owners, victim, at, spec, grad
    self.n, self.hit, self.name = 0, 0, None

  def __enter__(self):
    self.handles = [m.register_forward_hook(self.hook) for m in self.mod.modules() if m is not self.mod or not list(m.children())]
    return self

  def __exit__(self, *a):
    for h in self.handles:
      h.remove()

  def hook(self, m, args, out):
    self.owners.see(args)
    if not isinstance(out, torch.Tensor) or out.dtype != torch.float32 or out.dim() < 2:
      return None
    own = self.owners.of(out.shape[0])
    if own is None or (self.grad and not out.requires_grad):
      return None
    n = self.n
    self.n += 1
    if n != self.at:
      return None
    rows = torch.nonzero(own == self.victim).flatten().tolist()
    self.name = type(m).__name__
    s = self.spec
    if self.grad:
      def change(g):
        t, self.hit = poison(g, rows, s['value'], s['seed'], s['part'])
        return t
      out.register_hook(change)
      return None
    with torch.no_grad():
      t, self.hit = poison(out, rows, s['value'], s['seed'], s['part'])
    if out.requires_grad:
      # keeps the graph of the other rows
      keep = torch.ones(len(own), dtype=torch.bool)
      keep[rows] = False
      keep = keep.view([-1] + [1] * (out.dim() - 1))
      return torch.where(keep, out, t.detach())
    return t


class Call:
  """One batched request of a module and its seeded gradients."""

  def __init__(self, plan):
    self.plan = plan
    cfg, D, F = plan['cfg'], plan['depth'], plan['full']
    self.cfg, self.D, self.F, self.B = cfg, D, F, len(plan['clouds'])
    specs = plan['clouds']
    seeds = [s['seed'] for s in specs]
    singles = [gen.make_octree(s, D, F, True, 2) for s in specs]
    self.batch = gen.make_batch(specs, D, F, True, 2)
    xs = catalog.sample_data(cfg, D, F, singles, seeds)
    self.x = None if xs is None else torch.cat(xs)
    ps = catalog.sample_pts(cfg, D, F, seeds, specs)
    self.pts, self.ptrows = (None, None) if ps is None else catalog.batch_pts(ps, plan['seed'])
    self.o2 = None
    if cfg['op'] == 'align':
      self.o2 = gen.make_batch([dict(s, seed=s['seed'] ^ 0x333) if s['seed'] % 3 else s for s in specs], D, F, True, 2)
    self.mod = catalog.build(cfg, D, F, train=plan['train'])
    self.lay = catalog.in_layout(cfg, D, F)[0]

  def xrows(self, i):
    if self.x is None:
      return []
    if self.lay is None:
      return [i]
    return catalog.sample_rows(self.batch, self.lay, i)

  def grads_ok(self):
    return self.x is not None and self.cfg['op'] not in catalog.GEN_NETS or self.cfg['op'] == 'Image2Shape' and not self.cfg['update']

  def run(self, x=None, pts=None, batch=None, layers=None, gout=None):
    """{name: (tensor, rows per sample)}; 'gx': gradient of the input."""
    cfg = self.cfg
    x = self.x if x is None else x
    batch = self.batch if batch is None else batch
    back = self.plan['backward'] and self.grads_ok()
    if back:
      x = x.clone().requires_grad_()
    torch.manual_seed(self.plan['seed'])
    with torch.set_grad_enabled(back):
      if layers is not None:
        with layers:
          outs = catalog.run(cfg, self.mod, batch, self.D, self.F, x, self.pts if pts is None else pts, octree2=self.o2)
      else:
        outs = catalog.run(cfg, self.mod, batch, self.D, self.F, x, self.pts if pts is None else pts, octree2=self.o2)
    res = {}
    for q in outs:
      lay, o = q.layout, batch
      if lay[0] == 'onode':
        o, lay = q.octree, ('node',) + tuple(lay[1:])
      elif lay[0] == 'qnode':
        o, lay = self.o2, ('node',) + tuple(lay[1:])
      rows = [catalog.sample_rows(o, lay, i, self.ptrows) for i in range(self.B)]
      if q.t.shape[0] != sum(len(r) for r in rows):
        raise Violation('row-count', '%s of %s has %d rows, the samples %s' % (q.name, cfg['op'], q.t.shape[0], [len(r) for r in rows]))
      res[q.name] = (q.t, rows)
    if back:
      ts = [(n, t) for n, (t, _) in res.items() if t.is_floating_point() and t.requires_grad]
      gs = []
      for n, t in ts:
        g = torch.sin(torch.arange(t.numel(), dtype=torch.float32).view(t.shape) * 0.71 + 0.3)
        if gout is not None:
          g = gout(g, res[n][1])
        gs.append(g)
      if ts:
        if self.mod is not None:
          self.mod.zero_grad()
        torch.autograd.backward([t for _, t in ts], gs)
        res['gradient of the input'] = (x.grad if x.grad is not None else torch.zeros_like(x), [self.xrows(i) for i in range(self.B)])
    return {n: (t.detach().clone(), r) for n, (t, r) in res.items()}


def compare(a, b, who, what, exact, lim=None):
  """The rows of one sample in two results."""
  if set(a) != set(b):
    raise Violation('other-results', '%s gives %s instead of %s' % (what, sorted(b), sorted(a)))
  for n in a:
    (t, r), (u, s) = a[n], b[n]
    if lim is not None and n not in lim:
      continue
    p, q = t[r[who]], u[s[who]]
    if n.startswith('key'):
      m = (1 << 48) - 1
      p, q = p & m, q & m
    if p.shape != q.shape:
      raise Violation('spread', '%s: %s of sample %d has shape %s instead of %s' % (what, n, who, tuple(q.shape), tuple(p.shape)))
    if exact or not p.is_floating_point():
      if bits(p) != bits(q):
        bad = torch.nonzero((p != q).reshape(len(p), -1).any(1)).flatten().tolist() if len(p) else []
        raise Violation('spread', '%s: %s of sample %d differs in %d of %d rows, e.g. %s instead of %s' % (
            what, n, who, len(bad), len(p), q[bad[0]].reshape(-1)[:4].tolist() if bad else '', p[bad[0]].reshape(-1)[:4].tolist() if bad else ''))
    elif p.numel():
      sc = max(1.0, float(p.abs().max()))
      d = (p - q).abs()
      if not bool((d <= TOL * sc).all()):
        raise Violation('spread', '%s: %s of sample %d differs by %g' % (what, n, who, float(d.max())))


class P(Prop):
  id = 'C26'
  runs = {'quick': 3000, 'thorough': 80000}
  soft_s = {'quick': 50, 'thorough': 2400}
  run_timeout = 120
  shrink_lists = ('events',)
  shrink_min = {'events': 1}
  rule = ('a run answers one batch of 2-4 samples with one operator, module or network, then 1-4 times more with the data of one or more samples '
          'overwritten (NaN, infinities, overflowing values, flipped bits; in the input rows, the octree signal, the query points, the output of a '
          'seeded layer in the middle of the network, the gradient coming in or flowing through a layer), then once more intact; or loads, collates and merges '
          'a batch in which stored arrays of some samples are corrupted; non-trivial when at least one value was overwritten')
  distinct_measure = 'distinct (operator, site, layer, values, samples) sequences'
  real = ['ocnn.nn, ocnn.modules, ocnn.models, ocnn.octree, ocnn.dataset', 'all datasets of projects/datascts', 'torch kernels and autograd']
  stubs = ['memory / sensor / storage that corrupts values (forward hooks, overwritten tensors and arrays)']
  assumptions = ['evaluation mode, except layers whose training mode does not mix samples (drop path, group and instance normalisation)',
                 'the batch index of nodes and queries and the structure of octrees are intact: only values are corrupted',
                 'a generating network that grows its own octree is compared to rounding, down to the level of the first decision near a tie or of a level '
                 'without any split in the batch (the library then forces one node)']
  def prepare(self, base):
    datasets.warm()

  required_probes = tuple('site:' + s for s in dict.fromkeys(SITES)) + tuple('net:' + n for n in NETS) + tuple('value:' + v for v in VALUES) + (
      'backward', 'data', 'rejected', 'merged-points', 'built-from-batch')

  def gen(self, rng, idx, tier):
    if rng.chance(0.15):
      n = rng.choice([2, 3, 4])
      D, F = rng.choice([3, 4]), rng.choice([1, 2])
      return {'mode': 'data', 'depth': D, 'full': F, 'kind': rng.choice(datasets.KINDS), 'n': n,
              'samples': [dict(gen.cloud_spec(rng, 3, 25), wide=rng.choice([0, 0, 0, 2.0])) for _ in range(n)], 'seed': rng.seed31(),
              'events': [{'victims': self.victims(rng, n), 'value': rng.choice(VALUES), 'part': rng.choice([0.1, 0.4, 1.0]), 'seed': rng.seed31(),
                          'key': rng.choice(['points', 'points', 'normals', 'colors', 'any'])} for _ in range(rng.choice([1, 2, 3]))],
              'cfg': {'depth': D, 'full': F, 'distort': rng.chance(0.5), 'angle': rng.choice([[0, 0, 0], [0, 180, 0]]),
                      'interval': [5, 5, 5], 'scale': rng.choice([0.0, 0.25]), 'uniform': rng.chance(0.5),
                      'jitter': rng.choice([0.0, 0.125]), 'flip': rng.choice([[0, 0, 0], [0.5, 0.5, 0.5]]),
                      'in_memory': False, 'merge': rng.chance(0.5)}}
    while True:
      if rng.chance(0.35):
        name = rng.choice(NETS)
        D, F = {'LeNet': (4, 2), 'UNet': (5, 2)}.get(name, (rng.choice([3, 4, 4, 5]), rng.choice([1, 2, 2, 3])))
        if name in catalog.GEN_NETS:
          D, F = rng.choice([3, 4]), 2
        cfg = catalog.gen_net(rng, D, F, [name], 0)
        if name in catalog.GEN_NETS:
          cfg['update'] = rng.chance(0.4)
      else:
        D = rng.choice([2, 3, 3, 4, 5])
        F = rng.randint(1, min(D, 3))
        cfg = catalog.gen_op(rng, D, F, OPS)
      if catalog.supported(cfg, D, F):
        break
    n = rng.choice([2, 2, 3, 4])
    hi = 10 if cfg['op'] in catalog.NETS else 30
    sites = [s for s in SITES if s != 'query' or catalog.has_pts(cfg)]
    return {'mode': 'op', 'depth': D, 'full': F, 'cfg': cfg, 'clouds': [gen.cloud_spec(rng, 1, hi) for _ in range(n)], 'seed': rng.seed31(),
            'backward': rng.chance(0.5), 'train': cfg['op'] in ('droppath', 'groupnorm', 'instnorm') and rng.chance(0.5),
            'events': [{'site': rng.choice(sites), 'victims': self.victims(rng, n), 'value': rng.choice(VALUES), 'part': rng.choice([0.05, 0.5, 1.0]),
                        'frac': round(rng.random(), 4), 'seed': rng.seed31()} for _ in range(rng.choice([1, 2, 3, 4]))]}

  def victims(self, rng, n):
    """Mostly one sample, often the last or the first of the batch."""
    v = [rng.choice([0, n - 1, n - 1, rng.randrange(n)])]
    if n > 2 and rng.chance(0.3):
      v = sorted(rng.sample(range(n), 2))
    return v

  def simplify(self, plan):
    n = len(plan['clouds'] if plan['mode'] == 'op' else plan['samples'])
    for i, e in enumerate(plan['events']):
      if len(e['victims']) > 1:
        for v in e['victims']:
          p = copy.deepcopy(plan)
          p['events'][i]['victims'] = [v]
          yield p
      if e['part'] != 0.05:
        p = copy.deepcopy(plan)
        p['events'][i]['part'] = 0.05
        yield p
    k = 'clouds' if plan['mode'] == 'op' else 'samples'
    for i, c in enumerate(plan[k]):
      if c['n'] > 3:
        p = copy.deepcopy(plan)
        p[k][i]['n'] = max(3, c['n'] // 2)
        yield p
    if plan['mode'] == 'op' and plan['backward'] and all('gradient' not in e['site'] for e in plan['events']):
      yield dict(copy.deepcopy(plan), backward=False)

  def execute(self, plan, ctx):
    if plan['mode'] == 'data':
      return self.data(plan, ctx)
    cfg = plan['cfg']
    name = cfg['op']
    if any('gradient' in e['site'] for e in plan['events']):
      plan['backward'] = True
    with sut('constructing %s' % name):
      c = Call(plan)
    grown = name in catalog.GEN_NETS and cfg['update']
    with sut('%s on intact data' % name):
      clean = c.run()
    st0 = snap.any_(c.mod.state_dict()) if c.mod is not None else {}
    oct0 = snap.octree(c.batch)
    for ei, e in enumerate(plan['events']):
      self.event(plan, c, clean, e, ei, ctx, grown)
    with sut('%s on intact data again' % name):
      again = c.run()
    for i in range(c.B):
      compare(clean, again, i, '%s on intact data after the corrupted requests' % name, True)
    if c.mod is not None:
      d = snap.diff(st0, snap.any_(c.mod.state_dict()))
      if d:
        raise Violation('network-changed', '%s: corrupted requests changed %s' % (name, d[:5]))
    d = snap.diff(oct0, snap.octree(c.batch))
    if d:
      raise Violation('octree-changed', '%s: %s changed' % (name, d[:5]))
    if name in catalog.NETS:
      ctx.probe('net:' + name)

  def event(self, plan, c, clean, e, ei, ctx, grown):
    name = plan['cfg']['op']
    site, hit, kw, layer = e['site'], 0, {}, None
    if site in ('layer', 'layer-gradient') and c.mod is None:
      site = 'input' if site == 'layer' else 'gradient'
    if site in ('gradient', 'layer-gradient') and not c.grads_ok():
      site = 'input'
    if site == 'layer-gradient' or site == 'layer':
      grad = site == 'layer-gradient'
      count = Layers(c.mod, Owners(c.batch, c.B, c.ptrows), e['victims'][0], grad=grad)
      with sut('%s, counting layers' % name):
        c.run(layers=count)
      if count.n:
        layer = Layers(c.mod, Owners(c.batch, c.B, c.ptrows), e['victims'][0], min(count.n - 1, int(e['frac'] * count.n)), e, grad)
        kw['layers'] = layer
      else:
        site = 'gradient' if grad else 'input'
    if site == 'input' and c.x is None:
      site = 'signal'
    if site == 'input':
      x = c.x
      for v in e['victims']:
        x, k = poison(x, c.xrows(v), e['value'], e['seed'] + v, e['part'])
        hit += k
      kw['x'] = x
    elif site == 'signal':
      o = copy.copy(c.batch)
      D = c.D
      for f in ('features', 'normals', 'points'):
        setattr(o, f, list(getattr(o, f)))
      for v in e['victims']:
        rows = catalog.sample_rows(o, ('node', D, True), v)
        for f in ('features', 'normals', 'points'):
          t, k = poison(getattr(o, f)[D], rows, e['value'], e['seed'] + v, e['part'])
          getattr(o, f)[D] = t
          hit += k if name == 'input' or name in catalog.GEN_NETS and name != 'Image2Shape' else 0
      kw['batch'] = o
    elif site == 'query':
      p = c.pts.clone()
      for v in e['victims']:
        rows = [k for k, (s, _) in enumerate(c.ptrows) if s == v]
        t, k = poison(p[:, :3], rows, e['value'], e['seed'] + v, e['part'])
        p[:, :3] = t
        hit += k
      kw['pts'] = p
    elif site == 'gradient':
      def gout(g, rows):
        nonlocal hit
        for v in e['victims']:
          g, k = poison(g, rows[v], e['value'], e['seed'] + v, e['part'])
          hit += k
        return g
      kw['gout'] = gout
    what = '%s with corrupted %s (%s) of sample %s' % (name, site, e['value'], e['victims'])
    with sut(what):
      res = c.run(**kw)
    if layer is not None:
      hit, what = layer.hit, '%s at layer %d %s' % (what, layer.at, layer.name)
    vict = e['victims'] if layer is None else e['victims'][:1]
    lim = None
    if grown:
      lim = self.comparable(plan, clean, res, [i for i in range(c.B) if i not in vict])
    for i in range(c.B):
      if i in vict:
        continue
      compare(clean, res, i, what, not grown, lim)
    if hit:
      ctx.nontrivial = True
      ctx.fault(e['value'] + ':' + site)
      ctx.probe('site:' + site)
      ctx.probe('value:' + e['value'])
      if plan['backward'] and c.grads_ok():
        ctx.probe('backward')
    ctx.count('overwritten', hit)
    ctx.count('steps')
    ctx.state((name, plan['cfg']['nempty'], site, layer.name if layer else '', layer.at if layer else 0, e['value'], tuple(vict), c.B))
    ctx.log(ei, what, hit, {n: tuple(t.shape) for n, (t, _) in sorted(res.items())})

  def comparable(self, plan, clean, res, others):
    """Outputs of a generating network that follow from decisions away from a tie."""
    ok = set()
    for e in range(plan['full'], plan['depth'] + 1):
      ok |= {'logit%d' % e, 'key%d' % e}
      t, rows = clean['logit%d' % e]
      for r in (clean, res):
        u = r['logit%d' % e][0]
        if not (u[:, 1] > u[:, 0]).any():     # one node is forced: the first of the batch
          return ok
      u = t[[k for i in others for k in rows[i]]]
      if not len(u) or float((u[:, 1] - u[:, 0]).abs().min()) < 2e-3 * max(1.0, float(u.abs().max())):
        return ok
    return ok | {'signal'}

  # ----------------------------------------------------------------------
  def data(self, plan, ctx):
    """Samples whose stored arrays hold corrupted values."""
    kind, n = plan['kind'], plan['n']
    with sut('opening %s' % kind):
      o = datasets.open_(kind, ctx.scratch, plan['samples'], plan['cfg'])
    ds = o.dataset
    read = ds.read_file
    path = {os.path.join(ds.root, f): i for i, f in enumerate(ds.filenames)}
    with sut('reading %s' % kind):
      stored = {i: read(f) for f, i in path.items()}

    def load(raws):
      """The real visits; the storage answers with raws."""
      ds.read_file = lambda f: raws[path[f]]
      out = []
      for i in range(n):
        datasets.full_seed(plan['seed'] + i)
        try:
          out.append(('ok', ds[i]))
        except Exception as e:     # noqa: a sample may be refused
          out.append(('refused', e))
      return out

    def batch(items):
      datasets.full_seed(plan['seed'] ^ 0x99)
      return o.collate(items)
    good = load(self.fresh(stored))
    for i, (st, v) in enumerate(good):
      if st != 'ok':
        raise Violation('unexpected-error', '%s: intact sample %d: %s' % (kind, i, v))
    ref = [snap.any_(v) for _, v in good]
    for ei, e in enumerate(plan['events']):
      raws = self.fresh(stored)
      hit = 0
      for v in e['victims']:
        hit += self.corrupt(raws[v], e, v)
      got = load(raws)
      vict = e['victims']
      keep = [i for i in range(n) if got[i][0] == 'ok']
      what = '%s with corrupted %s (%s) of sample %s' % (kind, e['key'], e['value'], vict)
      for i in range(n):
        if i in vict:
          if got[i][0] != 'ok':
            ctx.probe('rejected')
          continue
        if got[i][0] != 'ok':
          raise Violation('spread', '%s: sample %d fails with %s' % (what, i, got[i][1]))
        d = snap.diff(ref[i], snap.any_(got[i][1]))
        if d:
          raise Violation('spread', '%s: sample %d differs in %s' % (what, i, d[:4]))
      if len(keep) >= 2:
        with sut('collating ' + what):
          bad = batch([got[i][1] for i in keep])
          ok = batch([good[i][1] for i in keep])
        self.same_batch(ok, bad, keep, vict, o, what, ctx)
      if hit:
        ctx.nontrivial = True
        ctx.probe('data')
        ctx.probe('value:' + e['value'])
        ctx.fault(e['value'] + ':stored')
      ctx.count('steps')
      ctx.state((kind, e['key'], e['value'], tuple(vict), tuple(keep)))
      ctx.log(ei, what, hit, keep)

  def fresh(self, stored):
    def one(v):
      return v.copy() if isinstance(v, np.ndarray) else {k: one(w) for k, w in v.items()} if isinstance(v, dict) else \
          type(v)(one(w) for w in v) if isinstance(v, (list, tuple)) else v
    return {i: one(v) for i, v in stored.items()}

  def corrupt(self, rawsample, e, v):
    sample = rawsample if isinstance(rawsample, dict) else {'points': rawsample}
    keys = [k for k, a in sample.items() if isinstance(a, np.ndarray) and a.dtype.kind == 'f' and a.ndim == 2]
    keys = [k for k in keys if k == e['key']] or keys if e['key'] != 'any' else keys
    hit = 0
    for k in keys:
      a = sample[k]
      t, h = poison(torch.from_numpy(a.astype(np.float32)), range(len(a)), e['value'], e['seed'] + v, e['part'])
      with np.errstate(all='ignore'):
        sample[k] = t.numpy().astype(a.dtype)
      hit += h
    return hit

  def same_batch(self, ok, bad, keep, vict, o, what, ctx):
    """The parts of the other samples in two batches."""
    if set(ok) != set(bad):
      raise Violation('spread', '%s: batch has %s instead of %s' % (what, sorted(bad), sorted(ok)))
    for k in ok:
      a, b = ok[k], bad[k]
      if isinstance(a, ocnn.octree.Octree):
        for pos, i in enumerate(keep):
          if i not in vict:
            self.same_octree(a, b, pos, '%s: %s of sample %d' % (what, k, i))
      elif isinstance(a, ocnn.octree.Points):
        ctx.probe('merged-points')
        for pos, i in enumerate(keep):
          if i not in vict:
            for f in ('points', 'normals', 'features', 'labels', 'batch_id'):
              u, w = getattr(a, f), getattr(b, f)
              if (u is None) != (w is None):
                raise Violation('spread', '%s: merged points have %s %s' % (what, f, 'lost' if w is None else 'gained'))
              if u is not None:
                u, w = u[(a.batch_id == pos).flatten()], w[(b.batch_id == pos).flatten()]
                if u.shape != w.shape or bits(u) != bits(w):
                  raise Violation('spread', '%s: %s of sample %d in the merged points differ' % (what, f, i))
        self.built(a, b, keep, vict, what, ctx)
      elif isinstance(a, (list, tuple)) and len(a) == len(keep):
        for pos, i in enumerate(keep):
          if i not in vict and snap.diff(snap.any_(a[pos]), snap.any_(b[pos])):
            raise Violation('spread', '%s: %s of sample %d differs in the batch' % (what, k, i))
      elif isinstance(a, torch.Tensor) and a.dim() and len(a) == len(keep):
        for pos, i in enumerate(keep):
          if i not in vict and bits(a[pos]) != bits(b[pos]):
            raise Violation('spread', '%s: %s of sample %d differs in the batch' % (what, k, i))

  def built(self, a, b, keep, vict, what, ctx):
    """One octree from the merged points."""
    octs = []
    for p in (a, b):
      q = ocnn.octree.Octree(3, 2, p.batch_size)
      with sut('building one octree, ' + what):
        q.build_octree(p)
        q.construct_all_neigh()
      octs.append(q)
    ctx.probe('built-from-batch')
    for pos, i in enumerate(keep):
      if i not in vict:
        self.same_octree(octs[0], octs[1], pos, '%s: octree of the merged points, sample %d' % (what, i))

  def same_octree(self, a, b, pos, what):
    for d in range(a.depth + 1):
      ra, rb = torch.nonzero((a.keys[d] >> 48) == pos).flatten(), torch.nonzero((b.keys[d] >> 48) == pos).flatten()
      if not torch.equal(a.keys[d][ra], b.keys[d][rb]):
        raise Violation('spread', '%s: nodes at depth %d differ' % (what, d))
      ca, cb = a.children[d][ra] >= 0, b.children[d][rb] >= 0
      if not torch.equal(ca, cb):
        raise Violation('spread', '%s: non-empty nodes at depth %d differ' % (what, d))
      if d == a.depth:
        na, nb = a.batch_id(d, True) == pos, b.batch_id(d, True) == pos
        for f in ('features', 'normals', 'points'):
          u, w = getattr(a, f)[d], getattr(b, f)[d]
          if u is not None and bits(u[na]) != bits(w[nb]):
            raise Violation('spread', '%s: %s differ' % (what, f))
      if d and a.neighs[d] is not None:
        u, w = a.neighs[d][ra].long(), b.neighs[d][rb].long()
        oa, ob = int(ra[0]) if len(ra) else 0, int(rb[0]) if len(rb) else 0
        u, w = torch.where(u >= 0, u - oa, u), torch.where(w >= 0, w - ob, w)
        if not torch.equal(u, w):
          raise Violation('spread', '%s: neighbours at depth %d differ' % (what, d))


PROP = P()
