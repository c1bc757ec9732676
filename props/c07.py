"""C07: predictions do not depend on how requests are batched."""
import copy
import os
import pickle

import numpy as np
import torch
import ocnn

from sim import catalog, faults, gen, snap, threads
from sim.core import HarnessError, Prop, Violation, sut
from sim.torchseam import INJECTED, KINDS, OpSeam

SKIP_OUT = ('indices',)
# operators that need neither point features nor whole networks
GROWN_OPS = tuple(n for n in dict.fromkeys(catalog.OPS) if n not in ('input', 'align'))

# operators whose result for a sample aggregates over its nodes or searches them
AGGREGATES = ['globalpool', 'globalpool', 'groupnorm', 'instnorm', 'interp', 'nearest', 'linear', 'upsample', 'upsample2']


def in_child(fn):
  """fn() in a forked process; its result by pickle."""
  rfd, wfd = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      try:
        out = ('ok', fn())
      except Violation as v:
        out = ('violation', (v.cls, v.detail, v.key))
      except BaseException as e:
        import traceback
        out = ('error', '%s\n%s' % (e, traceback.format_exc()[-3000:]))
      with os.fdopen(wfd, 'wb') as f:
        pickle.dump(out, f)
    finally:
      os._exit(0)
  os.close(wfd)
  with os.fdopen(rfd, 'rb') as f:
    data = f.read()
  os.waitpid(pid, 0)
  st, val = pickle.loads(data)
  if st == 'violation':
    raise Violation(*val)
  if st == 'error':
    raise HarnessError(val)
  return val


class Service:
  """One network (or operator) answering requests."""

  def __init__(self, plan, cfg):
    self.plan, self.cfg = plan, cfg
    self.D, self.F = plan['depth'], plan['full']
    self.mod = catalog.build(cfg, self.D, self.F, train=False)
    self.singles = {}

  def single(self, i):
    if i not in self.singles:
      self.singles[i] = gen.make_octree(self.plan['clouds'][i], self.D, self.F, True, 2)
      if self.plan['grown'] and self.plan['void'][i]:
        o = self.singles[i] = ocnn.octree.init_octree(self.D, self.F)
        o.nnum_nempty[self.F] = 0     # only the node counts of this object are used
    return self.singles[i]

  def request(self, ids, order_seed=None, dup=0, code=False):
    """The tensors of one batched request. Returns (args, ptrows)."""
    cfg, D, F = self.cfg, self.D, self.F
    specs = [self.plan['clouds'][i] for i in ids]
    seeds = [s['seed'] for s in specs]
    if self.plan['grown']:
      o = grown_batch(specs, [self.plan['void'][i] for i in ids], D, F)
    else:
      o = ocnn.octree.merge_octrees([gen.make_octree(s, D, F, True, 2) for s in specs])
      o.construct_all_neigh()
    xs = catalog.sample_data(cfg, D, F, [self.single(i) for i in ids], seeds)
    x = None if xs is None else torch.cat(xs)
    pts, ptrows = None, None
    ps = catalog.sample_pts(cfg, D, F, seeds, specs)
    if ps is not None:
      pts, ptrows = catalog.batch_pts(ps, order_seed)
      if dup:
        r = np.random.RandomState(dup % (2 ** 31))
        sel = np.concatenate([np.arange(len(ptrows)), r.randint(len(ptrows), size=1 + dup % 5)])
        r.shuffle(sel)
        pts, ptrows = pts[torch.from_numpy(sel)], [ptrows[k] for k in sel]
    o2 = None
    if cfg['op'] == 'align':
      s2 = [dict(s, seed=s['seed'] ^ 0x333, n=max(1, s['n'])) for s in specs]
      half = [dict(s) if s['seed'] % 2 else s2[k] for k, s in enumerate(specs)] if cfg['bias'] else s2
      o2 = ocnn.octree.merge_octrees([gen.make_octree(s, D, F, True, 2) for s in half])
    if code:
      ch = self.mod.code_channel
      x = torch.cat([torch.tanh(gen.tensor((s ^ cfg['seed']) % (2 ** 31), 8 ** F, ch)) for s in seeds])
    return dict(octree=o, x=x, pts=pts, octree2=o2), ptrows

  def answer(self, args, code=False):
    with torch.no_grad():
      if code:
        res = self.mod.decode_code(args['x'])
        oo = res['octree_out']
        outs = []
        for e in range(self.F, self.D + 1):
          outs.append(catalog.Out('logit%d' % e, res['logits'][e], ('onode', e, False)))
          outs.append(catalog.Out('key%d' % e, oo.keys[e], ('onode', e, False)))
        outs.append(catalog.Out('signal', res['signal'], ('onode', self.D, True)))
        for q in outs:
          q.octree = oo
        return outs
      return catalog.run(self.cfg, self.mod, args['octree'], self.D, self.F, args['x'], args['pts'], octree2=args['octree2'])

  def split(self, outs, args, n, ptrows):
    """[{name: array} per batch position]; rows of generated node lists carry
    their key without the batch index."""
    res = [{} for _ in range(n)]
    covered = {}
    for q in outs:
      if q.name in SKIP_OUT:
        continue
      lay = q.layout
      if lay[0] == 'onode':
        o, lay = q.octree, ('node',) + tuple(lay[1:])
      elif lay[0] == 'qnode':
        o, lay = args['octree2'] if args['octree2'] is not None else args['octree'], ('node',) + tuple(lay[1:])
      else:
        o = args['octree']
      tot = 0
      for k in range(n):
        rows = catalog.sample_rows(o, lay, k, ptrows)
        tot += len(rows)
        if rows and max(rows) >= q.t.shape[0]:
          raise Violation('row-count', '%s has %d rows, sample %d needs row %d' % (q.name, q.t.shape[0], k, max(rows)))
        v = q.t[rows]
        if q.name.startswith('key'):
          v = v & ((1 << 48) - 1)
        if lay[0] == 'pts':
          # order the answers by (query row), repetitions must agree
          idx = [ptrows[r][1] for r in rows]
          res[k][q.name] = (np.array(idx), v.numpy())
        else:
          res[k][q.name] = (None, v.numpy())
      if q.t.shape[0] != tot:
        raise Violation('row-count', '%s has %d rows, the batch has %d' % (q.name, q.t.shape[0], tot))
    return res


def grown_batch(specs, void, D, F):
  """The batch of the samples, grown level by level as a network that predicts
  octrees does it. Nothing is ever split in a void sample."""
  ref = gen.ref_batch(specs, D, F)
  o = ocnn.octree.init_octree(D, F, len(specs))
  void = np.array(void, bool)
  for d in range(F, D + 1):
    dead = void[ref.coords[d][:, 0]]
    flags = ref.nempty[d] & ~dead
    if d > F:
      flags = flags[~dead]
    o.octree_split(torch.from_numpy(flags.astype(np.int64)), d)
    if d < D:
      o.octree_grow(d + 1)
  return o


def near(a, b, tol=2e-4):
  if a.shape != b.shape or a.dtype != b.dtype:
    return 'shape %s %s, alone %s %s' % (a.shape, a.dtype, b.shape, b.dtype)
  if a.size == 0:
    return None
  if not np.issubdtype(a.dtype, np.floating):
    return None if np.array_equal(a, b) else 'differs'
  if not np.array_equal(np.isnan(a), np.isnan(b)):
    return 'NaN pattern differs'
  with np.errstate(invalid='ignore'):
    sc = 1e-3 + np.nanmax(np.abs(b)) if b.size else 1.0
    e = np.abs(a - b)
    e[a == b] = 0
  m = float(np.nanmax(e)) if e.size else 0.0
  if not np.isfinite(sc) or m <= tol * max(sc, 1.0):
    return None
  k = int(np.nanargmax(e.reshape(len(e), -1).max(1)))
  return 'row %d: %s, alone %s' % (k, a[k].reshape(-1)[:4], b[k].reshape(-1)[:4])


class P(Prop):
  id = 'C07'
  runs = {'quick': 900, 'thorough': 30000}
  soft_s = {'quick': 60, 'thorough': 2700}
  shrink_lists = ('requests',)
  shrink_min = {'requests': 1}
  rule = ('a run serves 1-5 batched requests on one network or operator in evaluation mode; each request holds seeded samples in seeded '
          'positions with repetition and shuffled, repeated point queries, some requests are stopped by a failure before the next one; '
          'every sample of every batch is compared with the same sample served alone by a fresh network in a fresh process; '
          'non-trivial when a batch holds at least two samples')
  distinct_measure = 'distinct (operator or network, batch composition, fault site) triples'
  real = ['ocnn.octree, ocnn.nn, ocnn.modules, ocnn.models (all networks)', 'torch CPU kernels']
  stubs = ['request arrival and batching (plan)', 'allocator and interrupt source']
  assumptions = ['answers are compared to 2e-4 of the largest value of the sample\'s answer',
                 'a generating network whose split decision is within rounding of a tie, or that splits nothing at all at some level '
                 '(the library then forces one node of the batch), is compared only above that level']
  required_probes = ('pts', 'generated', 'decode', 'fault', 'repeat-sample', 'align', 'grown', 'void-sample') + tuple('net:' + n for n in catalog.NETS if n != 'UNetFull')

  def gen(self, rng, idx, tier):
    for _ in range(200):
      net = rng.chance(0.45)
      if net:
        name = rng.choice([n for n in catalog.NETS if n != 'UNetFull'])
        D, F = {'LeNet': (4, 2), 'UNet': (5, 2)}.get(name, (rng.choice([3, 4, 4, 5]), rng.choice([1, 2, 2, 3])))
        if name in catalog.GEN_NETS:
          D, F = rng.choice([3, 4]), 2
        cfg = catalog.gen_net(rng, D, F, [name], 0.02)
      else:
        D = rng.choice([2, 3, 3, 4, 5])
        F = rng.randint(1, min(D, 3))
        cfg = catalog.gen_op(rng, D, F, AGGREGATES if rng.chance(0.2) else None)
      if cfg['op'] in catalog.GEN_NETS and rng.chance(0.7):
        cfg['update'] = True
      if catalog.supported(cfg, D, F):
        break
    grown = cfg['op'] in GROWN_OPS and F < D and rng.chance(0.5)
    n = rng.choice([2, 3, 3, 4])
    if grown and cfg['fd'] < 1 and rng.chance(0.6):
      cfg['fd'] = 0.999
    code = cfg['op'] in ('AutoEncoder', 'Image2Shape') and rng.chance(0.3)
    reqs = []
    for _ in range(rng.randint(1, 4 if cfg['op'] not in catalog.NETS else 3)):
      q = {'ids': [rng.randrange(n) for _ in range(rng.choice([1, 2, 2, 3, 4]))], 'order': rng.choice([None, rng.seed31()]),
           'dup': rng.choice([0, 0, rng.seed31()]), 'fault': None}
      if rng.chance(0.08):      # a batch of ordinary size
        q['ids'] = [rng.randrange(n) for _ in range(rng.choice([6, 9, 17]))]
      if grown and 0 not in q['ids']:     # at least one sample has nodes
        q['ids'].insert(rng.randint(0, len(q['ids'])), 0)
      if rng.chance(0.2):
        q['fault'] = faults.gen_fault(rng)
      reqs.append(q)
    hi = 12 if cfg['op'] in catalog.GEN_NETS else 40
    return {'depth': D, 'full': F, 'cfg': cfg, 'clouds': [gen.cloud_spec(rng, 1, hi) for _ in range(n)], 'requests': reqs, 'code': code,
            'grown': grown, 'void': [grown and i > 0 and rng.chance(0.4) for i in range(n)]}

  def simplify(self, plan):
    for i, q in enumerate(plan['requests']):
      for k, v in (('fault', None), ('dup', 0), ('order', None)):
        if q[k] != v:
          p = copy.deepcopy(plan)
          p['requests'][i][k] = v
          yield p
      if len(q['ids']) > 1:
        for j in range(len(q['ids'])):
          p = copy.deepcopy(plan)
          del p['requests'][i]['ids'][j]
          yield p
    if plan['grown'] and not any(plan['void']):
      yield dict(copy.deepcopy(plan), grown=False)
    for i, c in enumerate(plan['clouds']):
      if plan['void'][i]:
        p = copy.deepcopy(plan)
        p['void'][i] = False
        yield p
      if c['n'] > 1:
        p = copy.deepcopy(plan)
        p['clouds'][i]['n'] = c['n'] // 2
        yield p

  def alone(self, plan):
    cfg = plan['cfg']
    used = sorted({i for q in plan['requests'] for i in q['ids']})
    ref = {}
    with sut('constructing %s' % cfg['op']):
      s = Service(dict(plan, grown=False), cfg)
      for i in used:
        if plan['void'][i]:
          ref[i] = None
          continue
        args, ptrows = s.request([i], code=plan['code'])
        outs = s.answer(args, plan['code'])
        r = s.split(outs, args, 1, ptrows)[0]
        # how far the generated octree can be compared
        lim = plan['depth'] + 1
        if cfg['op'] in catalog.GEN_NETS and (cfg['update'] or plan['code']):
          for e in range(plan['full'], plan['depth'] + 1):
            lg = r['logit%d' % e][1]
            d = np.abs(lg[:, 0] - lg[:, 1])
            sc = max(1.0, float(np.abs(lg).max()))
            if (d < 2e-3 * sc).any() or not (lg[:, 1] > lg[:, 0]).any() or not np.isfinite(lg).all():
              lim = e
              break
        ref[i] = (r, lim)
    return ref

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    name = cfg['op']
    ref = in_child(lambda: self.alone(plan))
    with sut('constructing %s' % name):
      s = Service(plan, cfg)
    st0 = snap.any_(s.mod) if s.mod is not None else {}
    for qi, q in enumerate(plan['requests']):
      ids = q['ids']
      if all(plan['void'][i] for i in ids):
        continue
      what = '%s request %d samples %s' % (name, qi, ids)
      with sut('preparing ' + what):
        args, ptrows = s.request(ids, q['order'], q['dup'], plan['code'])
      if q['fault'] is not None:
        self.faulted(s, args, plan, q, ctx, what)
      with sut(what):
        outs = s.answer(args, plan['code'])
      got = s.split(outs, args, len(ids), ptrows)
      for k, i in enumerate(ids):
        if ref[i] is None:
          ctx.probe('void-sample')
          self.void(got[k], cfg, '%s position %d' % (what, k), plan)
          continue
        if plan['grown']:
          ctx.probe('grown')
        self.compare(got[k], ref[i], '%s position %d' % (what, k), plan)
      if len(ids) > 1:
        ctx.nontrivial = True
      if len(set(ids)) < len(ids):
        ctx.probe('repeat-sample')
      if ptrows is not None:
        ctx.probe('pts')
      if name == 'align':
        ctx.probe('align')
      if name in catalog.GEN_NETS and (cfg['update'] or plan['code']):
        ctx.probe('generated')
        ctx.count('compared-levels', sum(ref[i][1] - plan['full'] for i in ids))
      if plan['code']:
        ctx.probe('decode')
      if name in catalog.NETS:
        ctx.probe('net:' + name)
      ctx.state((name, cfg['nempty'], tuple(ids), len(ptrows or ())))
      ctx.log(what, [(o.name, tuple(o.t.shape)) for o in outs][:4])
    if s.mod is not None:
      d = snap.diff(st0, snap.any_(s.mod))
      if d:
        raise Violation('network-changed', '%s changed while answering: %s' % (name, d[:6]))

  def faulted(self, s, args, plan, q, ctx, what):
    ops, lines = OpSeam(), threads.LineFaults()
    with sut(what):
      with lines, ops:
        s.answer(args, plan['code'])
    f = q['fault']
    n = ops.n if f['where'] == 'op' else lines.n
    if not n:
      return
    at = min(n - 1, int(f['frac'] * n))
    seam = OpSeam(fail_at=[at], kind=f['kind']) if f['where'] == 'op' else threads.LineFaults(fail_at=[at], exc=KINDS[f['kind']])
    try:
      with seam:
        s.answer(args, plan['code'])
    except INJECTED:
      pass
    if seam.fired:
      ctx.probe('fault')
      ctx.fault('%s:%s' % (f['kind'], f['where']))
      ctx.state((plan['cfg']['op'], seam.fired[0][1]))
      ctx.log('fault', seam.fired[0][1])

  def void(self, got, cfg, what, plan):
    """A sample without nodes: pools to zero and answers no query."""
    d = catalog.depth_of(cfg, plan['depth'], plan['full'])
    gone = d > plan['full'] or (d == plan['full'] and cfg['nempty'])
    if not gone or cfg['op'] not in ('globalpool', 'interp', 'nearest', 'linear', 'octree2voxel'):
      return
    for nm, (gi, g) in got.items():
      if g.size and np.abs(g).max() != 0:
        raise Violation('batch-dependent', '%s has no nodes, its %s is %s' % (what, nm, g.reshape(-1)[:4]))

  def compare(self, got, ref, what, plan):
    want, lim = ref
    for nm, (gi, g) in got.items():
      wi, w = want[nm]
      lvl = None
      if nm.startswith(('logit', 'key')) and nm[-1].isdigit():
        lvl = int(nm.lstrip('logitkey'))
        # the nodes of level e follow from the decisions above it
        if lvl > lim:
          continue
      if nm == 'signal' and lim <= plan['depth']:
        continue
      if gi is not None:
        if len(g) != len(gi):
          raise Violation('batch-dependent', '%s: %s has %d answers for %d queries' % (what, nm, len(g), len(gi)))
        order = {int(j): k for k, j in enumerate(wi)}
        w = w[[order[int(j)] for j in gi]] if len(gi) else w[:0]
      m = near(g, w)
      if m:
        raise Violation('batch-dependent', '%s: %s: %s' % (what, nm, m))


PROP = P()
