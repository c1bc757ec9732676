"""C27: octrees, points, batches and networks survive any journey between processes."""
import copy
import io
import json
import os
import pickle
import signal
import subprocess
import sys

import numpy as np
import torch
import ocnn

from sim import catalog, datasets, faults, gen, snap
from sim.core import HarnessError, Prop, VERIF, Violation, sut

KINDS = ['octree', 'octree', 'octree', 'points', 'sample', 'batch', 'module', 'module']
OCTREES = ['built', 'merged', 'merged', 'union', 'grown', 'midway', 'full', 'void']
HOPS = ['pickle2', 'pickle4', 'pickle5', 'buffers', 'save', 'savefile', 'deepcopy', 'worker', 'worker', 'shared']


def octree(plan):
  D, F, specs, how = plan['depth'], plan['full'], plan['clouds'], plan['octree']
  feats = plan['feats']
  if how == 'built':
    o = gen.make_octree(specs[0], D, F, plan['normals'], feats)
  elif how == 'merged':
    o = gen.make_batch(specs, D, F, plan['normals'], feats, neigh=False)
  elif how == 'union':
    p = ocnn.octree.merge_points([gen.make_points(s, plan['normals'], feats) for s in specs])
    o = ocnn.octree.Octree(D, F, len(specs))
    o.build_octree(p)
  elif how == 'full':
    o = ocnn.octree.init_octree(D, F, len(specs))
    return o
  else:
    # predicted level by level, as generating networks do
    o = ocnn.octree.init_octree(D, F, len(specs))
    stop = D if how == 'grown' else F + max(1, (D - F) // 2)
    for d in range(F, min(stop, D)):
      n = int(o.nnum[d])
      s = (gen.tensor(plan['seed'] + d, n) > 0).int()
      if how == 'void':
        s[o.batch_id(d) == 0] = 0
      o.octree_split(s, d)
      o.octree_grow(d + 1)
    return o
  if plan['coarse']:
    # attributes on other levels, as some encoders keep them
    for d in range(F, D):
      if o.children[d] is not None and (plan['seed'] >> d) % 2:
        n = int(o.nnum_nempty[d])
        o.features[d] = gen.tensor(plan['seed'] ^ d, n, 2)
        if (plan['seed'] >> d) % 4 == 3:
          o.normals[d], o.points[d] = gen.tensor(plan['seed'] ^ d ^ 9, n, 3), gen.tensor(plan['seed'] ^ d ^ 8, n, 3)
  if plan['neigh'] == 'all':
    o.construct_all_neigh()
  elif plan['neigh'] == 'some':
    for d in range(1, 1 + plan['seed'] % D):
      o.construct_neigh(d)
  return o


def points(plan):
  ps = []
  for s in plan['clouds']:
    p = gen.make_points(s, plan['normals'], plan['feats'], plan['labels'])
    ps.append(p)
  if plan['octree'] in ('merged', 'union', 'grown'):
    return ocnn.octree.merge_points(ps)
  return ps[0]


def dig(t):
  return snap.any_(t)


def use_octree(o, plan, out):
  """What a receiver does with an octree."""
  levels = [d for d in range(o.depth + 1) if o.keys[d] is not None and o.children[d] is not None]
  for d in levels:
    for ne in (False, True):
      out['key%d%d' % (d, ne)] = dig(o.key(d, ne))
      out['xyzb%d%d' % (d, ne)] = dig(list(o.xyzb(d, ne)))
      out['batch%d%d' % (d, ne)] = dig(o.batch_id(d, ne))
    q = torch.cat([torch.from_numpy(np.random.RandomState(d).randint(-1, (1 << d) + 1, (20, 3))).float(),
                   torch.arange(20).remainder(o.batch_size).float().unsqueeze(1)], 1)
    out['search%d' % d] = dig(o.search_xyzb(q, d, False))
    for k in ('333', '222', '311'):
      if d and o.neighs[d] is not None:
        out['neigh%d%s' % (d, k)] = dig(o.get_neigh(d, k, 1, True))
  top = max(levels)
  if all(v is not None for v in (o.keys[o.depth], o.children[o.depth])):
    if o.points[o.depth] is not None or o.normals[o.depth] is not None or top == o.depth:
      out['points'] = dig(o.to_points(plan['seed'] % 2 == 0))
  if o.batch_size == 1:
    m = ocnn.octree.merge_octrees([o, o]) if top == o.depth else None
    out['merged'] = dig(m) if m is not None else None
  if top == o.depth:
    o.construct_all_neigh()
    d = max(1, min(o.depth, o.full_depth + plan['seed'] % 2))
    x = gen.tensor(plan['seed'], int(o.nnum[d]), 3)
    m = catalog.seed_params(ocnn.nn.OctreeConv(3, 2, [3]), 5)
    with torch.no_grad():
      out['conv'] = dig(m(x, o, d))
      out['pool'] = dig(ocnn.nn.octree_global_pool(x, o, d))
      if o.points[o.depth] is not None and o.normals[o.depth] is not None:
        out['input'] = dig(ocnn.modules.InputFeature('NDLP', True)(o))
  else:
    for d in range(top, o.depth):
      s = (gen.tensor(plan['seed'] ^ d, int(o.nnum[d])) > -0.3).int()
      o.octree_split(s, d)
      o.octree_grow(d + 1)
    out['later'] = dig(o)


def use_points(p, plan, out):
  out['size'] = {'batch_size': str(p.batch_size), 'batch_npt': str(p.batch_npt), 'device': str(p.device)}
  if p.points.shape[0] == 0:
    return  # nothing can be done with an empty cloud
  out['bbox'] = dig(list(p.bbox()))
  out['mask'] = dig(p.inbox_mask(-0.5, 0.5))
  if p.batch_size == 1 and p.batch_id is None:
    out['merged'] = dig(ocnn.octree.merge_points([p, p]))
  o = ocnn.octree.Octree(plan['depth'], plan['full'], p.batch_size)
  o.build_octree(p)
  out['octree'] = dig(o)
  p.rotate(torch.tensor([0.1, 0.2, 0.3]))
  p.scale(torch.tensor([0.9, 0.8, 1.1]))
  p.translate(torch.tensor([0.01, 0.02, 0.0]))
  if p.normals is not None:
    p.orient_normal('xyz')
  out['clip'] = dig(p.clip(-0.6, 0.6))
  out['moved'] = dig(p)


def use_module(m, plan, out):
  cfg, D, F = plan['cfg'], plan['depth'], plan['full']
  specs = plan['clouds']
  b = gen.make_batch(specs, D, F, True, 2)
  singles = [gen.make_octree(s, D, F, True, 2) for s in specs]
  seeds = [s['seed'] for s in specs]
  xs = catalog.sample_data(cfg, D, F, singles, seeds)
  ps = catalog.sample_pts(cfg, D, F, seeds, specs)
  pts = None if ps is None else catalog.batch_pts(ps)[0]
  out['modes'] = {'m': str([x.training for x in m.modules()])}
  out['repr'] = {'r': str(m)}
  out['flags'] = {'p': str([(n, p.requires_grad, str(p.dtype)) for n, p in m.named_parameters()])}
  for step in range(2):
    torch.manual_seed(plan['seed'] + step)
    x = None if xs is None else torch.cat(xs).requires_grad_()
    try:
      outs = catalog.run(cfg, m, b, D, F, x, pts)
    except ValueError as e:
      if 'more than 1 value per channel' not in str(e):
        raise
      out['single row'] = {'step': str(step)}
      return
    for q in outs:
      out['%s%d' % (q.name, step)] = dig(q.t)
    ts = [q.t for q in outs if q.t.is_floating_point() and q.t.requires_grad]
    if ts:
      m.zero_grad()
      sum((t * torch.sin(torch.arange(t.numel()).view(t.shape) * 0.9)).sum() for t in ts).backward()
      if x is not None and x.grad is not None:
        out['gx%d' % step] = dig(x.grad)
      with torch.no_grad():
        for p in m.parameters():
          if p.grad is not None:
            p.sub_(p.grad, alpha=1e-3)
  # answers of the trained module, as served
  mode = [x.training for x in m.modules()]
  m.eval()
  with torch.no_grad():
    torch.manual_seed(plan['seed'])
    for q in catalog.run(cfg, m, b, D, F, None if xs is None else torch.cat(xs), pts):
      out['%s served' % q.name] = dig(q.t)
  for x, t in zip(m.modules(), mode):
    x.training = t
  out['state'] = dig(m.state_dict())


def use_any(v, plan, out, name=''):
  if isinstance(v, ocnn.octree.Octree):
    r = {}
    use_octree(v, plan, r)
    out[name + 'octree'] = r
  elif isinstance(v, ocnn.octree.Points):
    r = {}
    use_points(v, plan, r)
    out[name + 'points'] = r
  elif isinstance(v, torch.nn.Module):
    use_module(v, plan, out)
  elif isinstance(v, dict):
    for k in v:
      use_any(v[k], plan, out, '%s%s.' % (name, k))
  elif isinstance(v, (list, tuple)):
    for i, w in enumerate(v):
      use_any(w, plan, out, '%s%d.' % (name, i))


def tensors(v, seen=None):
  """Every tensor and array an object consists of."""
  seen = set() if seen is None else seen
  if id(v) in seen:
    return
  seen.add(id(v))
  if isinstance(v, (torch.Tensor, np.ndarray)):
    yield v
  elif isinstance(v, (ocnn.octree.Octree, ocnn.octree.Points)):
    for k in sorted(vars(v)):
      yield from tensors(vars(v)[k], seen)
  elif isinstance(v, torch.nn.Module):
    for t in list(v.parameters()) + list(v.buffers()):
      yield from tensors(t, seen)
  elif isinstance(v, dict):
    for k in v:
      yield from tensors(v[k], seen)
  elif isinstance(v, (list, tuple)):
    for w in v:
      yield from tensors(w, seen)


def destroy(v):
  """Overwrites everything the object holds."""
  with torch.no_grad():
    for t in list(tensors(v)):
      if isinstance(t, np.ndarray):
        if t.flags.writeable:
          t[...] = 0
      elif t.numel() and not any(s == 0 for s in t.stride()):
        t.zero_()
  for w in ([v] if not isinstance(v, (dict, list)) else list(v.values()) if isinstance(v, dict) else v):
    if isinstance(w, ocnn.octree.Octree):
      for k in ('keys', 'children', 'neighs', 'features', 'normals', 'points'):
        l = getattr(w, k)
        for i in range(len(l)):
          l[i] = None
    elif isinstance(w, ocnn.octree.Points):
      w.points = w.normals = None
    elif isinstance(w, torch.nn.Module):
      w.train(not w.training)


def forked(fn):
  """fn() in a forked process; its pickled result, or how it ended."""
  rfd, wfd = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(rfd)
      try:
        out = ('ok', fn())
      except Violation as v:
        out = ('violation', (v.cls, v.detail, v.key))
      except BaseException as e:
        import traceback
        out = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:]))
      data = pickle.dumps(out)
      with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    finally:
      os._exit(0)
  os.close(wfd)
  with os.fdopen(rfd, 'rb') as f:
    data = f.read()
  os.waitpid(pid, 0)
  return pickle.loads(data)


class P(Prop):
  id = 'C27'
  runs = {'quick': 2000, 'thorough': 60000}
  soft_s = {'quick': 50, 'thorough': 2400}
  run_timeout = 150
  shrink_lists = ('hops',)
  shrink_min = {'hops': 1}
  rule = ('a run makes one object (octree built, merged, grown midway or with part of its neighbours; points; dataset sample or batch; operator, '
          'module or network, before or after use) and sends it over 1-4 hops (pickle protocols, out-of-band buffers, torch.save in memory and to a '
          'file, deep copies, loader workers that may be killed while sending, shared memory, in some runs a new interpreter) with failing allocations, '
          'torn streams and use or destruction of the source after sending; what arrives is compared field by field and by the results of using it in '
          'a process of its own; non-trivial when at least one hop serialised the object')
  distinct_measure = 'distinct (object, state, hops, faults) sequences'
  real = ['Octree, Points, all operators, modules and networks', 'all datasets of projects/datascts', 'pickle, copy, torch.save and torch.load, fork, pipes, shared memory']
  stubs = ['loader worker pool (simulated: one forked worker per hop, killed and torn by the plan)', 'allocator (OpSeam)']
  assumptions = ['sender and receiver run the same version of the library', 'gradients of parameters are not part of a sent module (torch drops them)']
  required_probes = tuple('kind:' + k for k in set(KINDS)) + tuple('octree:' + k for k in set(OCTREES)) + tuple('hop:' + h for h in set(HOPS)) + (
      'new-interpreter', 'torn', 'killed', 'failed', 'source-used', 'source-destroyed', 'copy-destroyed', 'trained', 'net')

  def prepare(self, base):
    datasets.warm()

  def gen(self, rng, idx, tier):
    kind = rng.choice(KINDS)
    D, F = rng.choice([3, 3, 4, 5]), rng.choice([1, 2, 2])
    cfg = None
    if kind == 'module':
      while True:
        D, F = rng.choice([3, 4]), rng.choice([1, 2, 2])
        cfg = catalog.gen_net(rng, D, F, full_unet=0) if rng.chance(0.35) else catalog.gen_op(rng, D, F)
        if catalog.supported(cfg, D, F) and catalog.make(cfg, D, F) is not None:
          break
      if cfg['op'] in catalog.GEN_NETS:
        cfg['update'] = rng.chance(0.3)
    hops = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
      hops.append({'how': rng.choice(HOPS), 'fault': faults.gen_fault(rng) if rng.chance(0.2) else None, 'torn': rng.choice([None, None, rng.random()]),
                   'source': rng.choice(['keep', 'keep', 'use', 'destroy'])})
    if rng.chance(0.03):
      hops[-1]['how'] = 'interpreter'
    return {'kind': kind, 'depth': D, 'full': F, 'cfg': cfg, 'clouds': [gen.cloud_spec(rng, 2, 25) for _ in range(rng.choice([1, 2, 2, 3]))],
            'octree': rng.choice(OCTREES), 'neigh': rng.choice(['all', 'some', 'none']), 'coarse': rng.chance(0.3), 'normals': rng.chance(0.8), 'feats': rng.choice([0, 2]),
            'labels': rng.chance(0.5), 'train': rng.chance(0.4), 'used': rng.chance(0.5), 'frozen': rng.chance(0.2), 'hops': hops, 'seed': rng.seed31(),
            'data': rng.choice(datasets.KINDS),
            'dcfg': {'depth': D, 'full': F, 'distort': rng.chance(0.3), 'angle': [0, 5, 0], 'interval': [1, 1, 1], 'scale': 0.2, 'jitter': 0.1,
                     'flip': [0, 0, 0], 'in_memory': rng.chance(0.5), 'merge': rng.chance(0.5)}}

  def simplify(self, plan):
    for i, h in enumerate(plan['hops']):
      for k, v in (('fault', None), ('torn', None), ('source', 'keep'), ('how', 'pickle4')):
        if h[k] != v:
          p = copy.deepcopy(plan)
          p['hops'][i][k] = v
          yield p
    if len(plan['clouds']) > 1:
      yield dict(copy.deepcopy(plan), clouds=plan['clouds'][:1])
    for k, v in (('coarse', False), ('used', False), ('frozen', False), ('train', False)):
      if plan[k] != v:
        yield dict(copy.deepcopy(plan), **{k: v})

  def make(self, plan, ctx):
    kind = plan['kind']
    datasets.full_seed(plan['seed'])
    if kind == 'octree':
      return octree(plan)
    if kind == 'points':
      return points(plan)
    if kind == 'module':
      m = catalog.build(plan['cfg'], plan['depth'], plan['full'], train=plan['train'])
      if plan['frozen']:
        for p in list(m.parameters())[::2]:
          p.requires_grad_(False)
      if plan['used']:
        use_module(m, plan, {})
        m.zero_grad()
      return m
    o = datasets.open_(plan['data'], ctx.scratch + '/d', plan['clouds'], plan['dcfg'])
    samples = [o.dataset[i] for i in range(len(plan['clouds']))]
    return samples[0] if kind == 'sample' else o.collate(samples)

  def uses(self, v, plan):
    def go():
      out = {}
      with sut('using what arrived'):
        use_any(v, plan, out)
      return out
    st, r = forked(go)
    if st == 'violation':
      raise Violation(*r)
    if st == 'error':
      raise HarnessError(r)
    return r

  def execute(self, plan, ctx):
    with sut('making the %s' % plan['kind']):
      v = self.make(plan, ctx)
    ctx.probe('kind:' + plan['kind'])
    if plan['kind'] == 'octree':
      ctx.probe('octree:' + plan['octree'])
    if plan['kind'] == 'module' and plan['used']:
      ctx.probe('trained')
    if plan['kind'] == 'module' and plan['cfg']['op'] in catalog.NETS:
      ctx.probe('net')
    s0 = snap.any_(v)
    types = self.types(v)
    u0 = self.uses(v, plan)
    name = plan['cfg']['op'] if plan['kind'] == 'module' else plan['data'] + ' ' + plan['kind'] if plan['kind'] in ('sample', 'batch') else \
        plan['octree'] + ' ' + plan['kind']
    for hi, h in enumerate(plan['hops']):
      what = '%s over %s (hop %d)' % (name, h['how'], hi)
      w = self.hop(v, h, hi, plan, ctx, what)
      d = snap.diff(s0, snap.any_(v))
      if d:
        raise Violation('source-changed', '%s: sending changed %s' % (what, d[:5]))
      self.same(w, s0, types, what)
      if h['source'] == 'destroy':
        destroy(v)
        ctx.probe('source-destroyed')
        ctx.fault('source-destroyed')
        self.same(w, s0, types, what + ', source destroyed')
      elif h['source'] == 'use':
        ctx.probe('source-used')
        with sut('using the source'):
          use_any(v, plan, {})
        self.same(w, s0, types, what + ', source used further')
      else:
        st, r = forked(lambda: self.separate(v, w, s0, what))
        if st == 'violation':
          raise Violation(*r)
        if st == 'error':
          raise HarnessError(r)
        ctx.probe('copy-destroyed')
      v = w
      ctx.probe('hop:' + h['how'])
      ctx.nontrivial = True
      ctx.count('steps')
    u1 = self.uses(v, plan)
    for k in sorted(set(u0) | set(u1)):
      d = snap.diff(flat(u0.get(k)), flat(u1.get(k)))
      if d:
        raise Violation('behaves-differently', '%s after %s: %s %s differ' % (name, [h['how'] for h in plan['hops']], k, d[:5]))
    ctx.state((name, plan['neigh'], plan['normals'], plan['feats'], plan['train'], [(h['how'], h['source'], bool(h['torn']), bool(h['fault'])) for h in plan['hops']]))
    ctx.log(name, [h['how'] for h in plan['hops']], json.dumps(s0, sort_keys=True)[:2000])

  def types(self, v):
    if isinstance(v, torch.nn.Module):
      return [type(x).__name__ for x in v.modules()] + [str(v)]
    if isinstance(v, dict):
      return {str(k): self.types(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
      return [type(v).__name__] + [self.types(w) for w in v]
    return type(v).__name__

  def same(self, w, s0, types, what):
    with sut('reading ' + what):
      s1, t1 = snap.any_(w), self.types(w)
    d = snap.diff(s0, s1)
    if d:
      raise Violation('travel-changes', '%s: %s differ' % (what, d[:6]))
    if t1 != types:
      raise Violation('travel-changes', '%s: other types' % what)

  def separate(self, v, w, s0, what):
    """The copy is no part of the original."""
    destroy(w)
    d = snap.diff(s0, snap.any_(v))
    if d:
      raise Violation('copy-shares', '%s: overwriting what arrived changed the source: %s' % (what, d[:5]))

  def hop(self, v, h, hi, plan, ctx, what):
    how = h['how']
    if how == 'deepcopy':
      if h['fault']:
        self.faulted(lambda: copy.deepcopy(v), h, ctx, what)
      with sut(what):
        return copy.deepcopy(v)
    if how == 'interpreter':
      ctx.probe('new-interpreter')
      ctx.fault('new-interpreter')
      return self.interpreter(v, plan, ctx, hi, what)
    enc, dec = self.codec(how, ctx, hi)
    if how == 'shared':
      # sender and receiver see the same memory: sent from a copy, kept as a copy
      with sut(what):
        return copy.deepcopy(dec(enc(copy.deepcopy(v))))
    if how == 'worker':
      # the worker holds the object and sends it through a pipe
      def send():
        return enc(v)
      if h['torn'] is not None:
        data = self.received(send, h['torn'], what)
        ctx.probe('killed')
        ctx.fault('worker-killed')
        self.torn(dec, data, what)
      data = self.received(send, None, what)
    else:
      if h['fault']:
        self.faulted(lambda: enc(v), h, ctx, what)
      with sut('sending ' + what):
        data = enc(v)
      if h['torn'] is not None:
        ctx.fault('torn-stream')
        self.torn(dec, cut(data, h['torn']), what)
        ctx.probe('torn')
    if h['fault']:
      self.faulted(lambda: dec(data), h, ctx, what)
    with sut('receiving ' + what):
      return dec(data)

  def faulted(self, fn, h, ctx, what):
    """An attempt with a failing allocation; afterwards the hop is repeated."""
    from sim import threads
    from sim.torchseam import INJECTED, KINDS as EXC, OpSeam
    f = h['fault']
    seam = OpSeam() if f['where'] == 'op' else threads.LineFaults()
    with sut(what):
      with seam:
        fn()
    if not seam.n:
      return
    at = min(seam.n - 1, int(f['frac'] * seam.n))
    seam = OpSeam(fail_at=[at], kind=f['kind']) if f['where'] == 'op' else threads.LineFaults(fail_at=[at], exc=EXC[f['kind']])
    try:
      with seam:
        fn()
      st = 'ok'
    except INJECTED:
      st = 'fault'
    except Exception:
      if not seam.fired:
        raise
      st = 'fault'
    if seam.fired:
      ctx.probe('failed')
      ctx.fault('%s:%s' % (f['kind'], f['where']))

  def codec(self, how, ctx, hi):
    if how == 'buffers':
      def enc(v):
        bufs = []
        head = pickle.dumps(v, protocol=5, buffer_callback=bufs.append)
        return [head] + [bytes(b.raw()) for b in bufs]

      def dec(d):
        return pickle.loads(d[0], buffers=[bytearray(b) for b in d[1:]])
      return enc, dec
    if how == 'save':
      def enc(v):
        f = io.BytesIO()
        torch.save(v, f)
        return f.getvalue()
      return enc, lambda d: torch.load(io.BytesIO(d), weights_only=False)
    if how == 'savefile':
      path = os.path.join(ctx.scratch, 'hop%d.pt' % hi)

      def enc(v):
        torch.save(v, path, _use_new_zipfile_serialization=hi % 2 == 0)
        with open(path, 'rb') as f:
          return f.read()

      def dec(d):
        with open(path, 'wb') as f:
          f.write(d)
        return torch.load(path, map_location='cpu', weights_only=False)
      return enc, dec
    if how == 'shared':
      from multiprocessing.reduction import ForkingPickler
      import torch.multiprocessing as mp
      mp.set_sharing_strategy('file_descriptor')
      return (lambda v: bytes(ForkingPickler.dumps(v))), ForkingPickler.loads
    proto = {'pickle2': 2, 'pickle4': 4}.get(how, 5)
    return (lambda v: pickle.dumps(v, protocol=proto)), pickle.loads

  def torn(self, dec, data, what):
    """A stream that ends early is an error."""
    try:
      dec(data)
    except Exception:
      return
    raise Violation('torn-accepted', '%s: a stream cut short was accepted' % what)

  def received(self, send, torn, what):
    """The bytes a loader worker gets through before it is killed (torn) or
    ends."""
    st, data = forked(send)
    if st != 'ok':
      raise Violation('unexpected-error', '%s: the worker failed: %s' % (what, data[:400] if st == 'error' else data))
    return data if torn is None else cut(data, torn)

  def interpreter(self, v, plan, ctx, hi, what):
    """Received, used and sent back by a new interpreter."""
    path = os.path.join(ctx.scratch, 'interp%d' % hi)
    with sut('sending ' + what):
      with open(path, 'wb') as f:
        pickle.dump(v, f)
    with open(path + '.plan', 'w') as f:
      json.dump(plan, f)
    p = subprocess.run([sys.executable, '-B', '-c', 'import sys; sys.path[:0] = %r; from props import c27; c27.main(%r)' % (
        [VERIF] + [x for x in sys.path if x.startswith(os.environ.get('SIM_REPO', '/repo'))], path)],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd=ctx.scratch)
    if p.returncode or not os.path.exists(path + '.out'):
      raise HarnessError('new interpreter: %s' % p.stderr.decode(errors='replace')[-2000:])
    with open(path + '.out', 'rb') as f:
      r = pickle.load(f)
    if r[0] != 'ok':
      raise Violation('unexpected-error', '%s: a new interpreter fails: %s' % (what, r[1]))
    u0, u1 = self.uses(v, plan), r[1]
    for k in sorted(set(u0) | set(u1)):
      d = snap.diff(flat(u0.get(k)), flat(u1.get(k)))
      if d:
        raise Violation('behaves-differently', '%s: %s %s differ in a new interpreter' % (what, k, d[:5]))
    with sut('receiving ' + what):
      return pickle.loads(r[2])


def flat(u):
  """{name: digest} of nested digests"""
  out = {}

  def go(v, p):
    if isinstance(v, dict):
      for k in v:
        go(v[k], '%s/%s' % (p, k))
    else:
      out[p] = v
  go(u, '')
  return out


def cut(data, frac):
  if isinstance(data, list):
    return [data[0][:int(frac * len(data[0]))]] + data[1:]
  return data[:int(frac * len(data))]


def main(path):
  """The receiving side of a hop to a new interpreter."""
  from sim import boot
  boot.boot()
  plan = json.load(open(path + '.plan'))
  try:
    with open(path, 'rb') as f:
      v = pickle.load(f)
    back = pickle.dumps(v)
    r = ('ok', PROP.uses(v, plan), back)
  except Violation as e:
    r = ('bad', e.detail)
  except Exception as e:
    r = ('bad', '%s: %s' % (type(e).__name__, e))
  with open(path + '.tmp', 'wb') as f:
    pickle.dump(r, f)
  os.rename(path + '.tmp', path + '.out')


PROP = P()
