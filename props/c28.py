"""C28: every node operator computes its documented function."""
import copy

import numpy as np
import torch
import ocnn

from props.c05 import split_flags
from sim import gen, snap
from sim.core import Prop, Violation, sut
from sim.faults import attempt, gen_fault
from sim.refmodel import KERNELS, RefOctree, voxels
from sim.torchseam import OpSeam

OPS = ['pad', 'depad', 'tocol', 'fromcol', 'maxpool', 'maxunpool', 'avgpool', 'globalpool', 'nearest', 'linear', 'nearest', 'linear', 'upsample',
       'upsample', 'nearup', 'align', 'voxel', 'groupnorm', 'groupnorm', 'feature', 'feature', 'topoints', 'points', 'points', 'block', 'search', 'tensor', 'defaults', 'init']
OCT = ['built', 'merged', 'merged', 'union', 'grown', 'void', 'void']
KERN = ['333', '222', '311', '131', '113', '331', '313', '133']


class M:
  """A linear map given by (row, column, value) triples plus a constant."""

  def __init__(self, n_out, n_in, row, col, val=None, const=None):
    self.n_out, self.n_in = n_out, n_in
    self.row, self.col = np.asarray(row, np.int64), np.asarray(col, np.int64)
    self.val = np.ones(len(self.row)) if val is None else np.asarray(val, np.float64)
    self.const = const

  def out(self, x):
    o = np.zeros((self.n_out, x.shape[1]))
    np.add.at(o, self.row, self.val[:, None] * x[self.col])
    return o if self.const is None else o + self.const

  def grad(self, g):
    o = np.zeros((self.n_in, g.shape[1]))
    np.add.at(o, self.col, self.val[:, None] * g[self.row])
    return o


def interp_map(r, d, nempty, q, method, check):
  """q: (N,4) x,y,z,b in voxel units of depth d; the documented interpolation."""
  idx = r.index(d, nempty)
  n_in = len(idx)
  hi = 1 << d
  row, col, val = [], [], []
  faint = []                            # all weight on corners that are almost zero: rounding decides
  for i, (x, y, z, b) in enumerate(q.tolist()):
    b = int(b)
    if method == 'nearest':
      if check and not (0 <= x < hi and 0 <= y < hi and 0 <= z < hi):
        continue
      j = idx.get((b, int(np.floor(x)), int(np.floor(y)), int(np.floor(z))))
      if j is not None:
        row.append(i); col.append(j); val.append(1.0)
      continue
    p = np.array([x, y, z]) - 0.5
    f = np.floor(p)
    t = p - f
    w, js = [], []
    for a in (0, 1):
      for e in (0, 1):
        for c in (0, 1):
          j = idx.get((b, int(f[0]) + a, int(f[1]) + e, int(f[2]) + c))
          if j is None:
            continue
          js.append(j)
          w.append((t[0] if a else 1 - t[0]) * (t[1] if e else 1 - t[1]) * (t[2] if c else 1 - t[2]))
    s = sum(w)
    if s > 0:
      for j, v in zip(js, w):
        row.append(i); col.append(j); val.append(v / s)
      if s < 1e-3:
        faint.append(i)
  m = M(len(q), n_in, row, col, val)
  m.faint = faint
  return m


def averages(specs, D, feats, full):
  """Averaged points (voxel units), normals and features of the finest voxels, keyed by voxel."""
  acc = {}
  for b, s in enumerate(specs):
    p = (gen.cloud(s).astype(np.float32) + np.float32(1)) * np.float32(2 ** (D - 1))
    a = gen.attrs(s, True, feats)
    for i in range(len(p)):
      k = (b,) + tuple(int(v) for v in p[i])
      acc.setdefault(k, []).append((p[i].astype(np.float64), a['normals'][i].astype(np.float64),
                                    a['features'][i].astype(np.float64) if feats else None))
  out = {}
  for k, v in acc.items():
    n = sum(x[1] for x in v)
    out[k] = (sum(x[0] for x in v) / len(v), n, sum(x[2] for x in v) / len(v) if feats else None)
  return out


class P(Prop):
  id = 'C28'
  runs = {'quick': 3000, 'thorough': 120000}
  soft_s = {'quick': 60, 'thorough': 2400}
  shrink_lists = ('steps',)
  shrink_min = {'steps': 1}
  rule = ('a run builds 1-3 octrees (from points, merged, of merged points, grown by random splits, with samples without nodes) and applies 2-9 seeded '
          'operations to them - padding, neighbourhood gathering and scattering, pooling and unpooling, interpolation, upsampling, alignment, '
          'voxelisation, normalisation, input features, conversion to points, point-cloud maps, blocks - forward and backward, between splits and growths '
          'that replace levels, with failing allocations and interrupts before repeats and chosen contents of fresh memory; non-trivial when two '
          'operations were compared')
  distinct_measure = 'distinct (operation, octree kind, depth, options, memory contents) tuples plus fault sites'
  real = ['ocnn.nn, ocnn.modules (blocks, InputFeature), ocnn.octree (Octree, Points)', 'torch autograd and CPU kernels']
  stubs = ['allocator (contents of fresh memory, failures) via OpSeam', 'float64 numpy reference of each operator over voxel dictionaries']
  assumptions = ['linear interpolation without bound check is asked for points at least half a voxel inside the volume', 'batch normalisation, linear '
                 'layers and activations of torch are right']
  required_probes = tuple('op:' + o for o in set(OPS)) + tuple('oct:' + o for o in set(OCT)) + (
      'poisoned', 'retried', 'regrown', 'f64', 'empty-sample', 'missing-corner', 'border-upsample', 'bound-check', 'rescaled', 'deep',
                                                                                         'model-defaults')

  def gen(self, rng, idx, tier):
    D = rng.choice([2, 3, 3, 4, 4, 5])
    F = rng.randint(1, min(2, D - 1))
    deep = rng.chance(0.1)       # the depths and sizes of real inputs
    if deep:
      D, F = rng.choice([6, 7, 8, 10]), rng.choice([2, 3])
    octs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
      size = 50 if not deep else 30 if D == 10 else rng.choice([30, 30, 300, 2500])
      octs.append({'how': rng.choice(['built', 'merged', 'union'] if deep else OCT), 'clouds': [gen.cloud_spec(rng, 1, size) for _ in range(rng.choice([1, 2, 2, 3] if deep else [1, 2, 2, 3, 3, 5, 9]))], 'seed': rng.seed31(),
                   'split': rng.choice(['random', 'half', 'dense', 'sparse']), 'feats': rng.choice([0, 1, 3])})
      for cl in octs[-1]['clouds']:
        if cl['n'] > 30:      # many points in one voxel add up in float32
          cl['kind'] = rng.choice(['uniform', 'sphere', 'plane']) if deep else cl['kind']
    steps = []
    for _ in range(rng.randint(2, 9)):
      s = {'op': rng.choice(OPS), 'oct': rng.randrange(3), 'other': rng.randrange(3), 'd': rng.random(), 'nempty': rng.chance(0.5), 'seed': rng.seed31(),
           'kernel': rng.choice(KERN), 'stride': rng.choice([1, 1, 2]), 'C': rng.choice([1, 2, 3, 6]), 'prec': rng.choice(['f32', 'f32', 'f64']),
           'module': rng.chance(0.5), 'check': rng.chance(0.5), 'method': rng.choice(['linear', 'nearest']), 'group': rng.choice([1, 2, 3, 6]),
           'val': rng.choice([0.0, 1.5, -2.0, float('-inf')]), 'feature': ''.join(c for c in 'NDLPF' if rng.chance(0.6)) or 'N', 'grads': rng.chance(0.6),
           'poison': rng.choice([None, 'nan', 'nan', 'inf', 'big', 'wave']), 'up': rng.randint(1, 3), 'p64': rng.chance(0.2), 'size': rng.choice([1, 5, 30]),
           'fault': gen_fault(rng) if rng.chance(0.15) else None}
      steps.append(s)
      if rng.chance(0.15):
        steps.append({'op': 'regrow', 'oct': rng.randrange(3), 'd': 0.999 if deep else rng.random(), 'seed': rng.seed31(), 'same': rng.chance(0.6)})
    return {'depth': D, 'full': F, 'octs': octs, 'steps': steps}

  def simplify(self, plan):
    for i, s in enumerate(plan['steps']):
      for k, v in (('fault', None), ('poison', None), ('grads', False), ('module', False), ('prec', 'f32'), ('p64', False), ('C', 1), ('size', 1)):
        if s.get(k) != v and k in s:
          p = copy.deepcopy(plan)
          p['steps'][i][k] = v
          yield p
    for i, o in enumerate(plan['octs']):
      if len(o['clouds']) > 1:
        p = copy.deepcopy(plan)
        del p['octs'][i]['clouds'][0]
        yield p
      for j, c in enumerate(o['clouds']):
        if c['n'] > 1:
          p = copy.deepcopy(plan)
          p['octs'][i]['clouds'][j]['n'] = c['n'] // 2
          yield p
    if len(plan['octs']) > 1:
      p = copy.deepcopy(plan)
      p['octs'].pop()
      yield p

  # ---------------------------------------------------------------------
  def make(self, spec, D, F, ctx):
    if D > 5:
      ctx.probe('deep')
    how, specs, feats = spec['how'], spec['clouds'], spec['feats']
    ctx.probe('oct:' + how)
    if how in ('built', 'merged', 'union'):
      if how == 'built':
        specs = specs[:1]
        o = gen.make_octree(specs[0], D, F, True, feats)
      elif how == 'merged':
        o = gen.make_batch(specs, D, F, True, feats, neigh=False)
      else:
        o = ocnn.octree.Octree(D, F, len(specs))
        o.build_octree(ocnn.octree.merge_points([gen.make_points(s, True, feats) for s in specs]))
      o.construct_all_neigh()
      r = gen.ref_batch(specs, D, F)
      av = averages(specs, D, feats, F)
    else:
      B = len(specs)
      o = ocnn.octree.init_octree(D, F, B)
      r = RefOctree(D, F, B)
      for d in range(F + 1):
        r.grow_full(d)
      for d in range(F, D):
        f = split_flags(spec['split'], spec['seed'] + d, r.coords[d], B)
        if how == 'void' and B > 1:
          f = f & (r.coords[d][:, 0] != spec['seed'] % B)
          ctx.probe('empty-sample')
        o.octree_split(torch.from_numpy(f.astype(np.int64)), d)
        o.octree_grow(d + 1)
        r.split(d, f)
        r.grow(d + 1)
      f = split_flags('random', spec['seed'] + D, r.coords[D], B)
      o.octree_split(torch.from_numpy(f.astype(np.int64)), D)
      r.split(D, f)
      av = None
    return {'o': o, 'r': r, 'av': av, 'feats': feats, 'how': how}

  def execute(self, plan, ctx):
    D, F = plan['depth'], plan['full']
    self.coarse = 2.0 ** max(0, D - 5)      # float32 positions in units of the finest voxel
    with sut('building octrees'):
      octs = [self.make(s, D, F, ctx) for s in plan['octs']]
    for i, s in enumerate(plan['steps']):
      c = octs[s['oct'] % len(octs)]
      if s['op'] == 'regrow':
        self.regrow(s, c, D, F, ctx, i)
        continue
      r = c['r']
      fn = getattr(self, 'op_' + s['op'])
      what = 'step %d: %s of a %s octree' % (i, s['op'], c['how'])
      done = fn(s, c, octs, D, F, ctx, what)
      if done:
        ctx.probe('op:' + s['op'])
        ctx.count('compared')
        if i:
          ctx.nontrivial = True
        ctx.state((s['op'], c['how'], D, round(s['d'], 1), s['nempty'], s['kernel'], s['stride'], s['poison'], s['prec']))
        ctx.log(i, what, done)

  def regrow(self, s, c, D, F, ctx, i):
    """Another split of a level (of the same size), grown to the end."""
    o, r = c['o'], c['r']
    if F >= D:
      return
    d = F + int(s['d'] * (D - F))
    rs = np.random.RandomState(s['seed'] % (2 ** 31))
    with sut('step %d: growing again' % i):
      for e in range(d, D + 1):
        if e == d:
          f = rs.permutation(r.nempty[e]) if s['same'] else rs.rand(len(r.coords[e])) < 0.5
        else:
          f = rs.rand(len(r.coords[e])) < 0.4
        o.octree_split(torch.from_numpy(f.astype(np.int64)), e)
        r.split(e, f)
        if e < D:
          o.octree_grow(e + 1)
          r.grow(e + 1)
    o.points[D] = o.normals[D] = o.features[D] = None
    c['av'], c['feats'] = None, 0
    ctx.probe('regrown')

  # -- helpers
  def depth(self, s, lo, hi):
    return lo + int(s['d'] * (hi - lo + 1)) if hi >= lo else None

  def rows(self, r, d, nempty):
    return r.nnum_nempty(d) if nempty else r.nnum(d)

  def data(self, s, n, C=None):
    x = gen.tensor(s['seed'], n, C or s['C'])
    if s['seed'] % 7 == 0:       # far from zero
      x = x * 200 - 700
    elif s['seed'] % 7 == 1:
      x = x * 3e5
    return x.double() if s['prec'] == 'f64' else x

  def call(self, s, c, fn, x, ctx, what, other=None):
    """fn(x) under the step's faults and memory; (output, gradient function)."""
    watch = [c['o']] + ([other['o']] if other else [])
    before = snap.any_(watch)
    x0 = x.clone()
    if s['fault']:
      with sut(what):
        st, _ = attempt(lambda x: fn(x), (x,), s['fault'], ctx)
      if st == 'fault':
        ctx.probe('retried')
    seam = OpSeam(poison=s['poison'])
    xx = x.clone().requires_grad_(s['grads'] and x.is_floating_point())
    with sut(what):
      with seam:
        out = fn(xx)
    if s['poison'] and seam.poisoned:
      ctx.probe('poisoned')
      ctx.fault('dirty-memory:' + s['poison'], seam.poisoned)
    d = snap.diff(before, snap.any_(watch))
    if d or not torch.equal(x, x0) or not torch.equal(xx.detach(), x0):
      raise Violation('input-changed', '%s changed %s' % (what, d or 'its input data'))
    if s['prec'] == 'f64':
      ctx.probe('f64')
    ctx.count('steps', seam.n)
    return out, xx

  def cmp(self, name, got, want, s, what, tol=None):
    got = got.detach().double().numpy()
    tol = tol or (1e-9 if s['prec'] == 'f64' and not s['p64'] else 1e-4 * self.coarse)
    if got.shape != want.shape:
      raise Violation('shape', '%s: %s of shape %s, expected %s' % (what, name, got.shape, want.shape))
    with np.errstate(invalid='ignore'):
      fin = np.isfinite(want)
      scale = 1.0 + (np.abs(want[fin]).max() if fin.any() else 0.0)
      bad = ~np.where(fin, np.abs(got - want) <= tol * scale, got == want)
    if bad.any():
      j = tuple(int(v) for v in np.argwhere(bad)[0])
      raise Violation('value', '%s: %s%s is %r, expected %r (fresh memory %s)' % (what, name, list(j), float(got[j]), float(want[j]), s['poison']),
                      key='value:%s:%s' % (s['op'], name))

  def linear_op(self, s, c, fn, x, m, ctx, what, tol=None, other=None):
    out, xx = self.call(s, c, fn, x, ctx, what, other)
    if isinstance(out, tuple):
      out = out[0]
    if out.dtype != x.dtype:
      raise Violation('dtype', '%s: result %s of %s data' % (what, out.dtype, x.dtype))
    self.cmp('result', out, m.out(x.double().numpy()), s, what, tol)
    if s['grads']:
      G = gen.tensor(s['seed'] ^ 3, *out.shape).to(out.dtype)
      G0 = torch.where(torch.isfinite(out.detach()), G, torch.zeros_like(G))
      with sut('backward of ' + what):
        with OpSeam(poison=s['poison']):
          g, = torch.autograd.grad(out, [xx], G, allow_unused=True)
      g = torch.zeros_like(x) if g is None else g
      self.cmp('gradient', g, m.grad(G0.double().numpy()) if m.const is None else m.grad(G.double().numpy()), s, what, tol)
    return '%d->%d' % (m.n_in, m.n_out)

  # -- operators
  def op_pad(self, s, c, octs, D, F, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 0, D)
    n = r.nnum(d)
    mask = r.nempty[d]
    const = np.where(mask, 0.0, s['val'])[:, None]
    with np.errstate(invalid='ignore'):
      m = M(n, int(mask.sum()), np.nonzero(mask)[0], np.arange(int(mask.sum())), const=const)
    return self.linear_op(s, c, lambda x: ocnn.nn.octree_pad(x, o, d, s['val']), self.data(s, m.n_in), m, ctx, what)

  def op_depad(self, s, c, octs, D, F, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 0, D)
    at = np.nonzero(r.nempty[d])[0]
    m = M(len(at), r.nnum(d), np.arange(len(at)), at)
    return self.linear_op(s, c, lambda x: ocnn.nn.octree_depad(x, o, d), self.data(s, m.n_in), m, ctx, what)

  def col(self, s, r, d):
    nb = r.neigh(d, s['kernel'], s['stride'], s['nempty'])
    v = nb >= 0
    K = nb.shape[1]
    return nb, K, np.nonzero(v.ravel())[0], nb.ravel()[v.ravel()]

  def op_tocol(self, s, c, octs, D, F, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 1, D)
    nb, K, row, col = self.col(s, r, d)
    m = M(nb.size, self.rows(r, d, s['nempty']), row, col)
    f = lambda x: ocnn.nn.octree2col(x, o, d, s['kernel'], s['stride'], s['nempty'])
    out = lambda x: f(x).flatten(0, 1)
    return self.linear_op(s, c, out, self.data(s, m.n_in), m, ctx, what)

  def op_fromcol(self, s, c, octs, D, F, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 1, D)
    nb, K, row, col = self.col(s, r, d)
    m = M(self.rows(r, d, s['nempty']), nb.size, col, row)
    f = lambda x: ocnn.nn.col2octree(x.view(len(nb), K, -1), o, d, s['kernel'], s['stride'], s['nempty'])
    return self.linear_op(s, c, f, self.data(s, m.n_in), m, ctx, what)

  def groups(self, r, d, nempty, x):
    """(parents, 8) indices of the data of children, -1 for none."""
    if not nempty:
      return np.arange(r.nnum(d)).reshape(-1, 8)
    return np.where(r.nempty[d], np.cumsum(r.nempty[d]) - 1, -1).reshape(-1, 8)

  def op_maxpool(self, s, c, octs, D, F, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 1, D)
    ne = s['nempty']
    x = self.data(s, self.rows(r, d, ne))
    xn = x.double().numpy()
    gidx = self.groups(r, d, ne, x)
    full = self.depth_full(r, d)
    # every parent needs a child with data
    if ne and (gidx < 0).all(1).any():
      return None
    ext = np.concatenate([xn, np.full((1, xn.shape[1]), -np.inf)])
    v = ext[gidx]                                    # (P, 8, C)
    want, arg = v.max(1), v.argmax(1)
    out_rows = np.arange(len(gidx)) if ne else np.nonzero(r.nempty[d - 1])[0]
    total = len(gidx) if ne else r.nnum(d - 1)
    if len(out_rows) != len(gidx):
      return None
    w = np.zeros((total, xn.shape[1]))
    w[out_rows] = want
    mod = ocnn.nn.OctreeMaxPool(ne, True)
    out, xx = self.call(s, c, (lambda x: mod(x, o, d)) if s['module'] else (lambda x: ocnn.nn.octree_max_pool(x, o, d, ne, True)), x, ctx, what)
    self.cmp('result', out[0], w, s, what)
    if not np.array_equal(out[1].numpy(), arg):
      raise Violation('value', '%s: other children are reported as largest' % what, key='value:maxpool:indices')
    if s['grads']:
      G = gen.tensor(s['seed'] ^ 3, *out[0].shape).to(x.dtype)
      with sut('backward of ' + what):
        g, = torch.autograd.grad(out[0], [xx], G)
      dx = np.zeros_like(ext)
      ci = np.arange(xn.shape[1])
      for p in range(len(gidx)):
        np.add.at(dx, (gidx[p, arg[p]], ci), G.double().numpy()[out_rows[p]])
      self.cmp('gradient', g, dx[:-1], s, what)
    return 'pooled %d' % len(gidx)

  def depth_full(self, r, d):
    return d - 1 <= r.full_depth

  def op_maxunpool(self, s, c, octs, D, F, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 0, D - 1)
    ne = s['nempty']
    x = self.data(s, self.rows(r, d, ne))
    P_ = r.nnum_nempty(d)
    if P_ * 8 != r.nnum(d + 1):
      return None
    C = x.shape[1]
    ind = np.random.RandomState(s['seed'] % 2 ** 31).randint(0, 8, (P_, C))
    rows_in = np.arange(P_) if ne else np.nonzero(r.nempty[d])[0]
    mod = ocnn.nn.OctreeMaxUnpool(ne)
    ti = torch.from_numpy(ind)
    out, xx = self.call(s, c, (lambda x: mod(x, ti, o, d)) if s['module'] else (lambda x: ocnn.nn.octree_max_unpool(x, ti, o, d, ne)), x, ctx, what)
    w = np.zeros((P_ * 8, C))
    ci = np.arange(C)
    xn = x.double().numpy()
    for p in range(P_):
      w[p * 8 + ind[p], ci] = xn[rows_in[p]]
    keep = r.nempty[d + 1] if ne else np.ones(P_ * 8, bool)
    self.cmp('result', out, w[keep], s, what)
    if s['grads']:
      G = gen.tensor(s['seed'] ^ 3, *out.shape).to(x.dtype)
      with sut('backward of ' + what):
        g, = torch.autograd.grad(out, [xx], G)
      e = np.zeros_like(w)
      e[keep] = G.double().numpy()
      dx = np.zeros_like(xn)
      for p in range(P_):
        dx[rows_in[p]] = e[p * 8 + ind[p], ci]
      self.cmp('gradient', g, dx, s, what)
    return 'unpooled %d' % P_

  def op_avgpool(self, s, c, octs, D, F, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 1, D)
    nb, K, _, _ = self.col(s, r, d)
    v = nb >= 0
    cnt = v.sum(1)
    row, k = np.nonzero(v)
    m = M(len(nb), self.rows(r, d, s['nempty']), row, nb[row, k], 1.0 / cnt[row])
    mod = ocnn.nn.OctreeAvgPool([int(q) for q in s['kernel']], s['stride'], s['nempty'])
    f = (lambda x: mod(x, o, d)) if s['module'] else (lambda x: ocnn.nn.octree_avg_pool(x, o, d, s['kernel'], s['stride'], s['nempty']))
    return self.linear_op(s, c, f, self.data(s, m.n_in), m, ctx, what, 1e-6 if s['prec'] == 'f64' else None)

  def op_globalpool(self, s, c, octs, D, F, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 0, D)
    b = (r.coords[d][r.nempty[d]] if s['nempty'] else r.coords[d])[:, 0]
    cnt = np.bincount(b, minlength=r.batch_size)
    m = M(r.batch_size, len(b), b, np.arange(len(b)), 1.0 / np.maximum(cnt, 1)[b])
    mod = ocnn.nn.OctreeGlobalPool(s['nempty'])
    f = (lambda x: mod(x, o, d)) if s['module'] else (lambda x: ocnn.nn.octree_global_pool(x, o, d, s['nempty']))
    return self.linear_op(s, c, f, self.data(s, len(b)), m, ctx, what)

  def queries(self, s, r, d, inside):
    rs = np.random.RandomState(s['seed'] % 2 ** 31)
    hi = 1 << d
    n = s['size']
    if inside and hi < 2:
      return None
    c = r.coords[d]
    near = c[rs.randint(len(c), size=n)]
    q = np.concatenate([near[:, 1:] + rs.uniform(-0.6, 1.6, (n, 3)), near[:, :1]], 1)
    far = np.concatenate([rs.uniform(-1 if s['check'] else 0, hi + (1 if s['check'] else 0), (n, 3)), rs.randint(0, r.batch_size, (n, 1))], 1)
    q = np.concatenate([q, far])
    if rs.rand() < 0.3:
      q[:, :3] = np.round(q[:, :3] * 2) / 2         # on voxel borders and centres
    if inside:
      q[:, :3] = np.clip(q[:, :3], 0.5, np.nextafter(np.float32(hi - 0.5), np.float32(0)))
    elif not s['check']:
      q[:, :3] = np.clip(q[:, :3], 0, np.nextafter(np.float32(hi), np.float32(0)))
    q = q[rs.permutation(len(q))].astype(np.float32)
    return q

  def interp(self, s, c, method, D, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 1, D)
    ne, check = s['nempty'], s['check']
    q = self.queries(s, r, d, method == 'linear' and not check)
    if q is None:
      return None
    m = interp_map(r, d, ne, q.astype(np.float64), method, check)
    if m.faint:
      q = np.delete(q, m.faint, 0)
      m = interp_map(r, d, ne, q.astype(np.float64), method, check)
    if not len(q):
      return None
    if len(set(m.row.tolist())) < len(q) or (method == 'linear' and len(m.row) < 8 * len(q)):
      ctx.probe('missing-corner')
    if check:
      ctx.probe('bound-check')
    pts = torch.from_numpy(q)
    if s['p64']:
      pts = pts.double()
    x = self.data(s, m.n_in)
    if s['module']:
      mod = ocnn.nn.OctreeInterp(method, ne, check, rescale_pts=False)
      f = lambda x: mod(x, o, d, pts)
      if s['seed'] % 3 == 0 and len(q):
        # the same points in [-1, 1]; a rounding of them next to voxel borders decides
        unit = pts[:, :3] * 2.0 ** (1 - d) - 1
        back = (unit + 1.0) * 2.0 ** (d - 1)
        if torch.equal(back, pts[:, :3]) or (method == 'linear' and check and float((back - pts[:, :3]).abs().max()) < 1e-5 and not s['p64'] and
                                             float((pts[:, :3] * 2 - (pts[:, :3] * 2).round()).abs().min()) > 1e-3):
          pts = torch.cat([unit, pts[:, 3:]], 1)
          mod = ocnn.nn.OctreeInterp(method, ne, check) if s['seed'] % 2 else ocnn.nn.OctreeInterp(method, ne, check, True)
          ctx.probe('rescaled')
    else:
      fn = ocnn.nn.octree_linear_pts if method == 'linear' else ocnn.nn.octree_nearest_pts
      f = lambda x: fn(x, o, d, pts, ne, check)
    p0 = pts.clone()
    out = self.linear_op(s, c, f, x, m, ctx, what, 1e-4 if method == 'linear' else None)
    if not torch.equal(p0, pts):
      raise Violation('input-changed', '%s changed the query points' % what)
    return out

  def op_nearest(self, s, c, octs, D, F, ctx, what):
    return self.interp(s, c, 'nearest', D, ctx, what)

  def op_linear(self, s, c, octs, D, F, ctx, what):
    return self.interp(s, c, 'linear', D, ctx, what)

  def op_upsample(self, s, c, octs, D, F, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 1, D - 1)
    if d is None:
      return None
    t = min(D, d + s['up'])
    ne = s['nempty']
    cc = r.coords[t][r.nempty[t]] if ne else r.coords[t]
    q = np.concatenate([(cc[:, 1:] + 0.5) / (1 << (t - d)), cc[:, :1]], 1)
    m = interp_map(r, d, ne, q, s['method'], True)
    if ((q[:, :3] < 0.5) | (q[:, :3] > (1 << d) - 0.5)).any():
      ctx.probe('border-upsample')
    mod = ocnn.nn.OctreeUpsample(s['method'], ne)
    f = (lambda x: mod(x, o, d)) if t == d + 1 and s['module'] else (lambda x: mod(x, o, d, t))
    return self.linear_op(s, c, f, self.data(s, m.n_in), m, ctx, what + ' (%s, %d to %d)' % (s['method'], d, t), 1e-4)

  def op_nearup(self, s, c, octs, D, F, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 0, D - 1)
    ne = s['nempty']
    idx = r.index(d, ne)
    cc = r.coords[d + 1][r.nempty[d + 1]] if ne else r.coords[d + 1]
    col = [idx[(b, x >> 1, y >> 1, z >> 1)] for b, x, y, z in cc.tolist()]
    m = M(len(cc), len(idx), np.arange(len(cc)), col)
    return self.linear_op(s, c, lambda x: ocnn.nn.octree_interp.octree_nearest_upsample(x, o, d, ne), self.data(s, m.n_in), m, ctx, what)

  def op_align(self, s, c, octs, D, F, ctx, what):
    other = octs[s['other'] % len(octs)]
    r, o, q = c['r'], c['o'], other['o']
    d = self.depth(s, 1, D)
    idx = r.index(d, s['nempty'])
    rq = other['r']
    cc = rq.coords[d][rq.nempty[d]] if s['nempty'] else rq.coords[d]
    pairs = [(i, idx[tuple(v)]) for i, v in enumerate(cc.tolist()) if tuple(v) in idx]
    m = M(len(cc), len(idx), [p[0] for p in pairs], [p[1] for p in pairs])
    if len(pairs) < len(cc):
      ctx.probe('missing-corner')
    return self.linear_op(s, c, lambda x: ocnn.nn.octree_align(x, o, q, d, s['nempty']), self.data(s, m.n_in), m, ctx, what, other=other)

  def op_voxel(self, s, c, octs, D, F, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 0, min(D, 4))
    cc = r.coords[d][r.nempty[d]] if s['nempty'] else r.coords[d]
    n = 1 << d
    row = ((cc[:, 0] * n + cc[:, 1]) * n + cc[:, 2]) * n + cc[:, 3]
    m = M(r.batch_size * n ** 3, len(cc), row, np.arange(len(cc)))
    mod = ocnn.nn.Octree2Voxel(s['nempty'])
    f = (lambda x: mod(x, o, d)) if s['module'] else (lambda x: ocnn.nn.octree2voxel(x, o, d, s['nempty']))
    C = s['C']

    def g(x):
      v = f(x)
      if tuple(v.shape) != (r.batch_size, n, n, n, C):
        raise Violation('shape', '%s: %s' % (what, tuple(v.shape)))
      return v.reshape(-1, C)
    return self.linear_op(s, c, g, self.data(s, len(cc)), m, ctx, what)

  def op_groupnorm(self, s, c, octs, D, F, ctx, what):
    r, o = c['r'], c['o']
    d = self.depth(s, 0, D)
    ne = s['nempty']
    b = torch.from_numpy((r.coords[d][r.nempty[d]] if ne else r.coords[d])[:, 0])
    C = 6
    x = gen.tensor(s['seed'], len(b), C, scale=1.0 + s['seed'] % 5)
    x = x + float(s['seed'] % 3)
    x = x.double() if s['prec'] == 'f64' else x
    G_ = s['group']
    mod = ocnn.nn.OctreeInstanceNorm(C, ne) if G_ == C and s['module'] else ocnn.nn.OctreeGroupNorm(C, G_, ne)
    w, bias = gen.tensor(s['seed'] ^ 1, 1, C), gen.tensor(s['seed'] ^ 2, 1, C)
    with torch.no_grad():
      mod.weights.copy_(w)
      mod.bias.copy_(bias)
    mod = mod.to(x.dtype)
    out, xx = self.call(s, c, lambda x: mod(x, o, d), x, ctx, what)
    ref = x.double().clone().requires_grad_(True)
    wd, bd = w.double().requires_grad_(True), bias.double().requires_grad_(True)
    parts, rows = [], []
    small = False
    for k in range(r.batch_size):
      at = torch.nonzero(b == k).flatten()
      if not len(at):
        continue
      v = ref[at].view(len(at), G_, C // G_)
      small = small or v.shape[0] * v.shape[2] < 8
      mu = v.mean((0, 2), keepdim=True)
      va = ((v - mu) ** 2).mean((0, 2), keepdim=True)
      parts.append(((v - mu) / (va + 1e-5).sqrt()).reshape(len(at), C))
      rows.append(at)
    y = torch.zeros(len(b), C, dtype=torch.float64)
    y = y.index_copy(0, torch.cat(rows), torch.cat(parts)) * wd + bd
    tol = 2e-2 + 8e-3 * float(x.abs().max() * w.abs().max()) if small else 2e-3   # epsilon in the mean of single values
    self.cmp('result', out, y.detach().numpy(), s, what, tol)
    if s['grads'] and not small:
      g0 = gen.tensor(s['seed'] ^ 3, *out.shape)
      ga = torch.autograd.grad(y, [ref, wd, bd], g0.double())
      with sut('backward of ' + what):
        gb = torch.autograd.grad(out, [xx, mod.weights, mod.bias], g0.to(out.dtype))
      for nm, p, q in zip(('gradient', 'weight gradient', 'bias gradient'), gb, ga):
        self.cmp(nm, p, q.numpy(), s, what, 5e-3)
    return 'normalised'

  def leaf(self, c, D):
    """Averages of the non-empty finest nodes in node order, or None."""
    if c['av'] is None:
      return None
    r = c['r']
    cc = r.coords[D][r.nempty[D]]
    v = [c['av'].get(tuple(k)) for k in cc.tolist()]
    return None if any(x is None for x in v) else (cc, v)

  def op_feature(self, s, c, octs, D, F, ctx, what):
    o, r = c['o'], c['r']
    lf = self.leaf(c, D)
    if lf is None:
      return None
    cc, v = lf
    P_ = np.stack([x[0] for x in v])
    Nn = np.stack([x[1] for x in v])
    len_ = np.linalg.norm(Nn, axis=1, keepdims=True)
    N = Nn / np.maximum(len_, 1e-12)
    loc = P_ - np.floor(P_) - 0.5
    feature = s['feature'] if c['feats'] else s['feature'].replace('F', '') or 'N'
    cols = []
    for ch in 'NDLPF':
      if ch in feature:
        cols.append({'N': N, 'D': (loc * N).sum(1, keepdims=True), 'L': loc, 'P': P_ * 2.0 ** (1 - D) - 1, 'F': None}[ch] if ch != 'F' else
                    np.stack([x[2] for x in v]))
    want = np.concatenate(cols, 1)
    # rounding decides near voxel borders and for cancelling normals
    ok = (len_[:, 0] > 1e-2) & (np.abs(np.abs(loc) - 0.5) > 1e-4).all(1)
    fs = feature.lower() if s['check'] else feature
    mod = ocnn.modules.InputFeature(fs, s['nempty'])
    dummy = torch.zeros(1)
    s2 = dict(s, grads=False, prec='f32')
    out, _ = self.call(s2, c, (lambda _: mod(o)) if s['module'] else (lambda _: o.get_input_feature(fs, s['nempty'])), dummy, ctx, what)
    if not s['nempty']:
      full = np.zeros((r.nnum(D), want.shape[1]))
      full[r.nempty[D]] = want
      okf = np.ones(r.nnum(D), bool)
      okf[r.nempty[D]] = ok
      want, ok = full, okf
    if tuple(out.shape) != want.shape:
      raise Violation('shape', '%s %s: %s, expected %s' % (what, feature, tuple(out.shape), want.shape))
    self.cmp('feature ' + feature, out[torch.from_numpy(ok)], want[ok], s2, what, 1e-3 * self.coarse)
    return feature

  def op_topoints(self, s, c, octs, D, F, ctx, what):
    o, r = c['o'], c['r']
    lf = self.leaf(c, D)
    cc = r.coords[D][r.nempty[D]]
    xyz = np.stack([x[0] for x in lf[1]]) if lf else cc[:, 1:] + 0.5
    if c['how'] in ('built', 'merged', 'union') and lf is None and o.points[D] is not None:
      return None
    res = s['check']
    box = []
    s2 = dict(s, grads=False, prec='f32')
    out, _ = self.call(s2, c, lambda _: o.to_points(res), torch.zeros(1), ctx, what)
    self.cmp('points', out.points, xyz * 2.0 ** (1 - D) - 1 if res else xyz, s2, what, 1e-4)
    if not np.array_equal(out.batch_id.flatten().numpy(), cc[:, 0]) or out.batch_size != r.batch_size:
      raise Violation('value', '%s: batch indices differ' % what, key='value:topoints:batch')
    if lf and c['feats']:
      self.cmp('features', out.features, np.stack([x[2] for x in lf[1]]), s2, what, 1e-4)
    return 'points'

  def op_points(self, s, c, octs, D, F, ctx, what):
    """A history of maps on a point cloud."""
    rs = np.random.RandomState(s['seed'] % 2 ** 31)
    spec = {'seed': s['seed'], 'n': s['size'] + 1, 'kind': gen.CLOUDS[s['seed'] % len(gen.CLOUDS)]}
    p = gen.make_points(spec, True, 2, True)
    X, N = p.points.double().numpy(), p.normals.double().numpy()
    keep = np.arange(len(X))
    src = [p.points, p.normals, p.features, p.labels]
    src0 = [t.clone() for t in src]
    Ft, Lb = p.features.numpy(), p.labels.numpy()
    names = []
    for _ in range(1 + s['seed'] % 4):
      k = ['rotate', 'scale', 'translate', 'flip', 'orient', 'clip', 'normalize', 'mask', 'bbox'][rs.randint(9)]
      names.append(k)
      w = '%s, points: %s' % (what, names)
      with sut(w):
        if k == 'rotate':
          a = rs.uniform(-3.2, 3.2, 3)
          p.rotate(torch.from_numpy(a).float())
          a = np.float32(a).astype(np.float64)
          cx, sx, cy, sy, cz, sz = np.cos(a[0]), np.sin(a[0]), np.cos(a[1]), np.sin(a[1]), np.cos(a[2]), np.sin(a[2])
          Rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
          Ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
          Rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
          R = Rz @ Ry @ Rx                       # about x, then y, then z
          X, N = X @ R.T, N @ R.T
        elif k == 'scale':
          f = np.float32(rs.choice([rs.uniform(0.5, 2), 1.0, -1.0]) * (np.ones(3) if rs.rand() < 0.4 else rs.uniform(0.5, 1.5, 3)))
          if rs.rand() < 0.3:
            f = np.float32(rs.choice([1.0, -1.0], 3) * abs(f[0]))
          p.scale(torch.from_numpy(f))
          f = f.astype(np.float64)
          X = X * f
          if (f != f[0]).any():
            N = N / f
            N = N / np.maximum(np.linalg.norm(N, axis=1, keepdims=True), 1e-12)
        elif k == 'translate':
          t = np.float32(rs.uniform(-0.5, 0.5, 3))
          p.translate(torch.from_numpy(t))
          X = X + t
        elif k == 'flip':
          ax = ''.join(a for a in 'xyz' if rs.rand() < 0.5)
          p.flip(ax)
          for a in ax:
            X[:, 'xyz'.index(a)] *= -1
            N[:, 'xyz'.index(a)] *= -1
        elif k == 'orient':
          ax = ['x', 'y', 'z', 'xyz'][rs.randint(4)]
          if ax != 'xyz' and (np.abs(N[:, 'xyz'.index(ax)]) < 1e-4).any():
            continue
          p.orient_normal(ax)
          N = np.abs(N) if ax == 'xyz' else N * np.where(N[:, 'xyz'.index(ax)] > 0, 1.0, -1.0)[:, None]
        elif k == 'clip':
          lo, hi = -rs.uniform(0.2, 1), rs.uniform(0.2, 1)
          e = rs.choice([0.0, 0.01])
          if (np.abs(X - (lo + e)) < 1e-4).any() or (np.abs(X - (hi - e)) < 1e-4).any():
            continue
          want = ((X > lo + e) & (X < hi - e)).all(1)
          mk = p.clip(lo, hi, e)
          if not np.array_equal(mk.numpy(), want):
            raise Violation('value', '%s: the mask of kept points differs' % w, key='value:points:mask')
          X, N, keep = X[want], N[want], keep[want]
        elif k == 'normalize':
          if not len(X):
            continue
          lo, hi = p.bbox()
          if np.ptp(X, axis=0).max() < 1e-2:
            continue
          sc = rs.choice([1.0, 0.8])
          p.normalize(lo, hi, sc)
          X = (X - (X.min(0) + X.max(0)) / 2) * (2 * sc / (np.ptp(X, axis=0).max() + 1e-6))
        elif k == 'mask':
          mk = rs.rand(len(X)) < 0.7
          p = p[torch.from_numpy(mk)]
          X, N, keep = X[mk], N[mk], keep[mk]
        elif k == 'bbox':
          if not len(X):
            continue
          lo, hi = p.bbox()
          self.cmp('bbox', torch.stack([lo, hi]), np.stack([X.min(0), X.max(0)]), dict(s, prec='f32'), w, 1e-4)
      s2 = dict(s, prec='f32')
      self.cmp('points', p.points, X, s2, w, 1e-4)
      self.cmp('normals', p.normals, N, s2, w, 1e-3)
      if not np.array_equal(p.features.numpy(), Ft[keep]) or not np.array_equal(p.labels.numpy(), Lb[keep]):
        raise Violation('value', '%s: features or labels of other points' % w, key='value:points:attr')
      if any(not torch.equal(a, b) for a, b in zip(src, src0)):
        raise Violation('input-changed', '%s: the tensors the cloud was made from changed' % w)
    return ' '.join(names)

  def op_block(self, s, c, octs, D, F, ctx, what):
    """Blocks are the documented sequences of their layers."""
    o = c['o']
    d = self.depth(s, 2, D)
    if d is None:
      return None
    if s['grads']:
      s = dict(s, prec='f64')           # rounding near the kink of relu changes gradients
    ne = s['nempty']
    kinds = ['convbn', 'convbnrelu', 'deconvbnrelu', 'res', 'res2', 'resblocks', 'conv1x1', 'fc']
    kind = kinds[s['seed'] % len(kinds)]
    C, K = 8, 4
    mm = ocnn.modules
    if kind == 'convbn':
      m = mm.OctreeConvBn(C, K, [3], 1, ne)
    elif kind == 'convbnrelu':
      m = mm.OctreeConvBnRelu(C, K, [2], 2, ne) if s['stride'] == 2 else mm.OctreeConvBnRelu(C, K, [3], 1, ne)
    elif kind == 'deconvbnrelu':
      d = min(d, D - 1)
      m = mm.OctreeDeconvBnRelu(C, K, [2], 2, ne)
    elif kind == 'res':
      m = mm.OctreeResBlock(C, [C, 16][s['size'] % 2], s['stride'], 2, ne)
    elif kind == 'res2':
      m = mm.OctreeResBlock2(C, [C, 16][s['size'] % 2], s['stride'], 2, ne)
    elif kind == 'resblocks':
      m = mm.OctreeResBlocks(C, 16, 2, 4, ne, mm.OctreeResBlock if s['check'] else mm.OctreeResBlock2, use_checkpoint=s['module'])
    elif kind == 'conv1x1':
      m = mm.Conv1x1BnRelu(C, K)
    else:
      m = mm.FcBnRelu(C, K)
    if kind == 'deconvbnrelu' and d < 1:
      return None
    g = torch.Generator().manual_seed(s['seed'])
    with torch.no_grad():
      for p in m.parameters():
        p.copy_(torch.randn(p.shape, generator=g) * 0.5)
      for n_, b in m.named_buffers():
        if 'running_var' in n_:
          b.copy_(torch.rand(b.shape, generator=g) + 0.5)
        elif 'running_mean' in n_:
          b.copy_(torch.randn(b.shape, generator=g))
    m.eval()
    n = self.rows(c['r'], d, ne)
    x = gen.tensor(s['seed'] ^ 8, n, C)
    if s['prec'] == 'f64':
      x, m = x.double(), m.double()
    relu = torch.relu

    def conv(q, x, d):
      return q(x, o, d)

    def bn(q, x):
      return (x - q.running_mean) / (q.running_var + q.eps).sqrt() * q.weight + q.bias

    def lin(q, x):
      return x @ q.weight.t() + (0 if q.bias is None else q.bias)

    def one(q, x):                            # Conv1x1
      return lin(q.linear, x) if hasattr(q, 'linear') else lin(q, x)

    def res(q, x, d):
      if q.stride == 2:
        x = ocnn.nn.octree_max_pool(x, o, d, ne)
        d -= 1
      if isinstance(q, mm.OctreeResBlock):
        y = relu(bn(q.conv1x1a.bn, one(q.conv1x1a.conv, x)))
        y = relu(bn(q.conv3x3.bn, conv(q.conv3x3.conv, y, d)))
        y = bn(q.conv1x1b.bn, one(q.conv1x1b.conv, y))
        z = bn(q.conv1x1c.bn, one(q.conv1x1c.conv, x)) if q.in_channels != q.out_channels else x
      else:
        y = relu(bn(q.conv3x3a.bn, conv(q.conv3x3a.conv, x, d)))
        y = bn(q.conv3x3b.bn, conv(q.conv3x3b.conv, y, d))
        z = bn(q.conv1x1.bn, one(q.conv1x1.conv, x)) if q.in_channels != q.out_channels else x
      return relu(y + z)

    def ref(x):
      if kind == 'convbn':
        return bn(m.bn, conv(m.conv, x, d))
      if kind == 'convbnrelu':
        return relu(bn(m.bn, conv(m.conv, x, d)))
      if kind == 'deconvbnrelu':
        return relu(bn(m.bn, m.deconv(x, o, d)))
      if kind in ('res', 'res2'):
        return res(m, x, d)
      if kind == 'resblocks':
        for q in m.resblks:
          x = res(q, x, d)
        return x
      if kind == 'conv1x1':
        return relu(bn(m.bn, one(m.conv, x)))
      return relu(bn(m.bn, lin(m.fc, x)))
    f = (lambda x: m(x)) if kind in ('conv1x1', 'fc') else (lambda x: m(x, o, d))
    out, xx = self.call(s, c, f, x, ctx, what + ' (%s)' % kind)
    with sut('layers of ' + what):
      x2 = x.clone().requires_grad_(True)
      want = ref(x2)
    if not torch.isfinite(want).all():
      return None                       # the maximum of no children
    self.cmp(kind, out, want.detach().double().numpy(), s, what, 1e-9 if s['prec'] == 'f64' else 1e-3)
    if s['grads']:
      G = gen.tensor(s['seed'] ^ 3, *out.shape).to(x.dtype)
      ps = [p for p in m.parameters()]
      ga = torch.autograd.grad(want, [x2] + ps, G, allow_unused=True)
      with sut('backward of ' + what):
        # also through recomputed activations, which need .backward()
        for p in ps:
          p.grad = None
        out.backward(G)
      for nm, p, q in zip(['input gradient'] + [n_ for n_, _ in m.named_parameters()], [xx] + ps, ga):
        if q is not None:
          self.cmp(nm, p.grad, q.double().numpy(), s, what + ' (%s)' % kind, 1e-8)
    return kind

  def op_search(self, s, c, octs, D, F, ctx, what):
    """Coordinates and keys there and back."""
    from ocnn.octree import key2xyz, xyz2key
    from sim.refmodel import slow_keys
    rs = np.random.RandomState(s['seed'] % 2 ** 31)
    d = rs.randint(1, 17)
    v = rs.randint(0, 1 << d, (20, 3))
    b = rs.randint(0, [1, 4, 300, 32767][rs.randint(4)], 20)
    want = slow_keys(np.concatenate([b[:, None], v], 1), d)
    t = torch.from_numpy(v)
    s2 = dict(s, grads=False)
    bb = torch.from_numpy(b) if s['check'] else int(b[0])
    if not s['check']:
      want = slow_keys(np.concatenate([np.full((20, 1), b[0]), v], 1), d)
    k, _ = self.call(s2, c, lambda _: xyz2key(t[:, 0], t[:, 1], t[:, 2], bb, d), torch.zeros(1), ctx, what)
    if not np.array_equal(k.numpy(), want):
      raise Violation('value', '%s: keys of depth %d differ' % (what, d), key='value:search:key')
    with sut(what):
      x, y, z, bq = key2xyz(k, d)
    if not np.array_equal(torch.stack([x, y, z], 1).numpy(), v) or not np.array_equal(bq.numpy(), want >> 48):
      raise Violation('value', '%s: coordinates of keys of depth %d differ' % (what, d), key='value:search:xyz')
    return 'depth %d' % d

  def op_tensor(self, s, c, octs, D, F, ctx, what):
    """cumsum, scatter_add and the like, on any dimension."""
    from ocnn import utils
    rs = np.random.RandomState(s['seed'] % 2 ** 31)
    x = self.data(s, s['size'] + 1, 3)
    xn = x.double().numpy()
    k = rs.randint(4)
    if k == 0:
      dim, ex = rs.randint(2), s['check']
      out, xx = self.call(s, c, lambda x: utils.cumsum(x, dim, ex), x, ctx, what)
      w = np.cumsum(xn, dim)
      if ex:
        w = np.concatenate([np.zeros_like(np.take(w, [0], dim)), w], dim)
      self.cmp('cumsum', out, w, s, what)
    elif k == 1:
      dim = rs.randint(2) - (2 if s['module'] else 0)
      n = x.shape[dim]
      size = n + rs.randint(0, 3)
      index = rs.randint(0, size, n)
      ti = torch.from_numpy(index)
      sz = size if s['check'] else None
      out, xx = self.call(s, c, lambda x: utils.scatter_add(x, ti, dim=dim, dim_size=sz), x, ctx, what)
      w = np.zeros((size if s['check'] else index.max() + 1, x.shape[1]) if dim % 2 == 0 else (x.shape[0], size if s['check'] else index.max() + 1))
      np.add.at(w, (index,) if dim % 2 == 0 else (slice(None), index), xn)
      self.cmp('scatter_add', out, w, s, what)
      if s['grads']:
        G = gen.tensor(s['seed'] ^ 3, *out.shape).to(x.dtype)
        with sut('backward of ' + what):
          g, = torch.autograd.grad(out, [xx], G)
        self.cmp('gradient', g, np.take(G.double().numpy(), index, dim), s, what)
    elif k == 2:
      l = rs.randint(1, 4, rs.randint(1, 4)).tolist()
      l0 = list(l)
      with sut(what):
        out = utils.resize_with_last_val(l, 3)
        st = utils.list2str(out)
      if out != (l + l[-1:] * 3)[:3] or l != l0 or st != ''.join(str(v) for v in out):
        raise Violation('value', '%s: %s of %s' % (what, (out, st), l0), key='value:tensor:list')
    else:
      lo, hi = rs.randint(-2, 1), rs.randint(1, 4)
      with sut(what):
        g = utils.range_grid(int(lo), int(hi))
        tr = utils.trunc_div(torch.arange(-7, 8), int(hi))
      w = np.array([[a, b, e] for a in range(lo, hi + 1) for b in range(lo, hi + 1) for e in range(lo, hi + 1)])
      if not np.array_equal(g.numpy(), w) or tr.tolist() != [int(v / hi) for v in range(-7, 8)]:
        raise Violation('value', '%s: grid or division differs' % what, key='value:tensor:grid')
    return 'tensor %d' % k

  def op_defaults(self, s, c, octs, D, F, ctx, what):
    """Options left out mean the documented defaults."""
    o, r = c['o'], c['r']
    d = self.depth(s, 2, D)
    if d is None:
      return None
    nn, mm = ocnn.nn, ocnn.modules
    C, K = 8, 4
    pts = torch.rand(9, 4, generator=torch.Generator().manual_seed(s['seed'])) * 1.2 - 0.6
    pts[:, 3] = 0
    pairs = {
        'conv': (lambda: nn.OctreeConv(C, K), lambda: nn.OctreeConv(C, K, [3, 3, 3], 1, False, False, False)),
        'deconv': (lambda: nn.OctreeDeconv(C, K), lambda: nn.OctreeDeconv(C, K, [3, 3, 3], 1, False, False, False)),
        'dwconv': (lambda: nn.OctreeDWConv(C), lambda: nn.OctreeDWConv(C, [3, 3, 3], 1, False, False)),
        'gconv': (lambda: nn.OctreeGroupConv(C, K), lambda: nn.OctreeGroupConv(C, K, [3, 3, 3], 1, False, False, 1)),
        'groupnorm': (lambda: nn.OctreeGroupNorm(C, 2), lambda: nn.OctreeGroupNorm(C, 2, False)),
        'instancenorm': (lambda: nn.OctreeInstanceNorm(C), lambda: nn.OctreeGroupNorm(C, C, False)),
        'maxpool': (lambda: nn.OctreeMaxPool(), lambda: nn.OctreeMaxPool(False, False)),
        'avgpool': (lambda: nn.OctreeAvgPool([2], 2), lambda: nn.OctreeAvgPool([2, 2, 2], 2, False)),
        'globalpool': (lambda: nn.OctreeGlobalPool(), lambda: nn.OctreeGlobalPool(False)),
        'voxel': (lambda: nn.Octree2Voxel(), lambda: nn.Octree2Voxel(False)),
        'interp': (lambda: nn.OctreeInterp(), lambda: nn.OctreeInterp('linear', False, False, True)),
        'upsample': (lambda: nn.OctreeUpsample(), lambda: nn.OctreeUpsample('linear', False)),
        'drop': (lambda: nn.OctreeDropPath().train(), lambda: nn.OctreeDropPath(0.0, False, True).eval()),
        'conv1x1': (lambda: mm.Conv1x1(C, K), lambda: mm.Conv1x1(C, K, False)),
        'convbn': (lambda: mm.OctreeConvBn(C, K), lambda: mm.OctreeConvBn(C, K, [3, 3, 3], 1, False)),
        'convbnrelu': (lambda: mm.OctreeConvBnRelu(C, K), lambda: mm.OctreeConvBnRelu(C, K, [3, 3, 3], 1, False)),
        'deconvbnrelu': (lambda: mm.OctreeDeconvBnRelu(C, K), lambda: mm.OctreeDeconvBnRelu(C, K, [3, 3, 3], 1, False)),
        'res': (lambda: mm.OctreeResBlock(C, 16), lambda: mm.OctreeResBlock(C, 16, 1, 4, False)),
        'res2': (lambda: mm.OctreeResBlock2(C, 16), lambda: mm.OctreeResBlock2(C, 16, 1, 1, False)),
        'resblocks': (lambda: mm.OctreeResBlocks(C, 16, 2), lambda: mm.OctreeResBlocks(C, 16, 2, 4, False, mm.OctreeResBlock, False)),
        'feature': (lambda: mm.InputFeature('P'), lambda: mm.InputFeature('P', False)),
    }
    x1 = gen.tensor(s['seed'] ^ 9, r.nnum(d), 3)
    q4 = pts.clone()
    q4[:, :3] = (q4[:, :3] + 1) * 2.0 ** (d - 1)
    other = octs[s['other'] % len(octs)]['o']
    key = o.key(d, False)
    xs = o.xyzb(d, False)
    U = ocnn.utils

    def merged(*a):
      m = ocnn.octree.merge_points([gen.make_points({'seed': s['seed'] + i, 'n': 5 + i, 'kind': 'uniform'}, True, 0) for i in range(2)], *a)
      return [m.points, m.normals, m.batch_id, m.batch_npt]

    def clipped(*a):
      p = gen.make_points({'seed': s['seed'], 'n': 30, 'kind': 'uniform'}, True, 0)
      p.points = torch.cat([p.points, torch.tensor([[0.985, 0, 0], [0, -0.985, 0], [0, 0, 0.995]]), p.points * 1.2])[:30]
      k = p.clip(*a)
      return [p.points, k]

    def inbox(*a):
      p = gen.make_points({'seed': s['seed'], 'n': 30, 'kind': 'uniform'}, True, 0)
      p.points = p.points * 1.5
      return p.inbox_mask(*a)

    def oriented(*a):
      p = gen.make_points({'seed': s['seed'], 'n': 30, 'kind': 'uniform'}, True, 0)
      p.orient_normal(*a)
      return p.normals

    def fields(q):
      return [torch.tensor([q.depth, q.full_depth, q.batch_size])] + [t for k in q.keys + q.children + q.neighs if k is not None for t in [k]]

    def grown(*a):
      q = ocnn.octree.Octree(3, 2, 2)
      for e in range(3):
        q.octree_grow_full(e, *a)
      q.octree_split(torch.arange(int(q.nnum[2])) % 2, 2)
      q.octree_grow(3, *a)
      return fields(q)
    funcs = {
        'f:tocol': (lambda: nn.octree2col(x1, o, d), lambda: nn.octree2col(x1, o, d, '333', 1, False)),
        'f:fromcol': (lambda: nn.col2octree(nn.octree2col(x1, o, d, '333', 1, False), o, d),
                      lambda: nn.col2octree(nn.octree2col(x1, o, d, '333', 1, False), o, d, '333', 1, False)),
        'f:voxel': (lambda: nn.octree2voxel(x1, o, min(d, 4)) if d <= 4 else x1, lambda: nn.octree2voxel(x1, o, d, False) if d <= 4 else x1),
        'f:pad': (lambda: nn.octree_pad(nn.octree_depad(x1, o, d), o, d), lambda: nn.octree_pad(nn.octree_depad(x1, o, d), o, d, 0.0)),
        'f:nearest': (lambda: nn.octree_nearest_pts(x1, o, d, q4), lambda: nn.octree_nearest_pts(x1, o, d, q4, False, False)),
        'f:linear': (lambda: nn.octree_linear_pts(x1, o, d, q4), lambda: nn.octree_linear_pts(x1, o, d, q4, False, False)),
        'f:maxpool': (lambda: nn.octree_max_pool(x1, o, d), lambda: nn.octree_max_pool(x1, o, d, False, False)),
        'f:avgpool': (lambda: nn.octree_avg_pool(x1, o, d, '222'), lambda: nn.octree_avg_pool(x1, o, d, '222', 2, False)),
        'f:globalpool': (lambda: nn.octree_global_pool(x1, o, d), lambda: nn.octree_global_pool(x1, o, d, False)),
        'f:align': (lambda: nn.octree_align(x1, o, other, d), lambda: nn.octree_align(x1, o, other, d, False)),
        'f:key': (lambda: o.key(d), lambda: o.key(d, False)),
        'f:xyzb': (lambda: list(o.xyzb(d)), lambda: list(o.xyzb(d, False))),
        'f:batch_id': (lambda: o.batch_id(d), lambda: o.batch_id(d, False)),
        'f:neigh': (lambda: o.get_neigh(d), lambda: o.get_neigh(d, '333', 1, False)),
        'f:search_xyzb': (lambda: o.search_xyzb(q4, d), lambda: o.search_xyzb(q4, d, False)),
        'f:search_key': (lambda: o.search_key(key, d), lambda: o.search_key(key, d, False)),
        'f:xyz2key': (lambda: ocnn.octree.xyz2key(*xs), lambda: ocnn.octree.xyz2key(*xs, 16)),
        'f:key2xyz': (lambda: list(ocnn.octree.key2xyz(key)), lambda: list(ocnn.octree.key2xyz(key, 16))),
        'f:init': (lambda: fields(ocnn.octree.init_octree(3)), lambda: fields(ocnn.octree.init_octree(3, 2, 1))),
        'f:octree': (lambda: fields(ocnn.octree.Octree(3)), lambda: fields(ocnn.octree.Octree(3, 2, 1))),
        'f:grow': (lambda: grown(), lambda: grown(True)),
        'f:cumsum': (lambda: U.cumsum(x1, 0), lambda: U.cumsum(x1, 0, False)),
        'f:scatter': (lambda: U.scatter_add(x1, torch.tensor([2, 0, 2])), lambda: U.scatter_add(x1, torch.tensor([2, 0, 2]), -1, None, None)),
        'f:merge': (lambda: merged(), lambda: merged(True)),
        'f:clip': (lambda: clipped(), lambda: clipped(-1.0, 1.0, 0.01)),
        'f:inbox': (lambda: inbox(), lambda: inbox(-1.0, 1.0)),
        'f:orient': (lambda: oriented(), lambda: oriented('x')),
        'f:example': (lambda: fields(U.build_example_octree()), lambda: fields(U.build_example_octree(5, 2, 3))),
    }
    if s['check']:
      kind = sorted(funcs)[s['seed'] % len(funcs)]
      w = '%s (%s)' % (what, kind)
      with sut(w):
        p = funcs[kind][1]()
      q, _ = self.call(dict(s, grads=False, prec='f32'), c, lambda _: funcs[kind][0](), torch.zeros(1), ctx, w)
      p, q = (p if isinstance(p, list) else [p]), (q if isinstance(q, list) else [q])
      if len(p) != len(q) or any(not torch.is_tensor(v) or u.shape != v.shape or not torch.equal(u, v) for u, v in zip(p, q)):
        raise Violation('defaults', '%s: the result differs from that with the documented defaults' % w, key='value:defaults:' + kind)
      return kind
    if s['module'] and D <= 4 and c['av'] is not None and s['seed'] % 3 == 0:
      return self.model_defaults(s, c, D, F, ctx, what)
    kind = sorted(pairs)[s['seed'] % len(pairs)]
    if kind == 'feature' and c['av'] is None or kind == 'upsample' and d >= D:
      return None
    w = '%s (%s)' % (what, kind)
    with sut(w):
      a, b = [m() for m in pairs[kind]]
      if a.state_dict().keys() != b.state_dict().keys() or any(a.state_dict()[k].shape != v.shape for k, v in b.state_dict().items()):
        raise Violation('defaults', '%s: parameters differ from those with the documented defaults' % w)
      a.load_state_dict(b.state_dict())
      if kind != 'drop':
        a.eval()
        b.eval()
      x = gen.tensor(s['seed'] ^ 8, r.nnum(d), C)
      call = lambda m: m(x) if kind == 'conv1x1' else m(o) if kind == 'feature' else m(x, o, d, pts) if kind == 'interp' else m(x, o, d)
      p = call(b)
    q, _ = self.call(dict(s, grads=False, prec='f32'), c, lambda _: call(a), torch.zeros(1), ctx, w)
    if type(p) != type(q) or not torch.is_tensor(q) or p.shape != q.shape or not torch.equal(p, q):
      raise Violation('defaults', '%s: the result differs from that with the documented defaults' % w, key='value:defaults:' + kind)
    return kind

  def model_defaults(self, s, c, D, F, ctx, what):
    """A generating network given an octree to follow leaves it alone, unless told to update it."""
    o, kind = c['o'], 'OUNet'
    w = '%s (%s)' % (what, kind)
    ctx.probe('model-defaults')
    with sut(w):
      m = getattr(ocnn.models, kind)(4, 4, D, F, 'ND').eval()
      gt = copy.deepcopy(o)
      args = (o, gt)
      with torch.no_grad():
        p = m(*args, update_octree=False)
    before = snap.any_([gt])

    def go(_):
      with torch.no_grad():
        return m(*args)
    q, _ = self.call(dict(s, grads=False, prec='f32', fault=None), c, go, torch.zeros(1), ctx, w)
    if snap.diff(before, snap.any_([gt])):
      raise Violation('defaults', '%s: the octree to follow changed without a request to update it' % w, key='value:defaults:' + kind)
    for k in ('logits', 'signal'):
      if snap.diff(snap.any_(p[k]), snap.any_(q[k])):
        raise Violation('defaults', '%s: %s differ from those with the documented defaults' % (w, k), key='value:defaults:' + kind)
    return kind

  def op_init(self, s, c, octs, D, F, ctx, what):
    """Fresh weights are uniform within the documented bound, biases zero, norms the identity."""
    nn = ocnn.nn
    kern = {'333': [3], '222': [2], '311': [3, 1, 1], '131': [1, 3, 1], '113': [1, 1, 3], '331': [3, 3, 1], '313': [3, 1, 3], '133': [1, 3, 3]}[s['kernel']]
    C, K = [(16, 48), (48, 16), (32, 32)][s['size'] % 3]
    torch.manual_seed(s['seed'] % 2 ** 31)
    kind = ['conv', 'deconv', 'dwconv', 'norm', 'gconv'][s['seed'] % 5]
    seam = OpSeam(poison=s['poison'])
    with sut(what):
      with seam:
        if kind == 'conv':
          m = nn.OctreeConv(C, K, kern, use_bias=True)
        elif kind == 'deconv':
          m = nn.OctreeDeconv(C, K, kern, use_bias=True)
        elif kind == 'dwconv':
          m = nn.OctreeDWConv(96, kern, use_bias=True)
        elif kind == 'gconv':
          m = nn.OctreeGroupConv(C, K, kern, use_bias=True, group=2)
        else:
          m = nn.OctreeGroupNorm(C, 4)
    for l in (m.convs if kind == 'gconv' else [m]):
      w = l.weights.detach().double()
      if bool((l.bias != 0).any()):
        raise Violation('init', '%s: the bias of a fresh %s is not zero' % (what, kind))
      if kind == 'norm':
        if bool((w != 1).any()) or m.eps != 1e-5:
          raise Violation('init', '%s: the weights of a fresh norm are not one' % what)
        continue
      k, i, j = w.shape
      if k != l.kdim:
        raise Violation('shape', '%s: weights %s' % (what, tuple(w.shape)))
      bound = (6.0 / (k * (i + j))) ** 0.5
      n = w.numel()
      top = float(w.abs().max())
      # a uniform sample: nothing above the bound, the largest close to it, halves and moments as expected
      if top > bound * (1 + 1e-6) or top < bound * (1 - 30.0 / n) or abs(float(w.mean())) > 8 * bound / (3 * n) ** 0.5 or \
         abs(float((w ** 2).mean()) / (bound ** 2 / 3) - 1) > 8 / n ** 0.5:
        raise Violation('init', '%s: weights of a fresh %s are not uniform within %.4g: largest %.4g, mean %.3g' % (what, kind, bound, top, float(w.mean())))
    return kind


PROP = P()
