"""C10: stochastic depth keeps or drops whole samples only."""
import copy

import numpy as np
import torch
import ocnn

from sim import faults, gen, snap
from sim.core import Prop, Violation, sut
from sim.torchseam import INJECTED, KINDS, OpSeam, RandStream

DT = {'f32': torch.float32, 'f64': torch.float64, 'f16': torch.float16, 'bf16': torch.bfloat16}
EPS = {'f32': 2.0 ** -24, 'f64': 2.0 ** -53, 'f16': 2.0 ** -11, 'bf16': 2.0 ** -8}
PROBS = [0.0, 1e-9, 1e-6, 1e-3, 0.1, 0.2, 0.3, 0.5, 0.7, 0.8, 0.9, 0.999, 1.0]
STEPS = ['fwd', 'fwd', 'fwd', 'fwd', 'bwd', 'bwd', 'fail', 'extreme', 'extreme', 'eval', 'copy', 'clone']


class P(Prop):
  id = 'C10'
  runs = {'quick': 2000, 'thorough': 100000}
  soft_s = {'quick': 45, 'thorough': 2700}
  shrink_lists = ('steps', 'samples')
  shrink_min = {'steps': 1, 'samples': 1}
  rule = ('a run is one or two drop-path layers over a batch of 1-6 samples and a history of forward, backward, failed, evaluation and copied calls, '
          'every draw decided by the plan: stratified over the unit interval so that the kept fraction is exact, or at the extreme values a draw can '
          'take; non-trivial when a draw was consumed and the batch has more than one sample')
  distinct_measure = 'distinct (probability, precision, scaling, assignment, depth, batch size, step) tuples'
  real = ['ocnn.nn.OctreeDropPath', 'Octree.batch_id']
  stubs = ['torch random draws (decided by the plan)', 'allocator failures (tensor-operation seam)']
  assumptions = ['the kept fraction is compared with 1-p to within two representable draws of the precision plus one sample per stratified sweep',
                 'element i of a draw with one element per sample is taken to belong to sample i']
  required_probes = ('kept', 'dropped', 'extreme', 'explicit', 'implicit', 'nempty', 'full', 'scale', 'noscale', 'eval', 'p0', 'p1', 'bwd',
                     'retry', 'f16', 'bf16', 'f64', 'tiny-p', 'fraction', 'empty-sample')

  def gen(self, rng, idx, tier):
    depth = rng.choice([3, 3, 4])
    p = rng.choice(PROBS) if rng.chance(0.7) else round(rng.random(), 3)
    return {'depth': depth, 'fulld': rng.choice([1, 2]), 'p': p, 'dtype': rng.choice(['f32', 'f32', 'f64', 'f16', 'bf16']),
            'scale': rng.chance(0.65), 'nempty': rng.chance(0.5), 'at': rng.random(), 'explicit': rng.choice(['', '', 'rand', 'sparse', 'same']),
            'channel': rng.choice([1, 2, 5]), 'samples': [gen.cloud_spec(rng, 1, 30) for _ in range(rng.choice([1, 2, 3, 3, 4, 6]))],
            'steps': [{'op': rng.choice(STEPS), 'seed': rng.seed31(), 'frac': round(rng.random(), 4), 'where': rng.choice(['op', 'op', 'line']),
                       'kind': rng.choice(['oom', 'memerr', 'intr']), 'mode': rng.choice(['zero', 'max', 'thr-', 'thr', 'thr+', 'mix'])}
                      for _ in range(rng.randint(2, 10))], 'rounds': rng.choice([4, 8, 16])}

  def simplify(self, plan):
    for k, v in (('explicit', ''), ('dtype', 'f32'), ('scale', True), ('nempty', False), ('channel', 1), ('p', 0.5)):
      if plan[k] != v:
        q = copy.deepcopy(plan)
        q[k] = v
        yield q

  def execute(self, plan, ctx):
    specs = plan['samples']
    B, D, F = len(specs), plan['depth'], plan['fulld']
    octree = gen.make_batch(specs, D, F, True, 0, neigh=False)
    d = F + int(plan['at'] * (D - F + 1)) if plan['at'] < 1 else D
    nempty = plan['nempty']
    dt = DT[plan['dtype']]
    p = plan['p']
    # which sample every row belongs to: from the octree's own key list
    key = octree.keys[d] if not nempty else octree.keys[d][octree.children[d] >= 0]
    own = (key >> 48).numpy() if d <= 16 else None
    bid = None
    if plan['explicit']:
      ctx.probe('explicit')
      r = np.random.RandomState(specs[0]['seed'] % (2 ** 31))
      n = len(own) if plan['explicit'] == 'same' else r.randint(1, 40)
      own = own if plan['explicit'] == 'same' else r.randint(0, B, n) if plan['explicit'] == 'rand' else np.full(n, r.randint(B))
      bid = torch.from_numpy(np.asarray(own, np.int64).copy())
    else:
      ctx.probe('implicit')
    if len(set(own.tolist())) < B:
      ctx.probe('empty-sample')
    for k, v in (('nempty' if nempty else 'full', 1), ('scale' if plan['scale'] else 'noscale', 1), (plan['dtype'], 1)):
      ctx.probe(k)
    ctx.probe('p0' if p == 0 else 'p1' if p == 1 else 'tiny-p' if p < 1e-5 else 'p')
    with sut('constructing the layer'):
      layer = ocnn.nn.OctreeDropPath(p, nempty, plan['scale'])
    layer.train()
    w = dict(layer=layer, octree=octree, d=d, bid=bid, own=own, B=B, dt=dt, p=p, plan=plan, ctx=ctx)
    snap0 = snap.any_([octree, bid])
    for si, s in enumerate(plan['steps']):
      getattr(self, 'do_' + s['op'])(w, s, si)
      ctx.state((p, plan['dtype'], plan['scale'], plan['explicit'], d, B, s['op']))
      if snap.any_([octree, bid]) != snap0:
        raise Violation('input-changed', 'step %d %s changed the octree or the node assignment' % (si, s['op']))
    self.fraction(w)

  # ---- one call -----------------------------------------------------------
  def data(self, w, seed, grad=False):
    x = gen.tensor(seed, len(w['own']), w['plan']['channel'])
    x = x + torch.where(x >= 0, 0.25, -0.25)
    x = x.to(w['dt'])
    return x.requires_grad_() if grad else x

  def call(self, w, x, pick, layer=None):
    rs = RandStream(pick)
    layer = layer or w['layer']
    with sut('drop path forward'):
      with OpSeam(rng=rs):
        y = layer(x, w['octree'], w['d']) if w['bid'] is None else layer(x, w['octree'], w['d'], w['bid'])
    return y, rs

  def factors(self, w, x, y, what, training=True):
    """Per sample factor (nan for samples without nodes); violation when a
    sample's nodes do not share one allowed factor."""
    if y.shape != x.shape or y.dtype != x.dtype:
      raise Violation('shape', '%s: %s %s -> %s %s' % (what, tuple(x.shape), x.dtype, tuple(y.shape), y.dtype))
    a, b = x.detach().double().numpy(), y.detach().double().numpy()
    p = w['p']
    keep = 1 - p
    full = 1.0 if (not w['plan']['scale'] or keep <= 0) else 1 / keep
    tol = 6 * EPS[w['plan']['dtype']]
    out = np.full(w['B'], np.nan)
    for i in range(w['B']):
      m = w['own'] == i
      if not m.any():
        continue
      if (b[m] == 0).all():
        out[i] = 0
        continue
      big = np.isinf(b[m]) & (np.abs(a[m] * full) > torch.finfo(w['dt']).max * 0.99)
      if (big | (np.abs(b[m] - a[m] * full) <= tol * np.abs(a[m] * full) + 1e-300)).all():
        out[i] = 1
        continue
      raise Violation('factor', '%s: sample %d of %d: output/input between %s and %s, allowed 0 or %s' % (
          what, i, w['B'], (b[m] / a[m]).min(), (b[m] / a[m]).max(), full))
    return out

  def unif(self, s):
    r = np.random.RandomState(s['seed'] % (2 ** 31))
    return lambda i, n: r.rand(n).tolist()

  def note(self, w, f, rs, what):
    k, dr = int(np.nansum(f == 1)), int(np.nansum(f == 0))
    c = w['ctx']
    if k:
      c.probe('kept')
    if dr:
      c.probe('dropped')
    c.fault('random-draw-decided', rs.i)
    c.count('steps', 1)
    if rs.i and w['B'] > 1:
      c.nontrivial = True
    if w['p'] == 0 and rs.i:
      raise Violation('randomness', '%s: probability 0 consumed %d draws' % (what, rs.i))
    if (w['p'] == 0 and dr) or (w['p'] == 1 and k):
      raise Violation('factor', '%s: probability %s, kept %d dropped %d' % (what, w['p'], k, dr))
    c.log(what, f.tolist(), rs.i)

  def do_fwd(self, w, s, si):
    x = self.data(w, s['seed'])
    x0 = x.clone()
    y, rs = self.call(w, x, self.unif(s))
    if not torch.equal(x, x0):
      raise Violation('input-changed', 'step %d: the layer changed its input' % si)
    self.note(w, self.factors(w, x, y, 'step %d' % si), rs, 'step %d' % si)

  def do_extreme(self, w, s, si):
    """Draws at the ends and around the threshold."""
    w['ctx'].probe('extreme')
    p, e = w['p'], EPS[w['plan']['dtype']]
    top = 1 - 2.0 ** -53
    m = {'zero': 0.0, 'max': top, 'thr-': p - e, 'thr': p, 'thr+': p + e}
    r = np.random.RandomState(s['seed'] % (2 ** 31))

    def pick(i, n):
      v = [m[s['mode']]] * n if s['mode'] != 'mix' else r.choice(list(m.values()), n).tolist()
      return [min(max(q, 0.0), top) for q in v]
    x = self.data(w, s['seed'])
    y, rs = self.call(w, x, pick)
    f = self.factors(w, x, y, 'step %d draws %s' % (si, s['mode']))
    self.note(w, f, rs, 'step %d' % si)

  def do_bwd(self, w, s, si):
    w['ctx'].probe('bwd')
    x = self.data(w, s['seed'], True)
    y, rs = self.call(w, x, self.unif(s))
    f = self.factors(w, x, y, 'step %d' % si)
    g = gen.tensor(s['seed'] ^ 7, *x.shape).to(w['dt'])
    g = g + torch.where(g >= 0, 0.25, -0.25).to(w['dt'])
    if y.requires_grad:
      with sut('drop path backward'):
        y.backward(g)
    if x.grad is None:
      raise Violation('gradient', 'step %d: no gradient reaches the input' % si)
    fg = self.factors(w, g, x.grad, 'step %d gradient' % si)
    if not np.array_equal(f, fg, equal_nan=True):
      raise Violation('gradient', 'step %d: factors %s forward, %s in the gradient' % (si, f.tolist(), fg.tolist()))
    self.note(w, f, rs, 'step %d' % si)

  def do_fail(self, w, s, si):
    """The call is stopped midway, then made again with the same draws."""
    x = self.data(w, s['seed'])
    a = (w['octree'], w['d']) if w['bid'] is None else (w['octree'], w['d'], w['bid'])
    u = self.unif(s)
    vals = {}

    def pick(i, n):
      if (i, n) not in vals:
        vals[(i, n)] = u(i, n)
      return vals[(i, n)]
    y0, rs = self.call(w, x, pick)
    st, _ = faults.attempt(w['layer'], (x,) + a, s, w['ctx'])
    y1, rs1 = self.call(w, x, pick)
    if not torch.equal(y0, y1) or rs.i != rs1.i:
      raise Violation('retry', 'step %d: the repeated call gives another result' % si)
    w['ctx'].probe('retry')
    self.note(w, self.factors(w, x, y1, 'step %d' % si), rs1, 'step %d' % si)

  def do_eval(self, w, s, si):
    w['ctx'].probe('eval')
    w['layer'].eval()
    x = self.data(w, s['seed'])
    x0 = x.clone()
    st = torch.get_rng_state()
    y, rs = self.call(w, x, self.unif(s))
    if rs.i or not torch.equal(st, torch.get_rng_state()):
      raise Violation('randomness', 'step %d: evaluation mode consumed %d draws' % (si, rs.i))
    if not torch.equal(y, x0):
      raise Violation('eval', 'step %d: evaluation mode changed the data' % si)
    w['layer'].train()

  def do_copy(self, w, s, si):
    with sut('copying the layer'):
      w['layer'] = copy.deepcopy(w['layer'])
    self.do_fwd(w, s, si)

  def do_clone(self, w, s, si):
    """Another layer with another probability works on the same octree."""
    q = (s['seed'] % 97) / 97.0
    other = ocnn.nn.OctreeDropPath(q, w['plan']['nempty'], w['plan']['scale'])
    other.train()
    x = self.data(w, s['seed'])
    w2 = dict(w, p=q)
    y, rs = self.call(w2, x, self.unif(s), other)
    self.note(w2, self.factors(w2, x, y, 'step %d other layer' % si), rs, 'step %d other' % si)

  # ---- exact kept fraction ------------------------------------------------
  def fraction(self, w):
    p, B, R = w['p'], w['B'], w['plan']['rounds']
    if p <= 0:
      return
    N = B * R
    r = np.random.RandomState(w['plan']['steps'][0]['seed'] % (2 ** 31) if w['plan']['steps'] else 0)
    grid = r.permutation((np.arange(N) + 0.5) / N).reshape(R, B)
    obs = []
    mapped = True
    alleq = True
    for k in range(R):
      used = []

      def pick(i, n):
        v = grid[k].tolist() if n == B else r.rand(n).tolist()
        used.append((n, v))
        return v
      x = self.data(w, k)
      y, rs = self.call(w, x, pick)
      f = self.factors(w, x, y, 'round %d' % k)
      self.note(w, f, rs, 'round %d' % k)
      sel = ~np.isnan(f)
      if len(used) != 1 or used[0][0] != B:
        mapped = False
      if sel.sum() > 1 and len(set(f[sel].tolist())) > 1:
        alleq = False
      obs += [(grid[k][i], f[i]) for i in range(B) if sel[i]]
    kept = sorted(u for u, f in obs if f == 1)
    drop = sorted(u for u, f in obs if f == 0)
    if not obs:
      return
    tol = 1.0 / N + 2 * EPS[w['plan']['dtype']]
    if mapped:
      w['ctx'].probe('fraction')
      # draws below / above one threshold; the kept side measures 1-p
      if kept and drop and not (kept[0] > drop[-1] or kept[-1] < drop[0]):
        raise Violation('own-draw', 'p=%s: kept draws %s and dropped draws %s overlap: a sample does not follow its own draw' % (
            p, [round(v, 4) for v in kept], [round(v, 4) for v in drop]))
      lo, hi = self.bounds(kept, drop)
      if not (lo - tol <= 1 - p <= hi + tol):
        raise Violation('fraction', 'p=%s: the kept draws %s and dropped draws %s put the kept fraction in [%.5f, %.5f]' % (
            p, [round(v, 4) for v in kept], [round(v, 4) for v in drop], lo, hi))
    elif alleq and B > 1 and 0.3 <= p <= 0.7 and R * (B - 1) >= 24:
      raise Violation('own-draw', 'p=%s: all %d samples share one fate in each of %d rounds' % (p, B, R))

  @staticmethod
  def bounds(kept, drop):
    if kept and drop:
      if kept[0] > drop[-1]:
        return 1 - kept[0], 1 - drop[-1]
      return kept[-1], drop[0]
    u = kept or drop
    # all one way: the other side is smaller than the smallest end gap
    gap = max(u[0], 1 - u[-1])
    return (1 - gap, 1.0) if kept else (0.0, gap)


PROP = P()
