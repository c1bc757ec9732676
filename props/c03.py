"""C03: convolution does not depend on buffer size or memory contents."""
import copy

import numpy as np
import torch
import ocnn

from sim import gen
from sim.core import Prop, Violation, sut
from sim.faults import gen_fault
from sim.refmodel import KERNELS
from sim.torchseam import INJECTED, OpSeam

KS = {'333': [[3], [3, 3, 3], [3, 3]], '222': [[2], [2, 2, 2]], '111': [[1], [1, 1, 1]]}
KERN = ['333', '333', '222', '311', '131', '113', '331', '313', '133']
TOL = {'f32': 2e-4, 'f64': 1e-9, 'mixed': 2e-4, 'amp': 6e-2, 'amp16': 6e-2}


def ref_apply(kind, x, w, neigh, out_h, group=1):
  """float64 numpy. Returns out and a function G -> (dx, dw)."""
  N, K = neigh.shape
  if kind == 'group':
    xs = np.split(x, group, 1)
    parts = [ref_apply('conv', xs[g], w[g], neigh, out_h) for g in range(group)]
    out = np.concatenate([p[0] for p in parts], 1)

    def back(G):
      Gs = np.split(G, group, 1)
      r = [p[1](g) for p, g in zip(parts, Gs)]
      return np.concatenate([a for a, _ in r], 1), [b for _, b in r]
    return out, back
  if kind == 'deconv':
    out = np.zeros((out_h, w.shape[1]))
    for k in range(K):
      v = neigh[:, k] >= 0
      np.add.at(out, neigh[v, k], x[v] @ w[k].T)

    def back(G):
      dx, dw = np.zeros_like(x), np.zeros_like(w)
      for k in range(K):
        v = neigh[:, k] >= 0
        dx[v] += G[neigh[v, k]] @ w[k]
        dw[k] = G[neigh[v, k]].T @ x[v]
      return dx, dw
    return out, back
  out = np.zeros((N, x.shape[1] if kind == 'dw' else w.shape[2]))
  for k in range(K):
    v = neigh[:, k] >= 0
    out[v] += x[neigh[v, k]] * w[k] if kind == 'dw' else x[neigh[v, k]] @ w[k]

  def back(G):
    dx, dw = np.zeros_like(x), np.zeros_like(w)
    for k in range(K):
      v = neigh[:, k] >= 0
      if kind == 'dw':
        np.add.at(dx, neigh[v, k], G[v] * w[k])
        dw[k] = (x[neigh[v, k]] * G[v]).sum(0, keepdims=True)
      else:
        np.add.at(dx, neigh[v, k], G[v] @ w[k].T)
        dw[k] = x[neigh[v, k]].T @ G[v]
    return dx, dw
  return out, back


def buffer_limit(spec, kc, rows, r):
  ideal = kc * rows
  m = {'one': kc, 'one+': kc + 1, 'two-': 2 * kc - 1, 'half': kc * ((rows + 1) // 2), 'ideal-': ideal - 1,
       'ideal': ideal, 'ideal+': ideal + 1, 'big': int(2e8)}.get(spec)
  if m is None:
    m = int(kc + r * max(1, ideal - kc))
  return max(kc, m)


class P(Prop):
  id = 'C03'
  runs = {'quick': 3000, 'thorough': 120000}
  soft_s = {'quick': 60, 'thorough': 2400}
  shrink_lists = ('steps',)
  shrink_min = {'steps': 1}
  rule = ('a run applies 2-8 seeded convolution calls (operator x kernel x stride x non-empty mode x channels x buffer limit '
          'x allocator contents x precision x which gradients), sharing modules and octrees between calls, with failures '
          'inside some calls; non-trivial when at least one call split its work into two or more buffers')
  distinct_measure = 'distinct (operator, kernel, stride, mode, number of buffers, poison) tuples plus fault sites'
  real = ['ocnn.nn octree_conv/dwconv/gconv/octree2col/pad', 'ocnn.octree', 'ocnn.utils.scatter_add', 'torch autograd + CPU kernels']
  stubs = ['allocator (contents of fresh memory, size of allocations, failures) via OpSeam', 'float64 numpy reference convolution']
  assumptions = ['torch matrix products are right to rounding', 'limits of at least one node\'s neighbourhood']
  required_probes = ('chunked', 'chunked-ragged', 'poisoned', 'stride2-pad', 'deconv2', 'group', 'amp', 'amp16', 'reused-module', 'limit-tight')

  def gen(self, rng, idx, tier):
    depth = rng.choice([2, 3, 3, 4, 4, 5])
    full = rng.randint(1, min(2, depth))
    octs = [[gen.cloud_spec(rng, 1, 70) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([1, 1, 2]))]
    mods = []
    for _ in range(rng.randint(1, 4)):
      kind = rng.wchoice([('conv', 4), ('deconv', 4), ('dw', 3), ('group', 1)])
      kern = rng.choice(KERN)
      g = rng.choice([1, 2, 3]) if kind == 'group' else 1
      cin = g * rng.choice([1, 2, 3, 4])
      cout = cin if kind == 'dw' else g * rng.choice([1, 2, 3, 5])
      mods.append({'kind': kind, 'kernel': kern, 'form': rng.randrange(3), 'group': g, 'cin': cin, 'cout': cout,
                   'stride': 2 if kern == '222' and rng.chance(0.6) else rng.choice([1, 1, 1, 2]), 'nempty': rng.chance(0.5),
                   'bias': rng.chance(0.4), 'direct': kind in ('conv', 'deconv') and rng.chance(0.25),
                   'limit': rng.choice(['one', 'one+', 'two-', 'half', 'ideal-', 'ideal', 'ideal+', 'big', 'any', 'any', 'any']),
                   'r': round(rng.random() ** 2, 4), 'seed': rng.seed31(),
                   'prec': rng.choice(['f32', 'f32', 'f64', 'mixed', 'amp', 'amp16'])})
    steps = []
    for _ in range(rng.randint(2, 8)):
      s = {'mod': rng.randrange(len(mods)), 'oct': rng.randrange(len(octs)), 'd': rng.random(), 'seed': rng.seed31(),
           'poison': rng.choice([None, 'nan', 'nan', 'inf', 'big', 'wave']), 'grads': rng.choice(['xw', 'xw', 'x', 'w']),
           'grad_layout': rng.choice(['plain', 'plain', 'expanded', 'strided'])}
      if rng.chance(0.2):
        s['faults'] = [gen_fault(rng) for _ in range(rng.choice([1, 2]))]
      steps.append(s)
    return {'depth': depth, 'full': full, 'octs': octs, 'mods': mods, 'steps': steps}

  def simplify(self, plan):
    for i, s in enumerate(plan['steps']):
      for k, v in (('faults', None), ('poison', None), ('grads', 'xw'), ('grad_layout', 'plain')):
        if s.get(k) and s.get(k) != v:
          p = copy.deepcopy(plan)
          p['steps'][i][k] = v
          yield p
    for i, m in enumerate(plan['mods']):
      for k, v in (('bias', False), ('prec', 'f64'), ('cin', m['group']), ('cout', m['cin'] if m['kind'] == 'dw' else m['group'])):
        if m[k] != v and (k != 'cin' or m['kind'] != 'dw'):
          p = copy.deepcopy(plan)
          p['mods'][i][k] = v
          yield p
    for i, o in enumerate(plan['octs']):
      for j, c in enumerate(o):
        if len(o) > 1:
          p = copy.deepcopy(plan)
          del p['octs'][i][j]
          yield p
        if c['n'] > 1:
          p = copy.deepcopy(plan)
          p['octs'][i][j]['n'] = c['n'] // 2
          yield p

  def execute(self, plan, ctx):
    D, F = plan['depth'], plan['full']
    with sut('building octrees'):
      octs = [(gen.make_batch(o, D, F), gen.ref_batch(o, D, F)) for o in plan['octs']]
    cache, used = {}, {}
    for i, s in enumerate(plan['steps']):
      m = plan['mods'][s['mod'] % len(plan['mods'])]
      o, r = octs[s['oct'] % len(octs)]
      self.step(i, s, m, o, r, D, F, ctx, cache, used)

  def rows(self, m, r, D, F, fd):
    """(depth, neigh, n input rows, n output rows before padding) or None"""
    up = m['kind'] == 'deconv' and m['stride'] == 2
    lo, hi = (1, D - 1) if up else (1, D)
    if m['stride'] == 2 and not up:
      lo = 1
    if hi < lo:
      return None
    d = lo + int(fd * (hi - lo + 1))
    nd = d + 1 if up else d
    neigh = r.neigh(nd, m['kernel'], m['stride'], m['nempty'])
    cnt = (lambda e: r.nnum_nempty(e)) if m['nempty'] else (lambda e: r.nnum(e))
    return d, neigh, cnt(d), cnt

  def build(self, m, limit):
    k = m['kernel']
    forms = KS.get(k, [[int(c) for c in k]])
    ks = list(forms[m['form'] % len(forms)])
    kw = dict(kernel_size=ks, stride=m['stride'], nempty=m['nempty'], use_bias=m['bias'])
    if m['kind'] == 'dw':
      return ocnn.nn.OctreeDWConv(m['cin'], max_buffer=limit, **kw)
    if m['kind'] == 'group':
      return ocnn.nn.OctreeGroupConv(m['cin'], m['cout'], group=m['group'], **kw)
    cls = ocnn.nn.OctreeConv if m['kind'] == 'conv' else ocnn.nn.OctreeDeconv
    return cls(m['cin'], m['cout'], direct_method=m['direct'], max_buffer=limit, **kw)

  def step(self, i, s, m, o, r, D, F, ctx, cache, used):
    geo = self.rows(m, r, D, F, s['d'])
    if geo is None:
      return
    d, neigh, in_h, cnt = geo
    kind, stride = m['kind'], m['stride']
    K = neigh.shape[1]
    c_buf = m['cout'] if kind == 'deconv' else m['cin']
    kc = K * c_buf
    key = s['mod'] % 1000
    prec = m['prec']
    if m['direct'] and prec == 'mixed':
      prec = 'f64'
    if kind == 'dw' and prec in ('amp', 'amp16'):
      prec = 'f32'
    tag = 'step %d: %s kernel %s stride %d nempty %s depth %d direct %s %s' % (
        i, kind, m['kernel'], stride, m['nempty'], d, m['direct'], prec)
    new = key not in cache
    if new:
      limit = buffer_limit(m['limit'], kc, len(neigh), m['r'])
      with sut('constructing ' + tag):
        with OpSeam(poison=s['poison']):
          mod = self.build(m, limit)
      # parameters must be initialised whatever fresh memory holds
      g = torch.Generator().manual_seed(m['seed'])
      for n, p in mod.named_parameters():
        if not torch.isfinite(p).all() or float(p.detach().abs().max()) > 1e3:
          raise Violation('uninitialised-parameter', '%s: parameter %s holds uninitialised memory' % (tag, n))
        with torch.no_grad():
          p.copy_(torch.randn(p.shape, generator=g))
      if prec == 'f64':
        mod = mod.double()
      cache[key] = (mod, limit)
    else:
      ctx.probe('reused-module')
    mod, limit = cache[key]
    xdt = {'f32': torch.float32, 'amp': torch.float32, 'f64': torch.float64, 'mixed': torch.float64, 'amp16': torch.bfloat16}[prec]
    x = gen.tensor(s['seed'], in_h, m['cin']).to(xdt)

    # reference
    params = {n: p.detach().double().numpy() for n, p in mod.named_parameters()}
    xn = x.double().numpy()
    ws = [v for n, v in params.items() if n.endswith('weights')]
    bs = [v for n, v in params.items() if n.endswith('bias')]
    w = ws if kind == 'group' else ws[0]
    emask_in = emask_out = None
    xin = xn
    if stride == 2 and not m['nempty']:
      if kind == 'deconv':
        emask_in = r.nempty[d]
        xin = xn[emask_in]
        ctx.probe('deconv2')
      else:
        emask_out = r.nempty[d - 1]
        ctx.probe('stride2-pad')
    out_h = cnt(d + 1 if kind == 'deconv' and stride == 2 else d)
    want, back = ref_apply(kind, xin, w, neigh, out_h, m['group'])
    if bs:
      want = want + np.concatenate(bs)
    if emask_out is not None:
      full = np.zeros((len(emask_out), want.shape[1]))
      full[emask_out] = want
      want = full
    G = gen.tensor(s['seed'] ^ 77, *want.shape)
    if prec == 'amp16':
      G = G.bfloat16().float()
    if s['grad_layout'] == 'expanded':
      G = G[:1].expand(want.shape) if len(G) else G
    elif s['grad_layout'] == 'strided':
      G = torch.stack([G, -G], 2)[:, :, 0]
    Gn = G.double().numpy()
    Gi = Gn if emask_out is None else Gn[emask_out]
    dx, dw = back(Gi)
    if emask_in is not None:
      t = np.zeros_like(xn)
      t[emask_in] = dx
      dx = t
    dws = dw if kind == 'group' else [dw]
    db = Gi.sum(0)

    max_float = [0]
    allowed = max(limit, x.numel(), int(np.prod(want.shape)), max(v.size for v in ws), m['cin'] * 8)
    guarded = not m['direct'] and kind != 'group'

    def on_op(name, func, args, kwargs, out):
      if isinstance(out, torch.Tensor) and out.is_floating_point() and out.numel():
        st = out.untyped_storage().data_ptr()
        if any(isinstance(a, torch.Tensor) and a.untyped_storage().data_ptr() == st for a in args):
          return      # a view, not an allocation
        n = out.untyped_storage().nbytes() // out.element_size()
        # bfloat16 / double copies of the same data keep their element count
        if n > max_float[0]:
          max_float[0] = n
          if guarded and n > allowed:
            raise Violation('allocation-over-limit', '%s: %s allocates %d elements; limit %d, largest of input/output/weights %d' % (
                tag, name, n, limit, allowed))

    def call():
      xx = x.clone().requires_grad_('x' in s['grads'])
      ps = list(mod.parameters()) if 'w' in s['grads'] else []
      for p in mod.parameters():
        p.requires_grad_('w' in s['grads'])
      if prec in ('amp', 'amp16'):
        with torch.autocast('cpu', dtype=torch.bfloat16):
          out = mod(xx, o, d)
      else:
        out = mod(xx, o, d)
      ins = ([xx] if 'x' in s['grads'] else []) + ps
      gs = torch.autograd.grad(out, ins, G.to(out.dtype))
      return out.detach(), gs

    for spec in s.get('faults') or []:
      seam = OpSeam()
      with sut('measuring ' + tag), seam:
        call()
      if spec['where'] == 'op' and seam.n:
        f = OpSeam(fail_at=[int(spec['frac'] * seam.n)], kind=spec['kind'], poison=s['poison'])
        try:
          with f:
            call()
          raise Violation('swallowed-failure', '%s: %s did not surface' % (tag, f.fired))
        except INJECTED:
          ctx.fault(spec['kind'] + ':op')
          ctx.state('fault@' + f.fired[0][1])
    seam = OpSeam(poison=s['poison'], on_op=on_op)
    with sut(tag):
      with seam:
        out, gs = call()
    if s['poison'] and seam.poisoned:
      ctx.probe('poisoned')
      ctx.fault('dirty-memory:' + s['poison'], seam.poisoned)
    ctx.count('steps', seam.n)
    if tuple(out.shape) != want.shape:
      raise Violation('output-shape', '%s: %s, expected %s' % (tag, tuple(out.shape), want.shape))

    def cmp(name, got, ref):
      tol = TOL[prec]
      g = got.detach().double().numpy()
      if g.shape != ref.shape:
        g = g.reshape(ref.shape)
      scale = 1.0 + np.abs(ref).max() if ref.size else 1.0
      bad = ~(np.abs(g - ref) <= tol * scale)
      if bad.any():
        j = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation('value', '%s, limit %d (%d buffers), fresh memory %s: %s%s is %r, the sum over existing neighbours is %r' % (
            tag, limit, nbuf, s['poison'], name, list(j), float(g[j]), float(ref[j])), key='value:' + name.split()[0])
    nbuf = -(-len(neigh) * kc // max(1, limit // kc * kc)) if guarded else 1
    cmp('output', out, want)
    gs = list(gs)
    if 'x' in s['grads']:
      cmp('input-gradient', gs.pop(0), dx)
    if 'w' in s['grads']:
      wi, off = 0, 0
      for n, p in mod.named_parameters():
        g = gs.pop(0)
        if n.endswith('bias'):
          cmp('bias-gradient', g, db[off:off + p.numel()])
          off += p.numel()
        else:
          cmp('weight-gradient', g, dws[wi])
          wi += 1
    if nbuf > 1:
      ctx.probe('chunked')
      ctx.nontrivial = True
      if len(neigh) % nbuf:
        ctx.probe('chunked-ragged')
      if limit // kc <= 1:
        ctx.probe('limit-tight')
    if kind == 'group':
      ctx.probe('group')
    if prec in ('amp', 'amp16'):
      ctx.probe(prec)
    ctx.state((kind, m['kernel'], stride, m['nempty'], m['direct'], min(nbuf, 50), s['poison'], s['grads']))
    ctx.log(i, tag, nbuf, '%.3f' % float(np.abs(want).sum() if want.size else 0))


PROP = P()
