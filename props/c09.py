"""C09: augmentation stays in bounds under any random stream."""
import copy
import itertools
import math
import random as _random

import numpy as np
import torch
import ocnn

from sim import datasets, gen
from sim.core import Prop, Violation, sut
from sim.torchseam import OpSeam, RandStream

KINDS = ['generic', 'generic', 'generic', 'base', 'modelnet', 'modelnet_npz', 'seg_shapenet', 'kitti', 'ae', 'ae_npz', 'image2shape',
         'image2shape_npz', 'scannet', 'scannet_npz', 'scannet', 'completion', 'completion_npz']
MODES = ['uniform', 'uniform', 'zero', 'max', 'mid', 'tiny', 'mixed']


class Draws:
  """Every draw of the visit, from the plan."""

  def __init__(self, seed, modes):
    self.r = np.random.RandomState(seed % (2 ** 31))
    self.modes = modes
    self.n = 0

  def vals(self, n):
    m = self.modes[self.n % len(self.modes)]
    self.n += 1
    if m == 'zero':
      return np.zeros(n)
    if m == 'max':
      return np.full(n, 1 - 2.0 ** -53)
    if m == 'mid':
      return np.full(n, 0.5)
    if m == 'tiny':
      return np.full(n, 2.0 ** -20)
    if m == 'mixed':
      return self.r.choice([0.0, 0.5, 1 - 2.0 ** -53, 0.25], n)
    return self.r.rand(n)

  def torch_pick(self, i, n):
    return self.vals(n).tolist()

  def scalar(self):
    return float(self.vals(1)[0])


class seams:
  """torch, numpy and random draws of the block come from the plan."""

  def __init__(self, draws):
    self.d = draws
    self.rs = RandStream(draws.torch_pick)
    self.op = OpSeam(rng=self.rs)

  def __enter__(self):
    d = self.d
    self.old = (_random.random, np.random.rand, np.random.randn, np.random.randint, np.random.choice)
    _random.random = d.scalar
    np.random.rand = lambda *s: d.vals(int(np.prod(s)) if s else 1).reshape(s) if s else d.scalar()
    r = d.r
    np.random.randn = lambda *s: r.randn(*[int(v) for v in s])
    np.random.randint = lambda lo, hi=None, size=None, **k: (
        int(d.scalar() * ((hi if hi is not None else lo) - (lo if hi is not None else 0))) + (lo if hi is not None else 0)
        if size is None else r.randint(lo, hi, size))
    np.random.choice = r.choice
    self.op.__enter__()
    return self

  def __exit__(self, *a):
    self.op.__exit__(*a)
    _random.random, np.random.rand, np.random.randn, np.random.randint, np.random.choice = self.old


def rots(a, b, c):
  """Row-vector rotation of the documented order x, y, z (radians)."""
  ca, sa, cb, sb, cc, sc = math.cos(a), math.sin(a), math.cos(b), math.sin(b), math.cos(c), math.sin(c)
  rx = np.array([[1, 0, 0], [0, ca, sa], [0, -sa, ca]])
  ry = np.array([[cb, 0, -sb], [0, 1, 0], [sb, 0, cb]])
  rz = np.array([[cc, sc, 0], [-sc, cc, 0], [0, 0, 1]])
  return rx @ ry @ rz


def euler(R):
  """All (a, b, c) with rots(a, b, c) == R; None as c when only a combination
  is determined."""
  # R = rx ry rz:  R[0,2] = -sin b ; R[0,:2] = cos b (cos c, sin c) ; R[1:,2] = (sin a cos b, cos a cos b)
  sb = -max(-1.0, min(1.0, R[0, 2]))
  cb = math.hypot(R[0, 0], R[0, 1])
  if cb < 3e-3:
    return None
  out = []
  for s in (1, -1):
    b = math.atan2(sb, s * cb)
    c = math.atan2(s * R[0, 1], s * R[0, 0])
    a = math.atan2(s * R[1, 2], s * R[2, 2])
    out.append((a, b, c))
  return out


def angle_ok(deg, amax, step, tol):
  """some representative of the angle is a multiple of step within +-amax"""
  for k in (-720, -360, 0, 360, 720):
    v = deg + k
    if abs(v) <= amax + tol:
      if step == 0 or abs(v - step * round(v / step)) <= tol:
        return True
  return False


def rotation_allowed(R, angle, interval, tol=0.05):
  es = euler(R)
  if es is not None:
    return any(all(angle_ok(math.degrees(v), angle[i], interval[i], tol) for i, v in enumerate(e)) for e in es)
  # gimbal: search the first angle
  sb = 1.0 if R[0, 2] < 0 else -1.0
  b = math.degrees(math.asin(sb))
  if not angle_ok(b, angle[1], interval[1], 0.3):
    return False
  k = int(angle[0] / interval[0] + 1e-9)
  for i in range(-k, k + 1):
    a = math.radians(i * interval[0])
    Q = np.linalg.inv(rots(a, math.radians(b), 0.0)) @ R
    c = math.degrees(math.atan2(Q[0, 1], Q[0, 0]))
    if angle_ok(c, angle[2], interval[2], 0.3):
      return True
  return False


class P(Prop):
  id = 'C09'
  runs = {'quick': 2500, 'thorough': 100000}
  soft_s = {'quick': 45, 'thorough': 2700}
  shrink_lists = ('visits',)
  shrink_min = {'visits': 1}
  rule = ('a run configures one augmentation and visits a sample 1-4 times, every random draw of torch, numpy and random taken from the plan '
          '(uniform, smallest, largest, middle values in seeded patterns); the map applied is solved from the kept points and decomposed; '
          'non-trivial when augmentation is on')
  distinct_measure = 'distinct (dataset, configuration, draw pattern) triples'
  real = ['ocnn.dataset.Transform', 'Points.rotate/scale/translate/flip/clip/orient_normal', 'preprocess of all datasets, scannet distortions']
  stubs = ['random sources of torch, numpy and random (decided by the plan)']
  assumptions = ['angle, scale and shift bounds are compared with float32 tolerance (0.05 degree, 2e-4)']
  required_probes = ('distort', 'clipped', 'flipped', 'nonuniform', 'uniform', 'orient', 'identity', 'float-angle', 'map-solved', 'flat-colour', 'spread:angle', 'spread:scale', 'spread:jitter', 'spread:flip') + tuple(
      'kind:' + k for k in set(KINDS))

  def prepare(self, base):
    datasets.warm()

  def gen(self, rng, idx, tier):
    kind = rng.choice(KINDS)
    z = rng.chance(0.12)
    iv = [rng.choice([1, 1, 2, 5, 7, 30, 45, 90, 180]) for _ in range(3)]
    an = [rng.choice([0, 0, 5, 10, 30, 90, 180]) for _ in range(3)]
    if rng.chance(0.2):
      iv = [float(v) for v in iv]
      an = [float(v) for v in an]
      if rng.chance(0.5):
        iv = [rng.choice([0.5, 2.5, 0.1]) for _ in range(3)]
    cfg = {'depth': 3, 'full': 1, 'distort': rng.chance(0.9), 'angle': [0, 0, 0] if z else an, 'interval': iv,
           'scale': 0.0 if z else rng.choice([0.0, 0.1, 0.25, 0.5]), 'uniform': rng.chance(0.4), 'jitter': 0.0 if z else rng.choice([0.0, 0.125, 0.3]),
           'flip': [0.0, 0.0, 0.0] if z else [rng.choice([0.0, 0.0, 0.5, 1.0, 0.3]) for _ in range(3)], 'orient': rng.choice(['', '', '', 'x', 'y', 'z', 'xyz'])}
    spec = {'seed': rng.seed31(), 'n': rng.choice([14, 24, 40]), 'kind': 'uniform'}
    if kind.startswith('scannet') and rng.chance(0.3):
      spec['flat'] = rng.randrange(3)
    visits = [{'seed': rng.seed31(), 'modes': [rng.choice(MODES) for _ in range(rng.choice([1, 2, 5, 7]))]} for _ in range(rng.randint(1, 4))]
    if rng.chance(0.03):
      axis, what = rng.randrange(3), rng.choice(['angle', 'scale', 'jitter', 'flip'])
      kind, visits = 'spread', visits[:1]
      cfg.update(distort=True, angle=[0, 0, 0], scale=0.0, jitter=0.0, flip=[0.0] * 3, orient='', uniform=what == 'scale' and rng.chance(0.5))
      if what == 'angle':
        cfg['interval'][axis] = rng.choice([1, 5, 30, 0.5])
        cfg['angle'][axis] = rng.choice([5, 30, 45, 90])
        if cfg['angle'][axis] < cfg['interval'][axis]:
          cfg['angle'][axis] = cfg['interval'][axis]
      elif what == 'flip':
        cfg['flip'][axis] = rng.choice([0.3, 0.5, 0.7])
      else:
        cfg[what] = rng.choice([0.1, 0.25, 0.5])
      return {'kind': kind, 'cfg': cfg, 'sample': spec, 'visits': visits, 'core': 0.2, 'axis': axis, 'what': what}
    return {'kind': kind, 'cfg': cfg, 'sample': spec, 'visits': visits, 'core': rng.choice([0.2, 0.3, 0.5])}

  def simplify(self, plan):
    c = plan['cfg']
    if plan['kind'] == 'spread':
      return
    for k, v in (('distort', False), ('angle', [0, 0, 0]), ('scale', 0.0), ('jitter', 0.0), ('flip', [0.0] * 3), ('orient', ''), ('uniform', False)):
      if c[k] != v:
        p = copy.deepcopy(plan)
        p['cfg'][k] = v
        yield p
    for i, v in enumerate(plan['visits']):
      if len(v['modes']) > 1:
        for m in v['modes']:
          p = copy.deepcopy(plan)
          p['visits'][i]['modes'] = [m]
          yield p

  def execute(self, plan, ctx):
    kind, cfg = plan['kind'], plan['cfg']
    ctx.probe('kind:' + kind)
    if kind == 'spread':
      return self.spread(plan, cfg, ctx)
    spec = plan['sample']
    n = spec['n']
    if kind == 'generic':
      r = np.random.RandomState(spec['seed'] % (2 ** 31))
      pts = gen.cloud(spec)
      pts[:n // 2] *= plan['core']           # a core that stays inside
      att = gen.attrs(spec, r.rand() < 0.8, 2, True)
      tr = ocnn.dataset.Transform(**datasets.flags(cfg))
    else:
      datasets.full_seed(spec['seed'])
      with sut('opening the dataset'):
        o = datasets.open_(kind, ctx.scratch, [spec], cfg)
      raw = o.raw[0]
    for vi, v in enumerate(plan['visits']):
      d = Draws(v['seed'], v['modes'])
      what = '%s visit %d' % (kind, vi)
      if kind == 'generic':
        t = {k: torch.from_numpy(a.copy()) for k, a in att.items()}
        p = ocnn.octree.Points(torch.from_numpy(pts.copy()), **t)
        with sut(what):
          with seams(d):
            out = tr.transform({'points': p, 'extra': 5}, 0)
        if out.get('extra') != 5:
          raise Violation('lost-entry', '%s dropped another entry of the sample' % what)
        src = dict(att, points=pts)
      else:
        with sut(what):
          with seams(d):
            out = o.dataset[0]
        src = self.source(kind, raw)
      if any(isinstance(a, float) for a in cfg['angle']):
        ctx.probe('float-angle')
      self.check(kind, cfg, src, out, what, plan, ctx)
      ctx.count('steps', d.n)
      ctx.fault('random-draw-decided', max(1, d.n))
      ctx.state((kind, str(cfg), tuple(v['modes'])))
      ctx.log(what, d.n, int(out['inbox_mask'].sum()) if 'inbox_mask' in out else -1)

  def spread(self, plan, cfg, ctx, visits=96):
    """One augmentation alone, many visits of one uniform stream: both sides of
    its bound occur. (A fair side is missed by all visits with probability
    below 1e-11.)"""
    ctx.nontrivial = True
    axis, what = plan['axis'], plan['what']
    r = np.random.RandomState(plan['sample']['seed'] % (2 ** 31))
    pts = (r.rand(8, 3) * 0.4 - 0.2).astype(np.float32)
    tr = ocnn.dataset.Transform(**datasets.flags(cfg))
    d = Draws(plan['visits'][0]['seed'], ['uniform'])
    seen = []
    for _ in range(visits):
      p = ocnn.octree.Points(torch.from_numpy(pts.copy()), torch.from_numpy(pts.copy()))
      with sut('augmenting'), seams(d):
        out = tr.transform({'points': p}, 0)
      q = out['points'].points.numpy().astype(np.float64)
      X = np.concatenate([pts, np.ones((8, 1))], 1)
      sol = np.linalg.lstsq(X, q, rcond=None)[0]
      A, b = sol[:3], sol[3]
      if what == 'angle':
        i, j = (axis + 1) % 3, (axis + 2) % 3
        seen.append(math.degrees(math.atan2(A[i, j], A[i, i])))
      elif what == 'flip':
        seen.append(-1.0 if A[axis, axis] > 0 else 1.0)
      elif what == 'scale':
        seen.append(A[axis, axis] - 1)
      else:
        seen.append(b[axis])
    ctx.fault('random-draw-decided', d.n)
    ctx.count('steps', visits)
    ctx.state(('spread', what, axis, str(cfg)))
    lo, hi = min(seen), max(seen)
    if not (lo < -1e-4 and hi > 1e-4):
      raise Violation('one-sided', '%d visits of a uniform stream, %s %s on axis %d: only values in [%.4g, %.4g] occur' % (
          visits, what, cfg[what], axis, lo, hi))
    ctx.probe('spread:' + what)
    ctx.log('spread', what, axis, round(lo, 3), round(hi, 3))

  def source(self, kind, raw):
    """The sample after the documented normalisation of its dataset (float64)."""
    base = kind.replace('_npz', '')
    p = raw['points'].astype(np.float64)
    s = {}
    if base in ('base', 'modelnet'):
      s = {'points': p, 'normals': raw['normals']}
    elif base in ('ae', 'image2shape'):
      s = {'points': p / 0.5, 'normals': raw['normals'].astype(np.float32)}
    elif base == 'seg_shapenet':
      lo, hi = p.min(0), p.max(0)
      s = {'points': (p - (lo + hi) / 2) * (1.6 / ((hi - lo).max() + 1e-6)), 'normals': raw['normals'], 'labels': raw['labels'][:, None]}
    elif base == 'kitti':
      from datascts.semantic_kitti import get_label_map
      x = p[:, :3]
      s = {'points': (x - (x.min(0) + x.max(0)) / 2) / 100, 'features': raw['points'][:, 3:],
           'labels': get_label_map()[raw['labels'] & 0xFFFF][:, None]}
    elif base == 'scannet':
      c = (p.min(0) + p.max(0)) / 2
      c[2] = 0.5
      s = {'points': (p - c) / 10.24, 'normals': raw['normals'], 'labels': raw['labels'][:, None], 'colors': raw['colors'] / 255.0}
    else:
      lo, hi = p.min(0), p.max(0)
      s = {'points': (p - (lo + hi) / 2) * 2 / ((hi - lo).max() + 1e-6) * 0.95, 'normals': raw['normals']}
    return s

  def check(self, kind, cfg, src, out, what, plan, ctx):
    base = kind.replace('_npz', '')
    if base == 'completion':
      return self.check_completion(src, out, what)
    p, mask = out['points'], out['inbox_mask']
    n = len(src['points'])
    if mask.shape != (n,) or mask.dtype != torch.bool:
      raise Violation('mask', '%s: mask %s %s for %d points' % (what, tuple(mask.shape), mask.dtype, n))
    m = mask.numpy()
    k = int(m.sum())
    if p.points.shape[0] != k:
      raise Violation('mask', '%s: mask keeps %d points, the cloud has %d' % (what, k, p.points.shape[0]))
    q = p.points.numpy().astype(np.float64)
    if k and (not np.isfinite(q).all() or np.abs(q).max() >= 1.0):
      raise Violation('outside', '%s: a kept point is outside the unit cube: %s' % (what, np.abs(q).max()))
    if k < n:
      ctx.probe('clipped')
    # own labels and features
    for key in ('labels', 'features'):
      if key in src:
        got = getattr(p, key)
        if got is None or not np.array_equal(got.numpy().astype(np.float64), np.asarray(src[key])[m].astype(np.float64)):
          raise Violation('attributes', '%s: the kept points do not carry their own %s' % (what, key))
    if base == 'scannet':
      f = p.features.numpy().astype(np.float64)
      if f.shape != (k, 3):
        raise Violation('attributes', '%s: colours %s' % (what, f.shape))
      if not np.isfinite(f).all() or (k and (f.min() < -1e-5 or f.max() > 1 + 1e-5)):
        raise Violation('colour-range', '%s: colours outside [0, 1]: %s' % (what, f[~((f >= -1e-5) & (f <= 1 + 1e-5)).all(1)][:2]))
      if not cfg['distort'] and not np.allclose(f, src['colors'][m], atol=1e-5):
        raise Violation('attributes', '%s: the kept points do not carry their own colours' % what)
      if plan['sample'].get('flat') is not None:
        ctx.probe('flat-colour')
    if 'normals' in src and (p.normals is None or p.normals.shape != (k, 3)):
      raise Violation('attributes', '%s: normals missing' % what)
    x = np.asarray(src['points'], np.float64)
    if not cfg['distort']:
      A, b = np.eye(3), np.zeros(3)
    else:
      ctx.nontrivial = True
      ctx.probe('distort')
      if k < 5 or np.linalg.svd(x[m] - x[m].mean(0))[1][2] < 0.05 * math.sqrt(k) * (0.02 if base == 'kitti' else 0.1):
        return
      X = np.concatenate([x[m], np.ones((k, 1))], 1)
      sol, _, _, _ = np.linalg.lstsq(X, q, rcond=None)
      A, b = sol[:3], sol[3]
    res = np.abs(x[m] @ A + b - q).max() if k else 0.0
    if res > 2e-5:
      if base == 'scannet' and cfg['distort']:
        ctx.probe('elastic')           # the elastic distortion is not one affine map
        return
      raise Violation('not-one-map', '%s: no single affine map explains the kept points (residual %.2g)' % (what, res))
    ctx.probe('map-solved')
    tol = 2e-4
    S = np.linalg.norm(A, axis=0)
    Q = A / S
    if np.abs(Q.T @ Q - np.eye(3)).max() > 5 * tol:
      raise Violation('not-rigid', '%s: the map is not a rotation, flip and axis scale: %s' % (what, A.round(4).tolist()))
    sc = cfg['scale'] if cfg['distort'] else 0.0
    if (np.abs(S - 1) > sc + tol).any():
      raise Violation('scale-bound', '%s: scale %s outside 1 +- %s' % (what, S, sc))
    if cfg['distort'] and cfg['uniform'] and np.ptp(S) > 2 * tol:
      raise Violation('scale-uniform', '%s: scale %s is not uniform' % (what, S))
    ctx.probe('uniform' if np.ptp(S) < 1e-6 else 'nonuniform')
    jit = cfg['jitter'] if cfg['distort'] else 0.0
    if not ((np.abs(b / S) <= jit + tol).all() or (np.abs(b) <= jit + tol).all()):
      raise Violation('shift-bound', '%s: shift %s exceeds %s' % (what, b / S, jit))
    flips = cfg['flip'] if cfg['distort'] else [0, 0, 0]
    angle = cfg['angle'] if cfg['distort'] else [0, 0, 0]
    must = [i for i in range(3) if flips[i] >= 1.0]
    ok = False
    for f in itertools.product(*[((-1,) if flips[i] >= 1.0 else (1, -1) if flips[i] > 0 else (1,)) for i in range(3)]):
      R = np.diag(f) @ Q
      if np.linalg.det(R) > 0 and rotation_allowed(R, angle, cfg['interval']):
        ok = True
        if -1 in f:
          ctx.probe('flipped')
        break
    if not ok:
      raise Violation('rotation-bound', '%s: %s is not a flip on %s followed by a rotation within %s in steps of %s' % (
          what, Q.round(4).tolist(), flips, angle, cfg['interval']))
    if max(np.abs(A - np.eye(3)).max(), np.abs(b).max()) < 1e-5:
      ctx.probe('identity')
    if cfg['distort'] and sc == 0 and jit == 0 and not any(angle) and not any(flips):
      if max(np.abs(A - np.eye(3)).max(), np.abs(b).max()) > 1e-5:
        raise Violation('not-identity', '%s: zero bounds, map %s %s' % (what, A.tolist(), b.tolist()))
    # exactly the points inside are kept
    y = x @ A + b
    inside = (np.abs(y) < 0.99 - 1e-4).all(1)
    out_ = (np.abs(y) > 0.99 + 1e-4).any(1)
    if (inside & ~m).any() or (out_ & m).any():
      j = int(np.nonzero((inside & ~m) | (out_ & m))[0][0])
      raise Violation('mask', '%s: point %d lies at %s, mask says %s' % (what, j, y[j].tolist(), bool(m[j])))
    if 'normals' in src and k:
      nr = np.asarray(src['normals'], np.float64)[m] @ Q
      nr = nr / S
      if np.ptp(S) > 1e-6:
        nr /= np.maximum(np.linalg.norm(nr, axis=1, keepdims=True), 1e-12)
      else:
        nr = np.asarray(src['normals'], np.float64)[m] @ Q
      g = p.normals.numpy().astype(np.float64)
      o = cfg['orient']
      if o:
        ctx.probe('orient')
      if o == 'xyz':
        nr = np.abs(nr)
      elif o:
        i = 'xyz'.index(o)
        safe = np.abs(nr[:, i]) > 1e-4
        nr[nr[:, i] <= 0] *= -1
        nr, g = nr[safe], g[safe]
      if len(nr) and np.abs(nr - g).max() > 2e-3:
        j = int(np.abs(nr - g).max(1).argmax())
        raise Violation('normal-map', '%s: normal %s, the matching map gives %s' % (what, g[j].tolist(), nr[j].tolist()))

  def check_completion(self, src, out, what):
    g, i = out['points_gt'], out['points']
    for nm, p in (('points_gt', g), ('points', i)):
      q = p.points.numpy()
      if len(q) and (not np.isfinite(q).all() or np.abs(q).max() >= 1):
        raise Violation('outside', '%s: %s outside the unit cube' % (what, nm))
    if g.points.shape[0] != len(src['points']) or not np.allclose(g.points.numpy(), src['points'], atol=1e-5) or not np.allclose(
        g.normals.numpy(), src['normals'], atol=1e-6):
      raise Violation('not-identity', '%s: the reference points changed' % what)


PROP = P()
