"""C05: any growth history leaves a valid octree."""
import copy
import json

import numpy as np
import torch
import ocnn

from sim import gen
from sim.core import Prop, Violation, sut
from sim.faults import attempt, gen_fault
from sim.refmodel import KERNELS, RefOctree, compare_level, voxels

SPLITS = ['random', 'half', 'dense', 'sparse', 'none', 'all', 'first', 'last', 'one-sample', 'drop-sample']


def split_flags(kind, seed, coords, bs):
  r = np.random.RandomState(seed % (2 ** 31))
  n = len(coords)
  if kind == 'random':
    f = r.rand(n) < r.rand()
  elif kind == 'half':
    f = np.arange(n) % 2 == 0
  elif kind == 'dense':
    f = r.rand(n) < 0.9
  elif kind == 'sparse':
    f = r.rand(n) < 0.1
  elif kind == 'none':
    f = np.zeros(n, bool)
  elif kind == 'all':
    f = np.ones(n, bool)
  elif kind == 'first':
    f = np.zeros(n, bool); f[0] = True
  elif kind == 'last':
    f = np.zeros(n, bool); f[-1] = True
  elif kind == 'one-sample':
    f = (coords[:, 0] == r.randint(bs)) & (r.rand(n) < 0.6)
  else:
    f = (coords[:, 0] != r.randint(bs)) & (r.rand(n) < 0.6)
  return f


class P(Prop):
  id = 'C05'
  level = 'exploration'
  runs = {'quick': 2400, 'thorough': 60000}
  soft_s = {'quick': 50, 'thorough': 2400}
  shrink_lists = ('ops',)
  shrink_min = {'ops': 1}
  rule = ('a run is one seeded history of 3-16 octree operations (build, batched build, rebuild, full init, split, re-split, grow, '
          'neighbour construction, merge, device copy) on up to 4 octrees, with allocation failures/interrupts inside '
          'operations followed by repeats; non-trivial when it contains at least 3 executed operations and at least '
          'one level below the full levels was compared')
  distinct_measure = 'distinct (operation, octree shape) states plus distinct fault sites'
  real = ['ocnn.octree (octree.py, points.py, shuffled_key.py)', 'ocnn.utils', 'torch CPU kernels']
  stubs = ['allocator / interrupt source (OpSeam, line seam)']
  assumptions = ['torch CPU operators are correct', 'coordinates lie in [-1,1)',
                 'levels below a re-split level are out of scope until regrown']
  required_probes = ('retry-after-fault', 'merged-split', 'none-split', 'batched', 'neigh-below-full', 'rebuilt', 'resplit')

  def gen(self, rng, idx, tier):
    ops = []
    depth = rng.choice([2, 3, 3, 4, 4, 5, 6])
    full = rng.randint(1, min(3, depth - 1)) if depth > 1 else 1
    if rng.chance(0.05):
      depth = full = min(depth, 4)
    deep = rng.chance(0.12)      # deep thin octrees: keys beyond one lookup table
    if deep:
      depth, full = rng.randint(7, 16), rng.choice([1, 2])
    n = rng.randint(3, 10 if deep else 16)
    frate = rng.choice([0, 0, 0.15, 0.4])
    for i in range(n):
      kind = rng.wchoice([('build', 3 if i < 2 else 1), ('build_batch', 2 if i < 2 else 1), ('init', 2 if i < 2 else 1),
                          ('split', 5), ('grow', 6), ('neigh', 3), ('allneigh', 1), ('merge', 1.5), ('copy', 0.7),
                          ('splitgrow', 4), ('query', 2), ('rebuild', 1), ('resplit', 1.5)])
      op = {'op': kind, 'on': rng.randrange(8)}
      if kind == 'rebuild':
        op['seed'] = rng.seed31()
        op['perm'] = rng.choice(gen.PERMS)
      if kind == 'resplit':
        op['seed'], op['d'] = rng.seed31(), rng.random()
        op['update_neigh'] = rng.chance(0.5)
      if kind in ('build', 'build_batch'):
        big = not deep and depth <= 4 and rng.chance(0.08)
        op['clouds'] = [gen.cloud_spec(rng, 1, 4 if deep or big else 40) for _ in range(rng.choice([9, 33, 70]) if big else rng.randint(1, 4))]
      if kind == 'init':
        op['batch'] = rng.choice([5, 17, 66]) if full <= 2 and depth <= 4 and rng.chance(0.08) else rng.randint(1, 3)
      if kind in ('split', 'grow', 'neigh', 'splitgrow'):
        op['d'] = rng.random()
        op['kind'] = rng.choice(['first', 'last', 'none'] if deep else SPLITS)
        op['seed'] = rng.seed31()
        op['dtype'] = rng.choice(['int64', 'int32', 'int64'])
        op['update_neigh'] = rng.chance(0.6)
      if kind == 'merge':
        op['which'] = [rng.randrange(8) for _ in range(rng.randint(1, 3))]
      if kind == 'query':
        op['seed'] = rng.seed31()
        op['kernel'] = rng.choice(list(KERNELS))
        op['stride'] = rng.choice([1, 1, 2])
        op['nempty'] = rng.chance(0.5)
      if rng.chance(frate):
        op['faults'] = [gen_fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
      ops.append(op)
    return {'depth': depth, 'full': full, 'ops': ops}

  def simplify(self, plan):
    for i, op in enumerate(plan['ops']):
      if op.get('faults'):
        p = copy.deepcopy(plan)
        del p['ops'][i]['faults']
        yield p
      for j, c in enumerate(op.get('clouds', [])):
        if len(op['clouds']) > 1:
          p = copy.deepcopy(plan)
          del p['ops'][i]['clouds'][j]
          yield p
        if c['n'] > 1:
          p = copy.deepcopy(plan)
          p['ops'][i]['clouds'][j]['n'] = c['n'] // 2
          yield p
    if plan['depth'] > 2:
      p = copy.deepcopy(plan)
      p['depth'] -= 1
      p['full'] = min(p['full'], p['depth'])
      yield p

  # ----------------------------------------------------------------------
  def execute(self, plan, ctx):
    D, F = plan['depth'], plan['full']
    objs = []    # (octree, ref)
    executed = 0
    deep = 0

    def fail(cls, text):
      raise Violation(cls, text)

    def do(op, fn, args, what):
      for spec in op.get('faults', []):
        st, v = attempt(fn, args, spec, ctx)
        if st == 'fault':
          ctx.probe('retry-after-fault')
      with sut(what):
        return fn(*args)

    def compare(k, tag):
      nonlocal deep
      o, r = objs[k]
      with sut('inspecting the octree after ' + tag):
        for d in range(D + 1):
          if r.coords[d] is not None:
            compare_level(o, r, d, lambda c, t: fail(c, 'after %s: %s' % (tag, t)))
            if d > F:
              deep += 1
              if r.neigh_ok[d]:
                ctx.probe('neigh-below-full')
      ctx.state((tag.split()[0], D, F, r.batch_size, [None if c is None else len(c) for c in r.coords]))

    for i, op in enumerate(plan['ops']):
      kind = op['op']
      tag = '%s (step %d)' % (kind, i)
      k = op['on'] % len(objs) if objs else None
      if kind == 'build':
        # single octrees merged, or one octree
        specs = op['clouds']
        def build(specs):
          os_ = [gen.make_octree(s, D, F) for s in specs]
          return os_[0] if len(os_) == 1 else ocnn.octree.merge_octrees(os_)
        o = do(op, build, (specs,), tag)
        objs.append((o, gen.ref_batch(specs, D, F)))
        objs[-1][1].specs = specs
        if len(specs) > 1:
          ctx.probe('batched')
          objs[-1][1].merged = True
      elif kind == 'build_batch':
        specs = op['clouds']
        pts = [gen.make_points(s) for s in specs]
        with sut(tag):
          merged = ocnn.octree.merge_points(pts)
          o = ocnn.octree.Octree(D, F, batch_size=len(specs))
        if len(specs) > 1:
          ctx.probe('batched')
        do(op, lambda o, m: o.build_octree(m), (o, merged), tag)
        objs.append((o, gen.ref_batch(specs, D, F)))
        objs[-1][1].specs = specs
      elif kind == 'init':
        o = do(op, lambda: ocnn.octree.init_octree(D, F, op['batch']), (), tag)
        r = RefOctree(D, F, op['batch'])
        for d in range(F + 1):
          r.grow_full(d, neigh=(d > 0))
        objs.append((o, r))
      elif not objs:
        continue
      elif kind in ('split', 'splitgrow'):
        o, r = objs[k]
        vd = r.valid_depth()
        if vd < F or F == D:
          continue
        d = F + int(op['d'] * (min(vd, D - 1) - F + 1)) if vd > F else F
        d = min(d, D - 1, vd)
        flags = split_flags(op['kind'], op['seed'], r.coords[d], r.batch_size)
        t = torch.from_numpy(flags.astype(op['dtype']))
        if not flags.any():
          ctx.probe('none-split')
        do(op, lambda o, t: o.octree_split(t, d), (o, t), tag)
        # `features` of stale levels stay as they are; not compared
        r.split(d, flags)
        if kind == 'splitgrow':
          un = op['update_neigh'] and r.neigh_ok[d]
          do(op, lambda o: o.octree_grow(d + 1, update_neigh=un), (o,), tag)
          r.grow(d + 1, neigh=un)
      elif kind == 'grow':
        o, r = objs[k]
        vd = r.valid_depth()
        if vd < F or vd >= D:
          continue
        un = op['update_neigh'] and r.neigh_ok[vd]
        do(op, lambda o: o.octree_grow(vd + 1, update_neigh=un), (o,), tag)
        r.grow(vd + 1, neigh=un)
      elif kind == 'rebuild':
        # the same octree object, built again from mirrored clouds: the same counts at every level
        o, r = objs[k]
        if r.specs is None:
          continue
        specs = [dict(s, perm=op['perm']) for s in r.specs]
        with sut(tag):
          merged = ocnn.octree.merge_points([gen.make_points(s) for s in specs])
          o.batch_size = len(specs)
        do(op, lambda o, m: o.build_octree(m), (o, merged), tag)
        objs[k] = (o, gen.ref_batch(specs, D, F))
        objs[k][1].specs = specs
        ctx.probe('rebuilt')
      elif kind == 'resplit':
        # another split of the same size, grown again
        o, r = objs[k]
        vd = r.valid_depth()
        if vd <= F:
          continue
        d = F + int(op['d'] * (vd - F))
        flags = np.random.RandomState(op['seed'] % (2 ** 31)).permutation(r.nempty[d])
        t = torch.from_numpy(flags.astype(np.int64))
        do(op, lambda o, t: o.octree_split(t, d), (o, t), tag)
        r.split(d, flags)
        un = op['update_neigh'] and r.neigh_ok[d]
        do(op, lambda o: o.octree_grow(d + 1, update_neigh=un), (o,), tag)
        r.grow(d + 1, neigh=un)
        ctx.probe('resplit')
      elif kind == 'neigh':
        o, r = objs[k]
        vd = r.valid_depth()
        cand = [d for d in range(1, vd + 1) if d <= F or r.neigh_ok[d - 1]]
        if not cand:
          continue
        d = cand[int(op['d'] * len(cand))]
        do(op, lambda o: o.construct_neigh(d), (o,), tag)
        r.neigh_ok[d] = True
      elif kind == 'allneigh':
        o, r = objs[k]
        if r.valid_depth() < D:
          continue
        do(op, lambda o: o.construct_all_neigh(), (o,), tag)
        for d in range(1, D + 1):
          r.neigh_ok[d] = True
      elif kind == 'merge':
        ks = [w % len(objs) for w in op['which']]
        ks = [w for w in ks if objs[w][1].valid_depth() == D and objs[w][1].batch_size == 1]
        if not ks:
          continue
        # merging takes single-sample octrees of one provenance
        grown = [objs[w][0].points[D] is None for w in ks]
        ks = [w for w, g in zip(ks, grown) if g == grown[0]]
        dev = str(objs[ks[0]][0].device)
        ks = [w for w in ks if str(objs[w][0].device) == dev]
        o = do(op, lambda *a: ocnn.octree.merge_octrees(list(a)), tuple(objs[w][0] for w in ks), tag)
        objs.append((o, RefOctree.merge([objs[w][1] for w in ks])))
        if grown[0]:
          ctx.probe('merged-split')
        for w in ks:
          compare(w, 'merge-input (step %d)' % i)
      elif kind == 'copy':
        o, r = objs[k]
        c = do(op, lambda o: o.to('cpu:0') if str(o.device) == 'cpu' else o.to('cpu'), (o,), tag)
        r2 = r.copy()
        objs.append((c, r2))
      elif kind == 'query':
        o, r = objs[k]
        self.query(op, o, r, D, ctx, fail, tag)
      executed += 1
      ctx.log(i, kind, k, op.get('faults') and 'faulted')
      # all live octrees stay right, not only the one operated on
      for w in range(len(objs)):
        if w == k or w >= len(objs) - 1 or i % 4 == 3:
          compare(w, tag)
      if len(objs) > 4:
        objs.pop(0)
    for w in range(len(objs)):
      compare(w, 'end')
    ctx.nontrivial = executed >= 3 and deep > 0

  def query(self, op, o, r, D, ctx, fail, tag):
    rs = np.random.RandomState(op['seed'] % (2 ** 31))
    vd = r.valid_depth()
    if vd < 1:
      return
    d = rs.randint(1, vd + 1)
    ne = op['nempty']
    idx = r.index(d, ne)
    c = r.coords[d][r.nempty[d]] if ne else r.coords[d]
    if len(c) == 0:
      return
    q = c[rs.randint(len(c), size=6)]
    hi = 1 << d
    q2 = np.concatenate([rs.randint(0, r.batch_size, (8, 1)), rs.randint(0, hi, (8, 3))], 1)
    q = np.concatenate([q, q2])
    frac = rs.uniform(0, 0.95, (len(q), 3))
    t = torch.from_numpy(np.concatenate([q[:, 1:] + frac, q[:, :1]], 1).astype(np.float32))
    want = np.array([idx.get(tuple(v), -1) for v in q.tolist()])
    with sut('search (%s)' % tag):
      got = o.search_xyzb(t, d, ne).numpy()
    if not np.array_equal(got, want):
      fail('search', 'depth %d nempty %s: search gives %s, expected %s' % (d, ne, got.tolist(), want.tolist()))
    if r.neigh_ok[d]:
      kn, st = op['kernel'], op['stride']
      if st == 2 and d <= 0:
        return
      with sut('get_neigh (%s)' % tag):
        nb = o.get_neigh(d, kn, st, ne).numpy()
      want = r.neigh(d, kn, st, ne)
      if nb.shape != want.shape or not np.array_equal(nb, want):
        fail('get-neigh', 'depth %d kernel %s stride %d nempty %s: %s neighbour entries differ (%s vs %s rows)' % (
            d, kn, st, ne, 'shape' if nb.shape != want.shape else int((nb != want).sum()), nb.shape, want.shape))
      ctx.probe('get-neigh')


PROP = P()
