"""C13: merging chunked scan predictions loses and mixes nothing."""
import copy
import os
import re

import numpy as np
from plyfile import PlyData

from sim import simio, tools
from sim.core import Prop, Violation

IDS20 = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 24, 28, 33, 34, 36, 39)


class P(Prop):
  id = 'C13'
  runs = {'quick': 1100, 'thorough': 60000}
  soft_s = {'quick': 45, 'thorough': 2700}
  shrink_lists = ('scans', 'faults', 'damage')
  shrink_min = {'scans': 1}
  rule = ('a run is one conversion of predictions to label files (the tool as a program) over 1-5 scans cut into 0-14 chunks, list entries in a '
          'seeded order, with damaged, missing or mismatching inputs, or file-system faults on reads and writes or a crash followed by a rerun; '
          'or the cutting of one large scan into overlapping chunks, merged again; non-trivial when a scan has several entries or a fault fired')
  distinct_measure = 'distinct (chunks per scan, list order, damage, fault kind and position) tuples'
  real = ['projects/tools/seg_scannet.py generate_output_seg and generate_chunks, run as a program', 'numpy readers and writers']
  stubs = ['predictions (values with exact sums, so that the order of addition cannot matter)',
           'file-system calls (LD_PRELOAD seam that counts and injects faults)']
  assumptions = ['a damaged file is missing, empty, cut short or has another number of rows than its mask; changed bits inside a mask are not detectable',
                 'process crash, not power loss']
  required_probes = ('chunks', 'ten-chunks', 'whole', 'mixed', 'fault-rd', 'fault-mut', 'crash', 'reported', 'rerun', 'damage:missing', 'damage:cut',
                     'damage:empty', 'damage:rows', 'damage:mask-missing', 'damage:mask-cut', 'scannet200', 'stale', 'uncovered', 'repeat', 'similar-names', 'dotted-names', 'chunky-names',
                     'long-numbers', 'cut', 'cut-merged', 'cut-whole')

  def prepare(self, base):
    tools.warm()
    os.environ.setdefault('SIM_SO', simio.build())

  def gen(self, rng, idx, tier):
    scans = []
    for i in range(rng.choice([1, 2, 2, 3, 5])):
      scans.append({'n': rng.randint(2, 30), 'chunks': rng.choice([0, 0, 1, 2, 3, 9, 11, 14]), 'seed': rng.seed31(), 'whole': rng.chance(0.2),
                    'base': rng.choice([0, 0, 0, 8, 97, 998, 99995])})
    damage, faults = [], []
    what = rng.choice(['none', 'damage', 'rd', 'mut', 'mut', 'mut'])
    if what == 'damage':
      damage = [{'kind': rng.choice(['missing', 'cut', 'empty', 'rows', 'one-row', 'mask-missing', 'mask-cut', 'mask-rows', 'other-length']), 'entry': rng.random(),
                 'at': rng.random()}]
    elif what == 'rd':
      faults = [{'cls': 'rd', 'kind': rng.choice(['err', 'err', 'short', 'eintr', 'short', 'err-from']), 'frac': rng.random(), 'arg': 'EIO',
                 'count': rng.choice([1, 1000])} for _ in range(rng.choice([1, 2]))]
    elif what == 'mut':
      faults = [{'cls': 'mut', 'kind': rng.choice(['crash-before', 'crash-after', 'crash-partial', 'err', 'err', 'err-from', 'short', 'eintr']),
                 'frac': rng.random(), 'where': rng.choice(['any', 'risky']), 'arg': rng.choice(['ENOSPC', 'EIO', 'EDQUOT']), 'count': rng.choice([1, 1000])}]
    return {'scans': scans, 'order': rng.seed31(), 'names': rng.choice(['plain', 'plain', 'similar', 'dotted', 'chunky']), 'classes': rng.choice([20, 20, 200]),
            'damage': damage, 'faults': faults, 'stale': rng.chance(0.2), 'repeat': rng.chance(0.15), 'labels': rng.chance(0.5),
            'cut': {'n': rng.choice([3500, 7000, 13000]), 'extent': [rng.choice([0.6, 1.0, 1.9, 3.1]) for _ in range(3)], 'origin': rng.choice([0.0, 0.0, 1.5, -1.0, -20.0]),
                    'stride': rng.choice([0.5, 1.0, 0.7]), 'seed': rng.seed31(), 'cols': rng.choice([9, 10])} if rng.chance(0.08) else None}

  def simplify(self, plan):
    if plan.get('cut'):
      p = copy.deepcopy(plan)
      p['scans'] = p['scans'][:1]
      if p['scans'] != plan['scans']:
        yield p
    for k, v in (('classes', 20), ('stale', False), ('repeat', False), ('names', 'plain'), ('labels', False)):
      if plan[k] != v:
        p = copy.deepcopy(plan)
        p[k] = v
        yield p
    for i, s in enumerate(plan['scans']):
      for k in (0, 1, 2):
        if s['chunks'] > k:
          p = copy.deepcopy(plan)
          p['scans'][i]['chunks'] = k
          yield p
          break

  def ids(self, plan):
    """The label values, from the tool's own documented table for 200 classes."""
    if plan['classes'] == 20:
      return np.array(IDS20)
    src = open(os.path.join(os.path.dirname(tools.__file__), 'ids200.txt')).read()
    return np.array([int(x) for x in src.split()])

  def build(self, plan, root, ctx):
    """Writes the inputs; returns list entries, expected labels per scan."""
    import random
    r = random.Random(plan['order'])
    ids = self.ids(plan)
    C = len(ids)
    for d in ('pred', 'in', 'out'):
      os.makedirs(os.path.join(root, d))
    entries, expect = [], {}
    for i, s in enumerate(plan['scans']):
      g = np.random.RandomState(s['seed'] % (2 ** 31))
      name = {'plain': 'scene%04d_00' % (700 + i), 'similar': 'scene0%d_0%s' % (i % 2, '0' * (i // 2 + 1)),
              'dotted': 'scan.v%d.%s' % (i // 2, 'ab'[i % 2]),
              # a scan in chunks may bear the word itself
              'chunky': ('office.chunk_%d' if s['chunks'] and not s['whole'] else 'scene%04d') % i}[plan['names']]
      n = s['n']
      tot = np.zeros([n, C])
      parts = []
      if not s['chunks'] or s['whole']:
        parts.append((name, None))
      cover = np.zeros(n, bool)
      for c in range(s['chunks']):
        m = g.rand(n) < 0.5
        m[g.randint(n)] = True
        m[g.randint(n)] = True
        parts.append(('%s.chunk_%d' % (name, s.get('base', 0) + c), m))
        cover |= m
      if s['chunks']:
        ctx.probe('chunks')
        if s['chunks'] > 10:
          ctx.probe('ten-chunks')
        if s['whole']:
          ctx.probe('mixed')
        elif not cover.all():
          ctx.probe('uncovered')
      else:
        ctx.probe('whole')
      for nm, m in parts:
        k = n if m is None else int(m.sum())
        prob = (g.randint(0, 4096, [k, C]) / 1024.0).astype(np.float32)
        np.savez(os.path.join(root, 'pred', nm + '.eval.npz'), prob=prob)
        times = 1
        if plan['repeat'] and nm == parts[0][0]:
          times = 2
          ctx.probe('repeat')
        full = np.zeros([n, C])
        full[slice(None) if m is None else m] = prob
        tot += full * times
        if m is not None:
          np.save(os.path.join(root, 'in', nm + '.mask.npy'), m)
        entries += [(nm, m)] * times
      expect[name] = ids[tot.argmax(1)]
    r.shuffle(entries)
    with open(os.path.join(root, 'list.txt'), 'w') as f:
      for nm, _ in entries:
        f.write(nm + '.ply' + (' 0' if plan['labels'] else '') + '\n')
    return entries, expect

  def child(self, plan, root, faults):
    def fn():
      tools.run_tool(self.folder, 'seg_scannet', ['--run', 'generate_output_seg', '--path_in', root + '/in', '--path_pred', root + '/pred',
                                                  '--path_out', root + '/out', '--filelist', root + '/list.txt'] +
                     (['--scannet200'] if plan['classes'] == 200 else []))
    return simio.run_in_child(fn, root, faults)

  def check(self, root, expect, what):
    have = {f for f in os.listdir(os.path.join(root, 'out')) if f.endswith('.txt')}
    want = {n + '.txt' for n in expect}
    if have != want:
      raise Violation('files', '%s: missing %s, unexpected %s' % (what, sorted(want - have), sorted(have - want)))
    for n, lab in expect.items():
      try:
        got = np.array([int(float(x)) for x in open(os.path.join(root, 'out', n + '.txt')).read().split()])
      except ValueError as e:
        raise Violation('damaged', '%s: %s: %s' % (what, n, e))
      if got.shape != lab.shape:
        raise Violation('length', '%s: %s has %d labels for %d points' % (what, n, len(got), len(lab)))
      if not np.array_equal(got, lab):
        j = int(np.nonzero(got != lab)[0][0])
        raise Violation('labels', '%s: %s point %d: label %d, the arg-max of its predictions is %d' % (what, n, j, got[j], lab[j]))

  def execute(self, plan, ctx):
    root = os.path.join(ctx.scratch, 'w')
    os.makedirs(root)
    self.folder = tools.copy_tools(ctx.scratch)
    if plan['classes'] == 200:
      ctx.probe('scannet200')
    if plan['names'] != 'plain':
      ctx.probe(plan['names'] + '-names')
    if any(x.get('base', 0) > 100 and x['chunks'] for x in plan['scans']):
      ctx.probe('long-numbers')
    entries, expect = self.build(plan, root, ctx)
    if len(entries) > len(expect):
      ctx.nontrivial = True
    if plan['stale']:
      ctx.probe('stale')
      with open(os.path.join(root, 'out', list(expect)[0] + '.txt'), 'w') as f:
        f.write('99\n' * 500)
    ctx.log([(s['n'], s['chunks']) for s in plan['scans']], [e[0] for e in entries])
    if plan.get('cut'):
      return self.cutting(plan, root, ctx)
    if plan['damage']:
      return self.damaged(plan, root, entries, expect, ctx)
    base = self.child(plan, root, [])
    if base['status'] != 'ok':
      raise Violation('unexpected-error', 'conversion: %s' % (base.get('error') or base['status']))
    self.check(root, expect, 'conversion')
    if not plan['faults']:
      ctx.state((len(entries), str(plan['scans'])))
      return
    # the same with faults, from the state before the first conversion
    for f in os.listdir(os.path.join(root, 'out')):
      os.remove(os.path.join(root, 'out', f))
    faults = []
    for f in plan['faults']:
      f = dict(f)
      ctx.probe('fault-' + f['cls'])
      faults.append(simio.aim(f, base))
    r1 = self.child(plan, root, faults)
    simio.count_fired(ctx, faults, r1['fired'])
    ctx.log([(f['kind'], f['at']) for f in faults], r1['status'])
    ctx.count('steps', r1['nmut'] + r1['nrd'])
    ctx.state((len(entries), str(plan['scans']), str([(f['kind'], f['at']) for f in faults])))
    if any(r1['fired']):
      ctx.nontrivial = True
    at = ', '.join('%s at %s call %d' % (f['kind'], f['cls'], f['at']) for f in faults)
    if r1['status'] == 'died':
      raise Violation('process-died', 'conversion with ' + at)
    if r1['status'] == 'ok':
      self.check(root, expect, 'conversion that reports success after ' + at)
      return
    if r1['status'] == 'raise' and not any(r1['fired']):
      raise Violation('unexpected-error', r1['error'])
    if r1['status'] == 'raise' and all(f['kind'] in ('short', 'eintr') for f in faults) and not any(f['kind'] == 'eintr' for f in faults):
      raise Violation('short-io', 'a short transfer made the conversion fail: %s' % r1['error'])
    ctx.probe('crash' if r1['status'] == 'crash' else 'reported')
    ctx.probe('rerun')
    r2 = self.child(plan, root, [])
    if r2['status'] != 'ok':
      raise Violation('rerun-failed', 'after %s: %s' % (at, r2.get('error') or r2['status']))
    self.check(root, expect, 'rerun after ' + at)

  def cutting(self, plan, root, ctx):
    """Cut a scan into chunks with the tool, predict each, merge."""
    c = plan['cut']
    ctx.probe('cut')
    ctx.nontrivial = True
    g = np.random.RandomState(c['seed'] % (2 ** 31))
    n, crop = c['n'], 1.0
    lo = np.float32(c['origin'])
    xyz = (lo + g.rand(n, 3) * c['extent']).astype(np.float32)
    cloud = np.concatenate([xyz, g.randn(n, 3), g.randint(0, 256, [n, 3]), g.randint(0, 21, [n, 1])], 1).astype(np.float32)[:, :c['cols']]
    d = os.path.join(root, 'cut')
    os.makedirs(d)
    np.save(os.path.join(root, 'scan.npy'), cloud)

    def fn():
      tools.run_tool(self.folder, 'seg_scannet', ['--run', '(lambda: generate_chunks(__import__("pathlib").Path(%r), np.load(%r), %r, %r))' % (
          os.path.join(d, 'scan_00.ply'), os.path.join(root, 'scan.npy'), crop, c['stride'])])
    r = simio.run_in_child(fn, root, [])
    if r['status'] != 'ok':
      raise Violation('unexpected-error', 'cutting a scan: %s' % (r.get('error') or r['status']))
    names = sorted(f[:-4] for f in os.listdir(d) if f.endswith('.ply'))
    want = ['scan_00.chunk_%d' % i for i in range(len(names))]
    files = sorted(os.listdir(d))
    if sorted(want) != names or files != sorted([w + '.ply' for w in want] + [w + '.mask.npy' for w in want]):
      raise Violation('cut-files', 'the chunks of a scan are %s' % files)
    ext = xyz.max(0).astype(np.float64) - xyz.min(0)
    if (ext < crop).all():
      ctx.probe('cut-whole')
      if names:
        raise Violation('cut-files', 'a scan within the chunk size was cut: %s' % files)
      return
    cover, masks = np.zeros(n, bool), []
    for w in want:
      m = np.load(os.path.join(d, w + '.mask.npy'))
      if m.dtype != bool or m.shape != (n,):
        raise Violation('cut-mask', '%s: mask %s %s of a scan of %d points' % (w, m.dtype, m.shape, n))
      v = PlyData.read(os.path.join(d, w + '.ply'))['vertex'].data
      got = np.stack([v[k].astype(np.float32) for k in v.dtype.names], 1)
      if got.shape != (int(m.sum()), c['cols']) or not np.array_equal(got, cloud[m]):
        raise Violation('cut-points', '%s does not hold the points its mask names' % w)
      b = xyz[m]
      if (b.max(0) - b.min(0) > crop + 1e-4).any():
        raise Violation('cut-points', '%s is larger than a chunk' % w)
      masks.append(m)
      cover |= m
    # every box of the sliding window with enough points is a chunk
    base = xyz.min(0).astype(np.float64)
    num = np.ceil(np.maximum(ext - crop - 1e-5, 0) / c['stride']).astype(int) + 1
    for ijk in np.ndindex(*num):
      cmin = base + np.array(ijk) * c['stride']
      inside = ((xyz >= cmin + 1e-5) & (xyz <= cmin + crop - 1e-5)).all(1)
      if inside.sum() >= 3100 and not cover[inside].all():
        raise Violation('cut-lost', 'box %s of %s of the scan (origin %s, extent %s) holds %d points, %d of them in no chunk' % (
            ijk, num.tolist(), c['origin'], c['extent'], inside.sum(), int((~cover[inside]).sum())))
    ctx.state(('cut', n, tuple(num), c['origin'] < 0))
    ctx.log('cut', n, num.tolist(), [int(m.sum()) for m in masks])
    if not masks:
      return
    ctx.probe('cut-merged')
    C, tot = 21, 0
    order = g.permutation(len(masks))
    for f in ('pred', 'in', 'out'):
      for x in os.listdir(os.path.join(root, f)):
        os.remove(os.path.join(root, f, x))
    with open(os.path.join(root, 'list.txt'), 'w') as f:
      for j in order:
        prob = (g.randint(0, 4096, [int(masks[j].sum()), C]) / 1024.0).astype(np.float32)
        np.savez(os.path.join(root, 'pred', want[j] + '.eval.npz'), prob=prob)
        os.rename(os.path.join(d, want[j] + '.mask.npy'), os.path.join(root, 'in', want[j] + '.mask.npy'))
        full = np.zeros([n, C])
        full[masks[j]] = prob
        tot = tot + full
        f.write(want[j] + '.ply 0\n')
    r = self.child(dict(plan, classes=20), root, [])
    if r['status'] != 'ok':
      raise Violation('unexpected-error', 'conversion of the chunks of a cut scan: %s' % (r.get('error') or r['status']))
    self.check(root, {'scan_00': np.array(IDS20)[tot.argmax(1)]}, 'conversion of a cut scan')

  def damaged(self, plan, root, entries, expect, ctx):
    d = plan['damage'][0]
    kind = d['kind']
    pool = [e for e in entries if e[1] is not None] if kind.startswith('mask') or kind in ('rows', 'one-row', 'other-length') else entries
    if kind == 'other-length':      # needs a second entry of the same scan
      pool = [e for e in pool if sum(x[0].rpartition('.chunk_')[0] == e[0].rpartition('.chunk_')[0] and x[0] != e[0] for x in entries)]
    if not pool:
      return
    ctx.probe('damage:' + kind)
    ctx.fault('damage:' + kind)
    ctx.nontrivial = True
    nm, m = pool[int(d['entry'] * len(pool))]
    p = os.path.join(root, 'in', nm + '.mask.npy') if kind.startswith('mask') else os.path.join(root, 'pred', nm + '.eval.npz')
    if kind.endswith('missing'):
      os.remove(p)
    elif kind == 'empty':
      open(p, 'wb').close()
    elif kind.endswith('cut'):
      b = open(p, 'rb').read()
      with open(p, 'wb') as f:
        f.write(b[:max(0, min(len(b) - 1, int(d['at'] * len(b))))])
    elif kind in ('rows', 'one-row'):
      with np.load(p) as z:
        a = z['prob']
      k = max(2, int(d['at'] * 2 * len(a))) if kind == 'rows' else 1
      if k == len(a):
        k += 1
      np.savez(p, prob=np.resize(a, [k, a.shape[1]]))
    elif kind == 'mask-rows':
      np.save(p, np.concatenate([m, np.ones(2, bool)]))
    elif kind == 'other-length':   # mask and prediction agree with each other, not with the scan
      one = np.ones(1, bool)
      np.save(os.path.join(root, 'in', nm + '.mask.npy'), one)
      with np.load(p) as z:
        a = z['prob']
      np.savez(p, prob=a[:1])
    ctx.log('damage', kind, nm)
    ctx.state((kind, nm, len(entries)))
    r = self.child(plan, root, [])
    if r['status'] == 'ok':
      raise Violation('damage-accepted', '%s of %s is not reported' % (kind, nm))
    if r['status'] == 'died':
      raise Violation('process-died', 'conversion with a damaged input (%s)' % kind)


PROP = P()
