"""C18: a sample read from storage is exact or an error."""
import copy
import os

import numpy as np

from sim import datasets, gen, simio
from sim.core import Prop, Violation

KINDS = [k for k in datasets.KINDS if k != 'modelnet_npz'] + ['modelnet_npz']
DAMAGE = ['cut', 'cut', 'cut-tail', 'cut-item', 'empty', 'missing', 'array', 'companion-cut', 'companion-missing', 'companion-more']

ARRAYS = datasets.RICH + ('seg_shapenet', 'modelnet_npz')     # readers that ask for certain arrays


class P(Prop):
  id = 'C18'
  runs = {'quick': 2400, 'thorough': 100000}
  soft_s = {'quick': 45, 'thorough': 2700}
  shrink_lists = ('samples', 'reads', 'faults')
  shrink_min = {'samples': 1, 'reads': 1}
  rule = ('a run stores 1-3 samples of one dataset, damages at most one of them (cut at a seeded byte, emptied, missing, an array or companion file '
          'missing or cut) or injects read faults at seeded calls, reads them 1-5 times through the dataset\'s reader, and reads the undamaged ones '
          'once more afterwards; non-trivial when a file was damaged or a fault fired')
  distinct_measure = 'distinct (dataset, text, damage kind and byte, fault kind and call) tuples'
  real = ['readers of projects/datascts (ReadPly, ReadNpz, ReadFile, kitti read_file, image2shape and completion readers)', 'thsolver.Dataset cache',
          'plyfile, numpy, PIL']
  stubs = ['file-system calls (LD_PRELOAD seam that counts and injects faults)']
  assumptions = ['a text ply cut inside its last number, and a raw scan without label file cut between two points, carry no trace of the cut',
                 'reads through mmap are not interrupted']
  required_probes = ('clean', 'exact', 'refused', 'fault-err', 'fault-soft', 'text', 'cached', 'nolabel', 'reread', 'rich') + tuple(
      'kind:' + k for k in KINDS) + tuple('damage:' + d for d in sorted(set(DAMAGE)))

  def prepare(self, base):
    datasets.warm()
    os.environ.setdefault('SIM_SO', simio.build())

  def gen(self, rng, idx, tier):
    kind = rng.choice(KINDS + ['kitti'] * 4)
    samples = [dict(gen.cloud_spec(rng, 1, 40), dir='a', views=2) for _ in range(rng.choice([1, 2, 3]))]
    what = rng.choice(['none', 'damage', 'damage', 'damage', 'err', 'soft'])
    faults, damage = [], None
    if what == 'damage':
      ks = [d for d in DAMAGE if not d.startswith('companion') or kind.startswith(('kitti', 'image2shape'))]
      ks = [d for d in ks if d != 'array' or kind in ARRAYS] + ['array'] * (3 if kind in ARRAYS else 0)
      damage = {'kind': rng.choice(ks), 'at': rng.random(), 'i': rng.random(), 'which': rng.random()}
    elif what != 'none':
      ks = ['err', 'err', 'err-from'] if what == 'err' else ['short', 'short', 'eintr']
      faults = [{'cls': 'rd', 'kind': rng.choice(ks), 'frac': rng.random(), 'arg': rng.choice(['EIO', 'ENOMEM']), 'count': rng.choice([1, 1000])}
                for _ in range(rng.choice([1, 1, 2, 4]))]
      if kind == 'kitti' and rng.chance(0.3):
        samples = [dict(gen.cloud_spec(rng, 300, 900), dir='a')]
    if rng.chance(0.3):
      for s in samples:
        s['rich'] = rng.choice([1, 2])
    return {'kind': kind, 'samples': samples, 'text': rng.chance(0.3), 'damage': damage, 'faults': faults, 'reads': [rng.random() for _ in range(rng.randint(1, 5))],
            'cached': rng.chance(0.15), 'nolabel': rng.chance(0.2)}

  def simplify(self, plan):
    for k, v in (('cached', False), ('text', False), ('nolabel', False)):
      if plan[k] != v:
        p = copy.deepcopy(plan)
        p[k] = v
        yield p
    for i, s in enumerate(plan['samples']):
      if s.get('rich'):
        p = copy.deepcopy(plan)
        p['samples'][i]['rich'] = 0
        yield p
      if s.get('n', 0) > 2:
        p = copy.deepcopy(plan)
        p['samples'][i]['n'] = s['n'] // 2
        yield p

  # ---------------------------------------------------------------------
  def truth(self, plan, o, i):
    """What reading sample i returns: name -> array (images: list of views)."""
    kind, raw = plan['kind'], o.raw[i]
    out = {}
    for k, v in raw.items():
      if k == 'images':
        out['image'] = [im[..., :3] for im in v]
      elif k in ('points', 'normals', 'colors'):
        out[k] = v.astype(np.float32) if kind != 'completion_npz' else v
      else:
        out[k] = v.astype(np.int32)
    if kind == 'kitti' and plan['nolabel']:
      out['labels'] = np.zeros(len(raw['points']), np.int32)
    return out

  def verdict(self, got, want):
    """'' when exact."""
    g = {k: got[k] for k in got.keys()}
    if set(g) != set(want):
      return 'has %s, stored are %s' % (sorted(g), sorted(want))
    for k, w in want.items():
      if k == 'image':
        a = np.asarray(g[k])
        if not any(a.shape == x.shape and (a == x).all() for x in w):
          return 'image is none of the stored views'
        continue
      a = np.asarray(g[k])
      if a.dtype != w.dtype:
        return '%s has type %s, %s is documented' % (k, a.dtype, w.dtype)
      if a.shape != w.shape:
        return '%s has shape %s, %s is stored' % (k, a.shape, w.shape)
      if a.tobytes() != w.tobytes():
        return '%s differs from the stored values' % k
    return ''

  def prefix(self, got, want):
    """A consistent beginning of the sample (raw scans without labels)."""
    n = len(got['points'])
    return all(len(got[k]) == n and got[k].tobytes() == want[k][:n].tobytes() for k in want)

  def child(self, plan, o, root, order, faults, cached):
    def fn():
      np.random.seed(7)
      real = np.random.randint
      np.random.randint = lambda lo, hi=None, *a, **k: real(0, 2) if (lo, hi) == (0, 24) else real(lo, hi, *a, **k)
      res = []
      store = {}
      if cached:
        from thsolver import Dataset
        try:
          ds = Dataset(o.flags.location, o.flags.filelist, o.transform, read_file=o.dataset.read_file, in_memory=True)
          store = dict(enumerate(ds.samples))
        except Exception as e:
          return [['raise', '%s: %s' % (type(e).__name__, str(e)[:120])]]
      for i in order:
        path = os.path.join(o.root, o.names[i])
        try:
          got = store[i] if cached else o.dataset.read_file(path)
          want = self.truth(plan, o, i)
          v = self.verdict(got, want)
          if v and plan['kind'] == 'kitti' and plan['nolabel'] and plan['damage'] and self.prefix(got, want):
            v = ''
          res.append(['wrong', v] if v else ['exact', ''])
        except Exception as e:
          res.append(['raise', '%s: %s' % (type(e).__name__, str(e)[:120])])
      return res
    return simio.run_in_child(fn, root, faults)

  def hurt(self, plan, o, i, ctx):
    """Damages the files of sample i; True when something was done."""
    d = plan['damage']
    kind = d['kind']
    ps = [p for p in datasets.paths(plan['kind'], o.root, o.names[i]) if os.path.exists(p)]
    main = ps[0]
    if kind.startswith('companion'):
      if len(ps) < 2:
        return False
      p = ps[1 + int(d['which'] * (len(ps) - 1))]
      size = os.path.getsize(p)
      if kind == 'companion-cut':
        os.truncate(p, int(d['at'] * size))
      elif kind == 'companion-more':
        if plan['kind'] != 'kitti':
          return False
        with open(p, 'ab') as f:
          f.write(b'\1\0\0\0' * (1 + int(d['at'] * 3)))
      else:
        if plan['kind'] == 'kitti':
          return False      # documented: a scan without labels
        os.remove(p)
      return True
    size = os.path.getsize(main)
    if kind == 'missing':
      os.remove(main)
    elif kind == 'empty':
      if not size:
        return False
      os.truncate(main, 0)
    elif kind == 'array':
      arr = {k: v for k, v in o.raw[i].items() if k != 'images'}
      gone = sorted(arr)[int(d['which'] * len(arr))]
      if plan['kind'] == 'kitti' or plan['kind'] == 'completion_npz' or plan['kind'] in ('ae_npz', 'image2shape_npz'):
        return False          # these readers hand over whatever arrays there are
      del arr[gone]
      if not arr:
        return False
      if main.endswith('.npz'):
        np.savez(main, **arr)
      else:
        datasets.write_ply(main, arr, plan['text'], 1 if plan['samples'][i].get('rich') else 0)
    else:
      if kind == 'cut':
        n = int(d['at'] * size)
      elif kind == 'cut-tail':
        n = size - 1 - int(d['at'] * min(40, size - 1))
      else:
        n = int(d['at'] * (size // 16)) * 16
      if plan['text'] and main.endswith('.ply'):
        # not inside the last line: there a cut can leave a valid file
        body = open(main, 'rb').read()
        last = body.rstrip(b'\n').rfind(b'\n')
        n = min(n, last)
      if n >= size:
        return False
      os.truncate(main, n)
    return True

  def execute(self, plan, ctx):
    kind = plan['kind']
    text = plan['text'] and not kind.endswith('_npz') and kind != 'kitti'
    plan = dict(plan, text=text)
    ctx.probe('kind:' + kind)
    if text:
      ctx.probe('text')
    if any(s.get('rich') for s in plan['samples']) and kind in datasets.RICH:
      ctx.probe('rich')
    specs = [dict(s, nolabel=True) if plan['nolabel'] else s for s in plan['samples']]
    if plan['nolabel'] and kind == 'kitti':
      ctx.probe('nolabel')
    o = datasets.open_(kind, ctx.scratch, specs, {'depth': 3, 'full': 1}, text)
    root = os.path.join(ctx.scratch, 'data')
    n = len(specs)
    order = [int(f * n) for f in plan['reads']]
    if plan['cached']:
      ctx.probe('cached')
    hurt = None
    if plan['damage']:
      i = int(plan['damage']['i'] * n)
      if self.hurt(plan, o, i, ctx):
        hurt = i
        ctx.probe('damage:' + plan['damage']['kind'])
        ctx.fault('damage:' + plan['damage']['kind'])
        ctx.nontrivial = True
        if hurt not in order:
          order.append(hurt)
    faults = []
    fired = False
    if plan['faults'] and hurt is None:
      b = self.child(plan, o, root, order, [], plan['cached'])
      faults = [simio.aim(f, b) for f in plan['faults']] if b['nrd'] else []
    r = self.child(plan, o, root, order, faults, plan['cached'])
    if faults:
      simio.count_fired(ctx, faults, r['fired'])
      fired = any(r['fired'])
      if fired:
        ctx.nontrivial = True
        ctx.probe('fault-err' if any(f['kind'].startswith('err') for f in faults) else 'fault-soft')
    elif hurt is None:
      ctx.probe('clean')
    ctx.count('steps', r['nrd'])
    ctx.log(kind, order, r['status'], [x[0] for x in r.get('value') or []])
    ctx.state((kind, text, str(plan['damage']), str([(f['kind'], f['at']) for f in faults])))
    what = '%s%s' % (kind, ' (text)' if text else '')
    if r['status'] != 'ok':
      raise Violation('process-died', '%s: reading ended the process (%s)' % (what, r.get('error') or r['status']))
    hard = fired and any(f['kind'].startswith('err') and k for f, k in zip(faults, r['fired']))
    vals = r['value']
    for k, (st, v) in enumerate(vals):
      i = order[k] if len(vals) == len(order) else None
      if st == 'wrong':
        how = 'with %s' % (plan['damage']['kind'] if hurt == i and hurt is not None else [(f['kind'], f['at']) for f in faults] or 'nothing injected')
        raise Violation('silently-wrong', '%s: sample %s read %s: %s' % (what, i, how, v))
      if st == 'raise':
        ctx.probe('refused')
        if (hurt is None or i is not None and i != hurt) and not hard:
          raise Violation('unexpected-error', '%s: sample %s cannot be read: %s (faults %s)' % (what, i, v, [(f['kind'], f['at']) for f in faults]))
      else:
        ctx.probe('exact')
        if hurt is not None and i == hurt and plan['damage']['kind'] in ('missing', 'array'):
          raise Violation('damage-accepted', '%s: sample %s is read although damaged (%s)' % (what, i, plan['damage']['kind']))
    rest = [i for i in range(n) if i != hurt]
    if rest and (fired or hurt is not None):
      ctx.probe('reread')
      q = self.child(plan, o, root, rest, [], False)
      for i, (st, v) in zip(rest, q.get('value') or [['raise', q.get('error')]] * len(rest)):
        if st != 'exact':
          raise Violation('reread', '%s: sample %d read again afterwards: %s %s' % (what, i, st, v))


PROP = P()
