"""C19: a successful save is a complete and faithful file."""
import copy
import os

import numpy as np

from sim import gen, simio, snap, threads
from sim.core import REPO, Prop, Violation

FORMATS = ('npz', 'xyz', 'ply', 'ply-text')
NAMES = ['a', 'b c', 'x.y', 'p-ü', 'deep']


class Rejected(Exception):
  pass


def saver():
  """projects/tools/utils.py of the working tree."""
  import importlib.util
  p = os.path.join(REPO, 'projects', 'tools', 'utils.py')
  spec = importlib.util.spec_from_file_location('sim_tools_utils', p)
  m = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(m)
  return m


class P(Prop):
  id = 'C19'
  runs = {'quick': 2200, 'thorough': 90000}
  soft_s = {'quick': 45, 'thorough': 2700}
  shrink_lists = ('saves', 'switches')
  shrink_min = {'saves': 1}
  rule = ('a run is a history of 1-4 saves (Points.save to npz or xyz, save_points_to_ply binary or text) of seeded clouds with a seeded selection of '
          'attributes onto 1-2 paths, each undisturbed, with failing, short or interrupted writes, on a full disk or killed at a seeded call, checked by '
          'reading back after every save and overwritten cleanly at the end; or 2-3 interleaved savers creating the same folder; non-trivial when a fault '
          'fired or the savers interleaved')
  distinct_measure = 'distinct (format, attributes, path form, fault kind and call or taken switches) tuples'
  real = ['ocnn.octree.Points.save', 'projects/tools/utils.save_points_to_ply', 'numpy, plyfile writers and readers']
  stubs = ['file-system calls (LD_PRELOAD seam that counts and injects faults)']
  assumptions = ['process crash, not power loss', 'text formats cut by a crash cannot always be told from shorter clouds',
                 'class labels and colours of ply files fit one byte']
  required_probes = ('ok', 'reported', 'crash', 'crash-torn', 'overwrite', 'soft', 'full-disk', 'switched', 'bare-name', 'new-folder', 'subset', 'order',
                     'flat-labels', 'batch-id', 'strided', 'empty', 'special') + tuple('fmt:' + f for f in FORMATS)

  def prepare(self, base):
    import plyfile  # noqa
    import torch  # noqa
    import ocnn  # noqa
    os.environ.setdefault('SIM_SO', simio.build())
    self.mod = saver()

  def save_spec(self, rng, fmt, faulty):
    c = gen.cloud_spec(rng, 1, 50)
    if rng.chance(0.08) and fmt != 'ply-text':
      c['n'] = 0
    if rng.chance(0.1):
      c['n'] = rng.randint(300, 900)
    letters = [k for k in 'PNFLB' if rng.chance(0.7)] or ['P']
    rng.shuffle(letters)
    s = {'cloud': c, 'path': rng.randint(0, 1), 'has': [k for k in 'NFLB' if rng.chance(0.7)], 'info': ''.join(letters) if rng.chance(0.8) else 'PNFL',
         'lower': rng.chance(0.15), 'flat': rng.chance(0.3), 'strided': rng.chance(0.3), 'ints': rng.chance(0.3), 'nfeat': rng.choice([1, 3, 5]),
         'special': rng.chance(0.3), 'fault': None}
    if faulty and rng.chance(0.6):
      kind = rng.choice(['err', 'err-from', 'short', 'eintr', 'crash-before', 'crash-partial', 'crash-after', 'crash-partial'])
      s['fault'] = {'cls': 'mut', 'kind': kind, 'frac': rng.random(), 'where': rng.choice(['any', 'any', 'risky']),
                    'arg': rng.choice(['EIO', 'ENOSPC', 'EDQUOT']), 'count': rng.choice([1, 1000])}
    return s

  def gen(self, rng, idx, tier):
    fmt = rng.choice(FORMATS)
    mode = 'race' if rng.chance(0.2) else 'history'
    n = rng.choice([2, 3]) if mode == 'race' else rng.choice([1, 2, 2, 3, 4])
    saves = [self.save_spec(rng, fmt, mode == 'history') for _ in range(n)]
    folder = rng.choice(['', '', 'new', 'new/er', 'old', 'x.d/y'])
    if mode == 'race':
      fmt = rng.choice(['ply', 'ply', 'ply-text', 'npz', 'xyz'])
      folder = rng.choice(['new', 'new/er', 'new/er/est'])
    return {'mode': mode, 'fmt': fmt, 'saves': saves, 'folder': folder, 'names': [rng.choice(NAMES) + str(i) for i in range(2)],
            'relative': rng.chance(0.5), 'switches': [[rng.random(), rng.randint(0, 2), rng.choice(['io', 'io', 'line'])] for _ in range(rng.randint(1, 6))]
            if mode == 'race' else []}

  def simplify(self, plan):
    for i, s in enumerate(plan['saves']):
      for k, v in (('fault', None), ('strided', False), ('flat', False), ('special', False), ('lower', False), ('ints', False), ('info', 'PNFL'), ('has', [])):
        if s[k] != v:
          p = copy.deepcopy(plan)
          p['saves'][i][k] = v
          yield p
      if s['cloud']['n'] > 2:
        p = copy.deepcopy(plan)
        p['saves'][i]['cloud']['n'] = s['cloud']['n'] // 2
        yield p

  # ---------------------------------------------------------------------
  def arrays(self, s):
    """The attributes of the cloud of a save: letter -> numpy array."""
    c = s['cloud']
    n = c['n']
    r = np.random.RandomState(c['seed'] % (2 ** 31))
    pts = gen.cloud(dict(c, n=max(n, 1)))[:n]
    a = {'P': pts}
    nf = r.randn(n, 3).astype(np.float32)
    ft = r.randint(0, 256, (n, s['nfeat'])) if s['ints'] else r.randn(n, s['nfeat']).astype(np.float32)
    if s['special'] and n:
      # whatever sensors and networks leave behind: no number, infinities, extremes
      for t in (pts, nf, ft):
        if t.dtype == np.float32:
          q = np.random.RandomState(c['seed'] % (2 ** 31) ^ 5)
          at = q.randint(0, t.size, max(1, t.size // 10))
          t.reshape(-1)[at] = q.choice([np.nan, np.inf, -np.inf, -0.0, 3e38, -1e20, 1e-40, 123456789.0], len(at)).astype(np.float32)
    lb = r.randint(0, 200, (n, 1))
    lb = lb.astype(np.int64 if s['ints'] else np.float32)
    if 'N' in s['has']:
      a['N'] = nf
    if 'F' in s['has']:
      a['F'] = ft
    if 'L' in s['has']:
      a['L'] = lb
    if 'B' in s['has']:
      a['B'] = np.sort(r.randint(0, 3, (n, 1)), 0).astype(np.int64)
    return a

  def job(self, plan, s, path):
    """(function that saves, what reading the file back has to give)."""
    import torch
    import ocnn
    a = self.arrays(s)
    if plan['fmt'] in ('npz', 'xyz'):
      t = {}
      for k, v in a.items():
        v = torch.from_numpy(v.copy())
        if s['strided']:
          v = torch.stack([v, v + 1], 2)[:, :, 0]
        if s['flat'] and k in 'LB':
          v = v[:, 0]
        t[k] = v
      p = ocnn.octree.Points(t['P'], t.get('N'), t.get('F'), t.get('L'), t.get('B'), batch_size=3)
      info = s['info'].lower() if s['lower'] else s['info']
      want = [(k, a[k]) for k in s['info'] if k in a]

      def fn():
        before = snap.points(p)
        p.save(path, info)
        d = snap.diff(before, snap.points(p))
        return d
      return fn, want
    pos = a['P'] if not s['strided'] else a['P'].astype(np.float64)
    kw = {}
    if 'N' in a:
      kw['normals'] = a['N']
    if 'F' in a:
      r = np.random.RandomState(s['cloud']['seed'] % (2 ** 31) ^ 77)
      kw['colors'] = r.randint(0, 256, (len(pos), 3)).astype(np.uint8 if s['ints'] else np.float32)
    if 'L' in a:
      kw['labels'] = a['L']
    want = [('P', pos.astype(np.float32))] + [(k, kw[n]) for k, n in (('N', 'normals'), ('F', 'colors'), ('L', 'labels')) if n in kw]
    mod = self.mod

    def fn():
      before = snap.any_([pos, kw])
      mod.save_points_to_ply(path, pos, text=plan['fmt'] == 'ply-text', **kw)
      return snap.diff(before, snap.any_([pos, kw]))
    return fn, want

  def read(self, plan, path, want):
    """'' when the file holds exactly `want`, else what is wrong; Rejected when
    readers refuse it."""
    fmt = plan['fmt']
    full = {'P': 'points', 'N': 'normals', 'F': 'features', 'L': 'labels', 'B': 'batch_id'}
    if fmt == 'npz':
      try:
        with np.load(path) as z:
          got = {k: z[k] for k in z.files}
      except Exception as e:
        raise Rejected('%s: %s' % (type(e).__name__, e))
      exp = {full[k]: v for k, v in want}
      if set(got) != set(exp):
        return 'holds %s, saved were %s' % (sorted(got), sorted(exp))
      for k, v in exp.items():
        g = got[k]
        if g.shape[0] != len(v) or g.size != v.size or g.dtype != v.dtype or g.tobytes() != v.tobytes():
          return '%s %s %s differ from the saved %s %s' % (k, g.dtype, g.shape, v.dtype, v.shape)
      return ''
    if fmt == 'xyz':
      try:
        rows = [[float(x) for x in l.split()] for l in open(path).read().split('\n') if l.strip()]
      except (OSError, ValueError) as e:
        raise Rejected(str(e))
      exp = np.concatenate([v.astype(np.float64) for _, v in want], 1)
      if len(rows) != len(exp):
        return 'holds %d rows, %d points were saved' % (len(rows), len(exp))
      if any(len(r) != exp.shape[1] for r in rows):
        return 'has rows of %s columns, %d were saved' % (sorted({len(r) for r in rows}), exp.shape[1])
      if len(exp) and not np.allclose(np.array(rows), exp, rtol=1e-12, atol=6e-7, equal_nan=True):
        return 'values differ from the saved ones'
      return ''
    from plyfile import PlyData
    try:
      v = PlyData.read(path)['vertex'].data
      v = {k: np.array(v[k]) for k in v.dtype.names}
    except Exception as e:
      raise Rejected('%s: %s' % (type(e).__name__, e))
    names = {'P': ['x', 'y', 'z'], 'N': ['nx', 'ny', 'nz'], 'F': ['red', 'green', 'blue'], 'L': ['label']}
    exp = {}
    for k, w in want:
      for j, nm in enumerate(names[k]):
        exp[nm] = w[:, j]
    if set(v) != set(exp):
      return 'holds %s, saved were %s' % (sorted(v), sorted(exp))
    for k, w in exp.items():
      if v[k].shape != w.shape:
        return '%s has %d values, %d were saved' % (k, len(v[k]), len(w))
      if not np.array_equal(v[k].astype(np.float64), w.astype(np.float64), equal_nan=True):
        if fmt == 'ply-text' and np.allclose(v[k].astype(np.float64), w.astype(np.float64), rtol=1e-6, atol=1e-6, equal_nan=True):
          continue
        return '%s differs from the saved values' % k
    return ''

  def execute(self, plan, ctx):
    fmt = plan['fmt']
    ctx.probe('fmt:' + fmt)
    root = os.path.join(ctx.scratch, 'out')
    os.makedirs(root)
    folder = plan['folder']
    if fmt in ('npz', 'xyz') or folder == 'old':
      os.makedirs(os.path.join(root, folder), exist_ok=True)
    elif folder:
      ctx.probe('new-folder')
    os.chdir(root)
    ext = '.' + fmt.split('-')[0]
    paths = [os.path.join('' if plan['relative'] else root, folder, n + ext) for n in plan['names']]
    if plan['relative'] and not folder:
      ctx.probe('bare-name')
    for s in plan['saves']:
      for k, p in (('flat', 'flat-labels'), ('strided', 'strided'), ('special', 'special')):
        if s[k]:
          ctx.probe(p)
      if s['cloud']['n'] == 0:
        ctx.probe('empty')
      if fmt in ('npz', 'xyz'):
        if 'B' in s['info'] and 'B' in s['has']:
          ctx.probe('batch-id')
        if set(s['info']) < set('PNFLB'):
          ctx.probe('subset')
        if s['info'] not in 'PNFLB':
          ctx.probe('order')
    getattr(self, 'run_' + plan['mode'])(plan, root, paths, ctx)

  def usable(self, plan, s):
    """xyz needs at least one attribute."""
    if plan['fmt'] not in ('npz', 'xyz'):
      return True
    return any(k == 'P' or k in s['has'] for k in s['info'])

  def complete(self, plan, path, want, what):
    try:
      v = self.read(plan, path, want)
    except Rejected as e:
      raise Violation('unreadable', '%s: the file cannot be read back: %s' % (what, e))
    if v:
      raise Violation('unfaithful', '%s: the file %s' % (what, v))

  def run_history(self, plan, root, paths, ctx):
    state = {}       # path -> list of wants that may be there, plus flags
    probe = os.path.join(ctx.scratch, 'probe')
    os.makedirs(probe)
    todo = [s for s in plan['saves'] if self.usable(plan, s)]
    # undisturbed saves at the end
    last = {}
    for s in todo:
      last[s['path']] = s
    todo = todo + [dict(s, fault=None, again=True) for s in last.values() if s['fault']]
    for k, s in enumerate(todo):
      path = paths[s['path']]
      f = None
      what = 'save %d (%s)' % (k, plan['fmt'])
      if s['fault']:
        q = os.path.join(probe, 'f', os.path.basename(path))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        b = simio.run_in_child(self.job(plan, s, q)[0], probe, [])
        if b['status'] != 'ok':
          raise Violation('save-failed', '%s undisturbed: %s' % (what, b.get('error') or b['status']))
        f = simio.aim(s['fault'], b) if b['nmut'] else None
      fn, want = self.job(plan, s, path)
      known = state.get(path, [None])
      if known != [None]:
        ctx.probe('overwrite')
      if f is None:
        try:
          d = fn()
          r = {'status': 'ok', 'value': d, 'fired': []}
        except Exception as e:
          r = {'status': 'raise', 'error': '%s: %s' % (type(e).__name__, e), 'fired': []}
      else:
        r = simio.run_in_child(fn, root, [f])
        simio.count_fired(ctx, [f], r['fired'])
        what += ' with %s at file-system call %d of %d' % (f['kind'], f['at'], b['nmut'])
        if any(r['fired']):
          ctx.nontrivial = True
          if f['kind'] in ('short', 'eintr'):
            ctx.probe('soft')
          if f['kind'] == 'err-from' and f['arg'] == 'ENOSPC':
            ctx.probe('full-disk')
        ctx.count('steps', r['nmut'])
      ctx.log(k, plan['fmt'], f and (f['kind'], f['at']), r['status'])
      ctx.state((plan['fmt'], s['info'], str(s['has']), plan['folder'], plan['relative'], f and (f['kind'], f['at'])))
      if r['status'] == 'died':
        raise Violation('process-died', what)
      if r['status'] == 'ok':
        ctx.probe('ok')
        if r['value']:
          raise Violation('altered', '%s: saving changed %s of the cloud' % (what, r['value']))
        self.complete(plan, path, want, what)
        state[path] = [want]
        continue
      if r['status'] == 'raise':
        if not any(r['fired']):
          raise Violation('save-failed', '%s raises %s' % (what, r['error']))
        if f['kind'] in ('short', 'eintr'):
          raise Violation('save-failed', '%s: a short or interrupted write is not an error, yet %s' % (what, r['error']))
        ctx.probe('reported')
        state[path] = None
        continue
      ctx.probe('crash')
      if known is None or plan['fmt'] in ('xyz', 'ply-text'):
        state[path] = None
        continue
      if not os.path.exists(path):
        state[path] = known + [None]
        continue
      oks, why = [], []
      try:
        for w in known + [want]:
          if w is not None:
            v = self.read(plan, path, w)
            if not v:
              oks.append(w)
            why.append(v)
      except Rejected:
        ctx.probe('crash-torn')
        state[path] = None
        continue
      if not oks:
        raise Violation('torn-accepted', '%s: the process was killed and the file left behind is read as a complete one: it %s' % (what, why[-1]))
      state[path] = oks
    for path, st in state.items():
      if st and len(st) == 1 and st[0] is not None:
        self.complete(plan, path, st[0], 'at the end')

  def run_race(self, plan, root, paths, ctx):
    saves = [s for s in plan['saves'] if self.usable(plan, s)]
    if not saves:
      return
    base, ext = os.path.splitext(paths[0])
    threads.io_points()

    def jobs(where):
      return [self.job(plan, s, os.path.join(where, '%d%s' % (i, ext))) for i, s in enumerate(saves)]
    probe = os.path.join(ctx.scratch, 'probe')
    ply = plan['fmt'].startswith('ply')
    dirs = [os.path.join(d, plan['folder']) for d in (probe, root)]
    if not ply:
      for d in dirs:
        os.makedirs(d, exist_ok=True)
    first = threads.Scheduler([j[0] for j in jobs(dirs[0])], [], op_points=False, record=True)
    for t in first.run():
      if t.exc is not None:
        raise Violation('save-failed', 'savers one after another: %s: %s' % (type(t.exc).__name__, t.exc))
    sw, iosw = threads.place(plan['switches'], first.positions)
    js = jobs(dirs[1])
    sch = threads.Scheduler([j[0] for j in js], sw, op_points=False, iosw=iosw)
    for t in sch.run():
      if t.exc is not None:
        raise Violation('race', 'saver %d of %d: %s: %s (switches %s)' % (t.idx, len(js), type(t.exc).__name__, t.exc, sch.taken[-6:]))
      if t.result:
        raise Violation('altered', 'saver %d changed %s of its cloud' % (t.idx, t.result))
    if sch.taken:
      ctx.probe('switched')
      ctx.nontrivial = True
      ctx.fault('thread-switch', len(sch.taken))
    ctx.count('steps', sch.step)
    ctx.log('taken', sch.taken, sch.step)
    ctx.state((plan['fmt'], 'race', len(js), str(sch.taken)))
    for i, (_, want) in enumerate(js):
      self.complete(plan, os.path.join(dirs[1], '%d%s' % (i, ext)), want, 'interleaved save %d' % i)


PROP = P()
