"""C20: generated shapes are saved under their own names."""
import copy
import os

import numpy as np
import torch

from sim import datasets, gen, simio, solvers, threads
from sim.core import Prop, Violation, sut

KINDS = ('ae', 'ae_npz', 'image2shape', 'completion', 'completion_npz')


def same_rows(a, b, tol):
  """Multisets of rows equal to tol."""
  if a.shape != b.shape:
    return False
  if not len(a):
    return True
  from scipy.spatial import cKDTree
  left = cKDTree(b)
  d, j = left.query(a, p=np.inf)
  if d.max() > tol:
    return False
  if len(set(j.tolist())) == len(j):
    return True
  d, j = cKDTree(a).query(b, p=np.inf)      # repeated rows
  return d.max() <= tol


class P(Prop):
  id = 'C20'
  runs = {'quick': 900, 'thorough': 40000}
  soft_s = {'quick': 45, 'thorough': 2700}
  shrink_lists = ('samples', 'switches')
  shrink_min = {'samples': 1}
  rule = ('a run is a complete generation run (thsolver evaluation loop, real eval_step of the auto-encoder, completion or image-to-shape solver, real '
          'datasets) over 1-6 shapes, batches cut and ordered by the plan, on one rank, on 2-3 interleaved ranks sharing the folder, or with one '
          'file-system fault or crash followed by a rerun; non-trivial when a fault fired, ranks interleaved or a batch held several shapes')
  distinct_measure = 'distinct (dataset, mode, batch cut, names, emptiness, fault position or taken switches) tuples'
  real = ['projects/autoencoder.py, completion.py, image2shape.py (eval_step, octree2pts, get_dataset)', 'octree split and growth',
          'thsolver.Solver.evaluate / eval_epoch / DataLoader', 'datasets, transforms, collation', 'Points.save, np.savetxt, PIL writers']
  stubs = ['network (grows the voxel set determined by the content of the sample)', 'CUDA placement (identity)',
           'file-system calls (LD_PRELOAD seam that counts and injects faults)']
  assumptions = ['ranks generate disjoint samples', 'sample names differ', 'exact point sets are required only of batches in which something is generated '
                 '(the octree code forces one split otherwise)']
  required_probes = ('ranks', 'fault', 'crash', 'reported', 'rerun', 'plain', 'real-loader', 'empty', 'multi', 'switched', 'folders', 'dots', 'dot-folder',
                     'stale', 'several-passes') + tuple('kind:' + k for k in KINDS)

  def prepare(self, base):
    datasets.warm()
    solvers.warm()
    import completion  # noqa
    os.environ.setdefault('SIM_SO', simio.build())

  def gen(self, rng, idx, tier):
    n = rng.choice([1, 2, 3, 4, 5, 6])
    kind = rng.wchoice([('ae', 3), ('ae_npz', 1), ('image2shape', 2), ('completion', 1), ('completion_npz', 1)])
    mode = rng.choice(['plain', 'plain', 'ranks', 'fault', 'fault'])
    if mode == 'ranks':
      n = max(n, 2)
    nd = rng.choice([1, 2, 5])
    stem = rng.choice(['s%03d', 's%03d', 'x.%d', 'part.v%d.final'])
    samples = [dict(gen.cloud_spec(rng, 4, 30), views=24, stem=stem, dir=rng.choice(['a', 'b', 'a/c', 'd', 'v1.0/e'][:nd])) for _ in range(n)]
    if rng.chance(0.6):
      datasets.number(samples)
    E = rng.choice([1, 1, 1, 2])
    return {'kind': kind, 'mode': mode, 'samples': samples, 'passes': E, 'batch': rng.choice([1, 2, 3, n, n]),
            'real_loader': mode != 'ranks' and rng.chance(0.4), 'orders': [[rng.random() for _ in range(6)] for _ in range(E)],
            'empty': rng.choice([0.0, 0.3, 0.5]), 'seed': rng.seed31(), 'distort': rng.chance(0.3), 'stale': rng.chance(0.2),
            'ranks': rng.choice([2, 2, 3]), 'switches': [[rng.random(), rng.randrange(3), rng.choice(['io', 'io', 'line'])] for _ in range(rng.choice([1, 2, 3, 6, 24]))],
            'fault': {'cls': 'mut', 'kind': rng.choice(['crash-before', 'crash-after', 'crash-partial', 'err', 'err', 'err-from', 'short', 'eintr']),
                      'frac': rng.random(), 'arg': rng.choice(['ENOSPC', 'EIO', 'EDQUOT']), 'count': rng.choice([1, 1000])}}

  def simplify(self, plan):
    for k, v in (('mode', 'plain'), ('passes', 1), ('batch', 1), ('real_loader', False), ('distort', False), ('stale', False), ('empty', 0.0), ('kind', 'ae')):
      if plan[k] != v:
        p = copy.deepcopy(plan)
        p[k] = v
        yield p

  # ---------------------------------------------------------------------
  def passes(self, plan, members):
    out = []
    for o in plan['orders'][:plan['passes']]:
      idx = sorted(members, key=lambda i: (o[i % 6], i))
      B = max(1, plan['batch'])
      out.append([idx[k:k + B] for k in range(0, len(idx), B)])
    return out

  def solver(self, plan, o, logdir, members, log, batches):
    import autoencoder, completion, image2shape
    fg = o.flags.clone()
    fg.batch_size = max(1, plan['batch'])
    cls = {'ae': autoencoder.AutoEncoderSolver, 'image2shape': image2shape.Image2ShapeSolver,
           'completion': completion.CompletionSolver}[plan['kind'].replace('_npz', '')]
    s = cls(solvers.flags(fg, logdir, {'eval_epoch': plan['passes']}, {}, {'name': 'stub', 'feature': 'ND'}))
    s.get_model = lambda flags: solvers.StubGen(plan['seed'], 4, 2, plan['empty'])
    real_get = s.get_dataset

    def get_dataset(flags):
      d, c = real_get(flags)

      def collate(batch):
        batches.append([b['filename'] for b in batch])
        return c(batch)
      return solvers.RecorderGen(d, log), collate
    s.get_dataset = get_dataset
    if not plan['real_loader']:
      def config_dataloader(disable_train_data=False):
        d, c = s.get_dataset(s.FLAGS.DATA.test)
        s.test_loader = solvers.PlanLoader(d, c, self.passes(plan, members))
        s.test_iter = iter(s.test_loader)
      s.config_dataloader = config_dataloader
    return s

  def out_name(self, plan, name):
    return name[:-4] if plan['kind'].startswith('completion') else name

  def expected(self, plan, log, batches):
    """Per sample, from its last visit: generated points (None when its whole
    batch generated nothing), points or image handed out."""
    out, k = {}, 0
    for names in batches:
      rows = []
      for nm in names:
        rec = log[k]
        assert rec[0] == nm
        k += 1
        v = solvers.generated(rec[1], plan['seed'], 4, plan['empty'])
        rows.append((nm, v, rec))
      some = any(len(v) for _, v, _ in rows)
      for nm, v, rec in rows:
        pts = solvers.signal_points(v, rec[1], plan['seed'], 4) if some else None
        out[nm] = (pts, rec[2], rec[3])
    return out

  def load(self, path, what, name):
    try:
      with open(path) as f:
        lines = [l.split() for l in f.read().split('\n') if l.strip()]
      return np.array([[float(x) for x in l] for l in lines]) if lines else np.zeros([0, 6])
    except (ValueError, OSError) as e:
      raise Violation('damaged', '%s: %s of %s cannot be read: %s' % (what, os.path.basename(path)[-8:], name, e))

  def check(self, plan, o, logdir, exp, what, ctx):
    exts = ('.img.png', '.out.xyz') if plan['kind'].startswith('image2shape') else ('.in.xyz', '.out.xyz')
    want = {self.out_name(plan, n) + e for n in o.names for e in exts}
    have = {os.path.relpath(os.path.join(d, f), logdir) for d, _, fs in os.walk(logdir) for f in fs}
    have = {f for f in have if f.endswith('.xyz') or f.endswith('.png')}
    if have != want:
      raise Violation('names', '%s: missing %s, unexpected %s' % (what, sorted(want - have), sorted(have - want)))
    for n in o.names:
      pts, inp, img = exp[n]
      p = os.path.join(logdir, self.out_name(plan, n))
      got = self.load(p + '.out.xyz', what, n)
      if pts is not None:
        if len(got) != len(pts):
          raise Violation('points', '%s: %s holds %d points, %d were generated' % (what, n, len(got), len(pts)))
        if len(pts) and not (got.shape[1] == 6 and same_rows(got, pts, 3e-6)):
          raise Violation('points', '%s: %s does not hold the points generated for it' % (what, n))
        if not len(pts):
          ctx.probe('empty')
      if exts[0] == '.in.xyz':
        got = self.load(p + '.in.xyz', what, n)
        if len(got) != len(inp) or len(inp) and not same_rows(got, inp.astype(np.float64), 2e-6):
          raise Violation('input', '%s: %s.in.xyz does not hold the input of %s: %s %s' % (what, n, n, got[:3].tolist(), inp[:3].tolist()))
      else:
        from PIL import Image
        try:
          with Image.open(p + '.img.png') as im:
            a = np.asarray(im.convert('RGB')).astype(np.int64)
        except Exception as e:
          raise Violation('damaged', '%s: image of %s: %s' % (what, n, e))
        b = np.rint(img.transpose(1, 2, 0) * 255).astype(np.int64)
        if a.shape != b.shape or np.abs(a - b).max() > 1:
          raise Violation('image', '%s: the image saved for %s is not its input' % (what, n))

  def execute(self, plan, ctx):
    kind = plan['kind']
    ctx.probe('kind:' + kind)
    ctx.probe(plan['mode'])
    if plan['passes'] > 1:
      ctx.probe('several-passes')
    if len({s['dir'] for s in plan['samples']}) > 1:
      ctx.probe('folders')
    if '.' in plan['samples'][0].get('stem', ''):
      ctx.probe('dots')
    if any('.' in s['dir'] for s in plan['samples']):
      ctx.probe('dot-folder')
    if plan['real_loader']:
      ctx.probe('real-loader')
    if plan['batch'] > 1 and len(plan['samples']) > 1:
      ctx.probe('multi')
      ctx.nontrivial = True
    datasets.full_seed(plan['seed'])
    o = datasets.open_(kind, ctx.scratch, plan['samples'],
                       {'depth': 4, 'full': 2, 'distort': plan['distort'], 'scale': 0.2, 'jitter': 0.1, 'angle': (0, 90, 0), 'interval': (1, 1, 1)})
    logdir = os.path.join(ctx.scratch, 'logs')
    os.makedirs(logdir)
    if plan['stale']:
      ctx.probe('stale')
      p = os.path.join(logdir, self.out_name(plan, o.names[0]) + '.out.xyz')
      os.makedirs(os.path.dirname(p), exist_ok=True)
      with open(p, 'w') as f:
        f.write('9.0 9.0 9.0 1.0 0.0 0.0\n' * 100)
    getattr(self, 'run_' + plan['mode'])(plan, o, logdir, ctx)
    ctx.state((kind, plan['mode'], plan['passes'], plan['batch'], len(plan['samples']), plan['empty'], str(ctx.trace[-3:])))

  def note(self, log, ctx):
    for name, sig, pts, _ in log:
      ctx.log('visit', name, sig, len(pts))

  def run_plain(self, plan, o, logdir, ctx):
    log, batches = [], []
    with sut('generation'):
      self.solver(plan, o, logdir, list(range(len(o.names))), log, batches).evaluate()
    self.note(log, ctx)
    ctx.count('steps', len(log))
    self.check(plan, o, logdir, self.expected(plan, log, batches), 'generation', ctx)

  def run_ranks(self, plan, o, logdir, ctx):
    R = min(plan['ranks'], len(o.names))
    members = [list(range(r, len(o.names), R)) for r in range(R)]
    threads.io_points()
    probe = os.path.join(ctx.scratch, 'probe')
    os.makedirs(probe)
    datasets.full_seed(plan['seed'])
    first = threads.Scheduler([self.solver(plan, o, probe, m, [], []).evaluate for m in members], [], op_points=False, record=True)
    for t in first.run():
      if t.exc is not None:
        raise Violation('unexpected-error', 'generation alone: %s: %s' % (type(t.exc).__name__, t.exc))
    sw, iosw = threads.place(plan['switches'], first.positions)
    logs, bts = [[] for _ in range(R)], [[] for _ in range(R)]
    ss = [self.solver(plan, o, logdir, members[r], logs[r], bts[r]) for r in range(R)]
    datasets.full_seed(plan['seed'])
    sch = threads.Scheduler([s.evaluate for s in ss], sw, op_points=False, iosw=iosw)
    for t in sch.run():
      if t.exc is not None:
        raise Violation('rank-failed', 'rank %d of %d: %s: %s (switches %s)' % (t.idx, R, type(t.exc).__name__, t.exc, sch.taken[-6:]))
    if sch.taken:
      ctx.probe('switched')
      ctx.nontrivial = True
      ctx.fault('thread-switch', len(sch.taken))
    ctx.count('steps', sch.step)
    ctx.log('taken', sch.taken, sch.step)
    exp = {}
    for l, b in zip(logs, bts):
      self.note(l, ctx)
      exp.update(self.expected(plan, l, b))
    self.check(plan, o, logdir, exp, '%d ranks' % R, ctx)

  def child(self, plan, o, logdir, faults, seed):
    def fn():
      datasets.full_seed(seed)
      log, batches = [], []
      self.solver(plan, o, logdir, list(range(len(o.names))), log, batches).evaluate()
      e = self.expected(plan, log, batches)
      return {k: [None if v is None else v.tolist() for v in t] for k, t in e.items()}
    return simio.run_in_child(fn, logdir, faults)

  def judge(self, plan, o, logdir, r, what, ctx):
    exp = {k: [None if v is None else np.array(v) if j else np.array(v).reshape(-1, 6) for j, v in enumerate(t)] for k, t in r['value'].items()}
    self.check(plan, o, logdir, exp, what, ctx)

  def run_fault(self, plan, o, logdir, ctx):
    probe = os.path.join(ctx.scratch, 'probe')
    os.makedirs(probe)
    r0 = self.child(plan, o, probe, [], plan['seed'])
    if r0['status'] != 'ok':
      raise Violation('unexpected-error', 'generation: %s' % (r0.get('error') or r0['status']))
    f = dict(plan['fault'])
    if f['kind'] not in ('err', 'err-from'):
      f['arg'] = 0
    f['at'] = min(r0['nmut'] - 1, int(f.pop('frac') * r0['nmut']))
    r1 = self.child(plan, o, logdir, [f], plan['seed'])
    simio.count_fired(ctx, [f], r1['fired'])
    ctx.log('fault', f['kind'], f['at'], r0['nmut'], r1['status'])
    ctx.count('steps', r1['nmut'])
    if any(r1['fired']):
      ctx.nontrivial = True
    at = '%s at file-system call %d of %d' % (f['kind'], f['at'], r0['nmut'])
    if r1['status'] == 'died':
      raise Violation('process-died', 'generation with ' + at)
    if r1['status'] == 'ok':
      self.judge(plan, o, logdir, r1, 'generation that reports success after ' + at, ctx)
      return
    if r1['status'] == 'crash':
      ctx.probe('crash')
    else:
      ctx.probe('reported')
      if not any(r1['fired']):
        raise Violation('unexpected-error', 'generation: %s' % r1['error'])
    ctx.probe('rerun')
    r2 = self.child(plan, o, logdir, [], plan['seed'] + 1)
    if r2['status'] != 'ok':
      raise Violation('rerun-failed', 'after %s the generation cannot be run again: %s' % (at, r2.get('error') or r2['status']))
    self.judge(plan, o, logdir, r2, 'rerun after ' + at, ctx)


PROP = P()
