"""C24: testing observes training without disturbing it."""
import contextlib
import copy
import io
import os
import zlib

import numpy as np
import torch

from sim import datasets, faults, gen, simio, solvers, threads
from sim.core import Prop, Violation
from sim.refmodel import voxels
from sim.torchseam import INJECTED, KINDS, OpSeam

DATA = {'cls': ['modelnet', 'modelnet_npz'], 'seg': ['seg_shapenet', 'scannet', 'kitti'], 'ae': ['ae', 'ae_npz'], 'completion': ['completion', 'completion_npz'],
        'i2s': ['image2shape']}
SEGNAME = {'seg_shapenet': 'shapenet', 'scannet': 'scannet', 'kitti': 'kitti'}
RECON = ('ae', 'completion', 'i2s')


def val(t):
  t = t.detach().contiguous()
  return '%08x' % zlib.crc32(t.numpy().tobytes()) + str(tuple(t.shape))


class PerSample(torch.utils.data.Dataset):
  """The real dataset with the draws of a sample seeded by its number."""

  def __init__(self, d, seed):
    self.d, self.seed = d, seed

  def __len__(self):
    return len(self.d)

  def __getitem__(self, i):
    datasets.full_seed((self.seed + 31 * i) % (2 ** 31))
    return self.d[i]


class Loader:
  def __init__(self, dataset, collate, batches):
    self.dataset, self.collate, self.batches = dataset, collate, batches

  def __len__(self):
    return len(self.batches)

  def __iter__(self):
    for b in self.batches:
      yield self.collate([self.dataset[i] for i in b])


class P(Prop):
  id = 'C24'
  runs = {'quick': 300, 'thorough': 20000}
  soft_s = {'quick': 100, 'thorough': 2700}
  run_timeout = 240
  shrink_lists = ('events',)
  shrink_min = {'events': 1}
  rule = ('a run trains a real solver (classification, segmentation, autoencoder, completion, image to shape) on a real dataset for 2-4 epochs with the '
          'training loop of thsolver, once undisturbed and once with 1-6 test and evaluation passes between epochs, some of them failing at a seeded '
          'tensor operation or source line; weights, statistics, optimiser state and losses are compared bit by bit after every epoch, and every reported '
          'score with one computed from the saved weights in a new process, from samples alone (classification) or node by node (reconstruction); '
          'non-trivial when a pass lies before an epoch of training')
  distinct_measure = 'distinct (program, dataset, network, order of epochs and passes, fault sites) tuples'
  real = ['projects/classification.py, segmentation.py, autoencoder.py, completion.py, image2shape.py (solvers)', 'thsolver.Solver train_epoch, test_epoch, '
          'eval_epoch, config_optimizer', 'ocnn.models LeNet, ResNet, HRNet, SegNet, UNet, AutoEncoder, OUNet, Image2Shape', 'datasets, transforms, collation']
  stubs = ['CUDA placement (identity)', 'data loader (batches of the plan)', 'tensor operations (seam that fails one)']
  assumptions = ['the caller seeds the generators before each epoch', 'one thread of CPU arithmetic, so that training is equal bit by bit',
                 'accuracies are compared up to the number of near ties (two scores closer than 1e-4)']
  required_probes = ('test', 'eval', 'test-failed', 'test-before-training', 'test-after-failure', 'scored', 'near-exact', 'changed', 'several-batches') + tuple(
      'kind:' + k for k in DATA)

  def prepare(self, base):
    datasets.warm()
    solvers.warm()
    os.environ.setdefault('SIM_SO', simio.build())
    torch.optim.AdamW([torch.nn.Parameter(torch.zeros(1))])

  def gen(self, rng, idx, tier):
    kind = rng.wchoice([('cls', 4), ('seg', 4), ('ae', 3), ('completion', 1.2), ('i2s', 0.5)])
    if idx < 5:
      kind = list(DATA)[idx]
    big = kind in ('completion', 'i2s')
    D, F = (rng.choice([3, 4]), 2) if kind in RECON else (rng.choice([4, 5]), 2)
    if kind == 'completion':
      D = 3
    model = {'cls': rng.wchoice([('lenet', 5), ('resnet', 4), ('hrnet', 1)]), 'seg': rng.wchoice([('segnet', 9), ('unet', 1)])}.get(kind, kind)
    if model == 'unet':
      D = 5
    n = 2 if big else rng.choice([2, 3, 4, 4, 6])
    nt = 2 if big else rng.choice([1, 2, 4, 4, 6])
    E = 2 if big else rng.choice([2, 3, 4])
    events = [{'do': 'train'} for _ in range(E)]
    for _ in range(rng.choice([1, 2, 3] if big else [1, 2, 3, 4, 6])):
      B = rng.choice([b for b in range(1, nt + 1) if nt % b == 0])
      events.insert(rng.randint(0, len(events)), {
          'do': 'eval' if kind != 'cls' and rng.chance(0.3) else 'test', 'batch': B, 'order': rng.sample(range(nt), nt), 'fault': faults.gen_fault(rng) if rng.chance(0.35) else None})
    hi = 40 if big else rng.choice([40, 40, 160])
    bt = rng.choice([b for b in range(2, n + 1) if n % b == 0])
    return {'kind': kind, 'data': rng.choice(DATA[kind]), 'model': model, 'depth': D, 'full': F, 'train': [gen.cloud_spec(rng, 12, hi) for _ in range(n)],
            'test': [gen.cloud_spec(rng, 4, hi) for _ in range(nt)], 'events': events, 'bt': bt, 'opt': rng.choice(['sgd', 'adam', 'adamw']),
            'nempty': rng.chance(0.5), 'feature': rng.choice(['ND', 'L', 'P', 'N']), 'clip': rng.choice([-1.0, -1.0, 0.1]),
            'distort': rng.chance(0.5), 'in_memory': rng.chance(0.5), 'mask': rng.choice([-1, 0]), 'seed': rng.seed31()}

  def simplify(self, plan):
    for i, e in enumerate(plan['events']):
      if e.get('fault'):
        p = copy.deepcopy(plan)
        p['events'][i]['fault'] = None
        yield p
    for k, v in (('opt', 'sgd'), ('distort', False), ('in_memory', False), ('nempty', False), ('clip', -1.0)):
      if plan[k] != v:
        p = copy.deepcopy(plan)
        p[k] = v
        yield p

  # ----------------------------------------------------------------------
  def solver(self, plan, scratch, salt):
    import autoencoder, classification, completion, image2shape, segmentation
    kind, D, F = plan['kind'], plan['depth'], plan['full']
    cfg = {'depth': D, 'full': F, 'distort': plan['distort'], 'angle': [0, 5, 0], 'interval': [1, 1, 1], 'scale': 0.25, 'uniform': False, 'jitter': 0.125,
           'in_memory': plan['in_memory'], 'flip': [0.5, 0.0, 0.0]}
    tr = datasets.open_(plan['data'], os.path.join(scratch, 'train'), plan['train'], cfg)
    te = datasets.open_(plan['data'], os.path.join(scratch, 'test'), plan['test'], dict(cfg, distort=False))
    fg = tr.flags.clone()
    fg.name = SEGNAME.get(plan['data'], plan['data'])
    chan = {'ND': 4, 'L': 3, 'P': 3, 'N': 3}
    nout = {'cls': 7, 'seg': 21}.get(kind, 4)
    feat = plan['feature']
    if kind == 'seg':
      feat = 'P'
    if kind == 'completion':        # its input has no normals
      feat = 'LP'[plan['seed'] % 2]
    m = {'name': plan['model'], 'feature': feat, 'channel': chan[feat], 'nempty': plan['nempty'], 'nout': nout, 'channel_out': 4, 'depth': D, 'full_depth': F,
         'stages': min(2, D - 2) if plan['model'] in ('lenet', 'segnet') else 2, 'resblock_num': 1, 'interp': 'linear', 'sync_bn': False,
         'find_unused_parameters': False}
    if plan['model'] == 'lenet':
      m['stages'] = D - 2
    fl = solvers.flags(fg, os.path.join(scratch, 'logs'),
                       {'run': 'train', 'type': plan['opt'], 'lr': 0.002, 'clip_grad': plan['clip'], 'log_per_iter': -1, 'eval_epoch': 1, 'eval_step': -1},
                       {'mask': plan['mask'], 'num_class': nout}, m)
    cls = {'cls': classification.ClsSolver, 'seg': segmentation.SegSolver, 'ae': autoencoder.AutoEncoderSolver, 'completion': completion.CompletionSolver,
           'i2s': image2shape.Image2ShapeSolver}[kind]

    class S(cls):
      def save_best_checkpoint(self, tracker, epoch):
        self.report = tracker.average()
    s = S(fl)
    datasets.full_seed((plan['seed'] ^ salt) % (2 ** 31))
    s.model = s.get_model(fl.MODEL)
    s.config_optimizer()
    os.makedirs(os.path.join(scratch, 'logs'), exist_ok=True)
    s.logdir = os.path.join(scratch, 'logs')
    s.log_file = os.path.join(scratch, 'logs', 'log.csv')
    n = len(plan['train'])
    order = np.random.RandomState(plan['seed'] % (2 ** 31)).permutation(n).tolist()

    def fix(d):
      # labels below the number of classes
      if kind != 'cls':
        return d

      class Few(torch.utils.data.Dataset):
        def __len__(self):
          return len(d)

        def __getitem__(self, i):
          r = d[i]
          r['label'] = int(r['label']) % nout
          return r
      return Few()
    s.train_loader = Loader(fix(tr.dataset), tr.collate, [order[i:i + plan['bt']] for i in range(0, n, plan['bt'])])
    s.test_data, s.test_collate = PerSample(fix(te.dataset), plan['seed']), te.collate
    return s

  def life(self, plan, scratch, observe):
    """One training process. Returns observations per epoch and per pass."""
    os.makedirs(scratch, exist_ok=True)
    s = self.solver(plan, scratch, 0)
    out, ep, last = [], 0, {'test': [400, 900], 'eval': [400, 900]}
    for i, e in enumerate(plan['events']):
      if e['do'] == 'train':
        ep += 1
        datasets.full_seed((plan['seed'] + 1009 * ep) % (2 ** 31))
        s.train_iter = iter(s.train_loader)
        o = {}
        losses = []
        real = type(s).train_step

        def step(batch):
          r = real(s, batch)
          losses.append({k: val(v) for k, v in r.items()})
          return r
        s.train_step = step
        try:
          with contextlib.redirect_stdout(io.StringIO()):
            s.train_epoch(ep)
        except ValueError as x:        # statistics of a single row: documented by torch
          if 'more than 1 value per channel' not in str(x):
            raise
          losses.append('single row')
        finally:
          del s.train_step
        o['losses'] = losses
        for n, t in s.model.state_dict().items():
          o['state ' + n] = val(t)
        for n, st in enumerate(s.optimizer.state_dict()['state'].values()):
          for k, v in st.items():
            o['optimiser %d %s' % (n, k)] = val(v) if isinstance(v, torch.Tensor) else v
        out.append({'event': i, 'epoch': ep, 'obs': o})
      elif observe:
        o = e['order']
        s.test_loader = Loader(s.test_data, s.test_collate, [o[k:k + e['batch']] for k in range(0, len(o), e['batch'])])
        s.test_iter = iter(s.test_loader)
        go = (lambda: s.test_epoch(ep)) if e['do'] == 'test' else (lambda: s.eval_epoch(0))
        f = e['fault']
        rec = {'event': i, 'site': None, 'report': None}
        kind = f['where'] if f else 'op'
        at = [int(f['frac'] * last[e['do']][kind == 'line'])] if f else []
        seam = OpSeam(fail_at=at, kind=f['kind'] if f else 'oom') if kind == 'op' else threads.LineFaults(fail_at=at, exc=KINDS[f['kind']])
        s.report = None
        s.eval_rst = dict()
        err = None
        try:
          with contextlib.redirect_stdout(io.StringIO()):
            with seam:
              go()
        except INJECTED as x:
          if not seam.fired:
            raise
        except Exception:
          if not seam.fired:
            raise
        if seam.fired:
          rec['site'] = seam.fired[0][1]
        else:
          last[e['do']][kind == 'line'] = seam.n
          rec['report'] = s.report
          if e['do'] == 'test':
            rec['weights'] = os.path.join(scratch, 'w%d.pth' % i)
            torch.save(s.model.state_dict(), rec['weights'])
        out.append(rec)
    return out

  # ----------------------------------------------------------------------
  def score(self, plan, scratch, event, weights):
    """The scores of saved weights: {name: (value, tolerance)}."""
    os.makedirs(scratch, exist_ok=True)
    s = self.solver(plan, scratch, 77)
    s.model.load_state_dict(torch.load(weights))
    s.model.eval()
    kind, e = plan['kind'], plan['events'][event]
    if kind == 'cls':
      groups = [[[i] for i in range(len(plan['test']))]]      # one mean over the samples, each alone
    else:
      o = e['order']
      groups = [[sorted(o[k:k + e['batch']])] for k in range(0, len(o), e['batch'])]
    acc = {}
    for g in groups:
      part = {}
      for ids in g:
        with torch.no_grad():
          for k, v in self.terms(plan, s, s.test_collate([s.test_data[i] for i in ids])).items():
            part.setdefault(k, []).append(v)
      for k, v in part.items():
        acc.setdefault(k, []).append(np.concatenate(v).mean(axis=0))
    out = {}
    for k, v in acc.items():
      v = np.stack(v).mean(axis=0)
      out['test/' + k] = (float(v[0]), float(v[1]))
    if kind in RECON:
      ls = [k for k in out if 'loss' in k]
      out['test/loss'] = (sum(out[k][0] for k in ls), 0.0)
    return out

  def terms(self, plan, s, batch):
    """Rows of [value, near tie] to be averaged."""
    kind = plan['kind']

    def ce(lg, lab):
      lg = lg.double().numpy()
      m = lg.max(1, keepdims=True)
      lp = lg - m - np.log(np.exp(lg - m).sum(1, keepdims=True))
      top = np.sort(lg, axis=1)
      scale = 1 + np.abs(lg).max()
      near = (top[:, -1] - top[:, -2] < 1e-4 * scale).astype(float)
      return (np.stack([-lp[np.arange(len(lab)), lab], np.zeros(len(lab))], 1),
              np.stack([(lg.argmax(1) == lab).astype(float), near], 1))
    if kind == 'cls':
      octree = batch['octree']
      lg = s.model(octree.get_input_feature(plan['feature'], plan['nempty']), octree, octree.depth)
      l, a = ce(lg, np.asarray(batch['label']).reshape(-1).astype(int))
      return {'loss': l, 'accu': a}
    if kind == 'seg':
      b = s.process_batch(batch, s.FLAGS.DATA.test)
      lg = s.get_logit(b)
      lab = b['points'].labels.numpy().reshape(-1).astype(int)
      keep = lab > plan['mask']
      if not keep.any():
        return {}
      l, a = ce(lg[torch.from_numpy(keep)], lab[keep])
      return {'loss': l, 'accu': a}
    gt = batch['octree_gt'] if kind == 'completion' else batch['octree']
    pts = batch['points_gt'] if kind == 'completion' else batch['points']
    if kind == 'completion':
      r = s.model(batch['octree'], gt, update_octree=False)
    elif kind == 'i2s':
      r = s.model(batch['image'], gt, update_octree=False)
    else:
      r = s.model(gt, update_octree=False)
    xyz = np.concatenate([p.points.numpy() for p in pts])
    bid = np.concatenate([np.full(len(p.points), i, np.int64) for i, p in enumerate(pts)])
    out = {}
    for d, lg in r['logits'].items():
      full = {tuple(v) for v in voxels(xyz, bid, d).tolist()}
      x, y, z, b = (t.tolist() for t in gt.xyzb(d))
      lab = np.array([(k, i, j, l) in full for k, i, j, l in zip(b, x, y, z)], int)
      out['loss_%d' % d], out['accu_%d' % d] = ce(lg, lab)
    sig = gt.get_input_feature('ND', nempty=True).double().numpy()
    e = ((sig - r['signal'].double().numpy()) ** 2).sum(1)
    out['loss_reg'] = np.stack([e, np.zeros(len(e))], 1)
    return out

  # ----------------------------------------------------------------------
  def process(self, plan, ctx, what, fn):
    r = simio.run_in_child(fn, ctx.scratch, [])
    if r['status'] == 'raise':
      raise Violation('unexpected-error', '%s: %s: %s\n%s' % (plan['kind'], what, r['error'], r['tb'][-800:]))
    if r['status'] != 'ok':
      raise Violation('process-died', '%s: %s ended with %s' % (plan['kind'], what, r['status']))
    return r['value']

  def execute(self, plan, ctx):
    kind = plan['kind']
    ctx.probe('kind:' + kind)
    base = os.path.join(ctx.scratch, 'x')
    want = self.process(plan, ctx, 'training', lambda: self.life(plan, base + '/a', False))
    got = self.process(plan, ctx, 'training with test passes', lambda: self.life(plan, base + '/b', True))
    want = {r['epoch']: r['obs'] for r in want}
    failed = seen = False
    sites = []
    ctx.log(kind, plan['model'])
    if len(want) > 1 and any(want[1][k] != want[2][k] for k in want[1] if k.startswith('state ') and 'num_batches' not in k):
      ctx.probe('changed')
    for r in got:
      e = plan['events'][r['event']]
      ctx.count('steps')
      if e['do'] == 'train':
        o, w = r['obs'], want[r['epoch']]
        if o != w:
          bad = sorted(k for k in set(o) | set(w) if o.get(k) != w.get(k))
          before = [x['do'] + (' (failed)' if x.get('fault') else '') for x in plan['events'][:r['event']]]
          raise Violation('disturbed', '%s %s: epoch %d after %s differs from training without test passes in %s' % (
              kind, plan['model'], r['epoch'], before, bad[:4]))
        if seen:
          ctx.nontrivial = True
        ctx.log('epoch', r['epoch'], str(o['losses']))
        continue
      seen = True
      ctx.probe(e['do'])
      if r['event'] == 0:
        ctx.probe('test-before-training')
      if r['site']:
        failed = True
        sites.append(r['site'])
        ctx.probe('test-failed')
        ctx.fault('%s:%s' % (e['fault']['kind'], e['fault']['where']))
        ctx.log('failed', r['site'])
        continue
      if failed:
        ctx.probe('test-after-failure')
      if e['do'] == 'eval':
        continue
      if len(e['order']) > e['batch']:
        ctx.probe('several-batches')
      ref = self.process(plan, ctx, 'scoring', lambda: self.score(plan, base + '/c%d' % r['event'], r['event'], r['weights']))
      self.compare(plan, r['report'], ref, e, r['event'], ctx)
      ctx.log('scored', r['event'])
    ctx.state((kind, plan['data'], plan['model'], [x['do'] for x in plan['events']], sites))

  def compare(self, plan, rep, ref, e, i, ctx):
    what = '%s %s: test pass %d (batches of %d)' % (plan['kind'], plan['model'], i, e['batch'])
    if rep is None:
      raise Violation('no-score', what)
    ctx.probe('scored')
    for k, (v, near) in ref.items():
      if k not in rep:
        raise Violation('no-score', '%s: %s is not reported' % (what, k))
      if rep[k] != rep[k] and v != v:      # training diverged
        continue
      tol = near + 1e-5 if 'accu' in k else 2e-4 * (1 + abs(v))
      if near == 0 and 'accu' in k:
        ctx.probe('near-exact')
      if not abs(rep[k] - v) <= tol:
        raise Violation('score', '%s: %s is %.6f, the weights and the test set give %.6f' % (what, k, rep[k], v))


PROP = P()
