"""C12: segmentation scores do not depend on sharding or batch order."""
import copy
import os
import re

import numpy as np
import torch

from sim import datasets, gen, simio, solvers, threads, tools
from sim.core import Prop, Violation, sut
from sim.refmodel import voxels
from props.c13 import IDS20

KINDS = {'seg_shapenet': 'shapenet', 'scannet': 'scannet', 'kitti': 'kitti'}


class P(Prop):
  id = 'C12'
  runs = {'quick': 900, 'thorough': 40000}
  soft_s = {'quick': 60, 'thorough': 2700}
  shrink_lists = ('samples', 'splits')
  shrink_min = {'samples': 1, 'splits': 1}
  rule = ('a run scores one test set 2-4 times through the real test_epoch (thsolver loop and tracker, real SegSolver.test_step and result_callback): '
          'each time cut into batches of a size that divides the set, ordered and distributed over 1-3 ranks (interleaved threads, trackers combined '
          'as thsolver does) by the plan; or runs the score tool on label files spread in 1-3 seeded ways with read faults; every reported quantity is '
          'compared with a reference from all points; non-trivial when a set is split in more than one way')
  distinct_measure = 'distinct (dataset, classes, ignored label, batch size, ranks, order) tuples'
  real = ['projects/segmentation.py SegSolver (test_step, model_forward, loss, accuracy, IoU_per_shape, result_callback)',
          'thsolver.Solver.test_epoch, AverageTracker', 'datasets, transforms, collation',
          'projects/tools/seg_scannet.py calc_iou, run as a program']
  stubs = ['network (a function of point position and voxel count of the sample)', 'CUDA placement (identity)',
           'all_gather between ranks (mean of the ranks\' sums, as AverageTracker does)', 'file-system reads and listing order (seam)']
  assumptions = ['loss, accuracy and shape IoU are compared when every batch (file) holds at least one point with a label that counts (the part mIoU always)', 'the set divides evenly into batches and ranks',
                 'no two classes tie at a point (probability zero for the continuous stand-in network)']
  required_probes = ('ranks', 'ignored', 'absent-class', 'several-batches', 'single-batch', 'order', 'noise-in-ignored', 'missed-class', 'spurious-class', 'void-sample', 'void-batch',
                     'tool', 'tool-void', 'tool-200', 'tool-read-fault', 'tool-reported') + tuple(
      'kind:' + k for k in KINDS)

  def prepare(self, base):
    datasets.warm()
    solvers.warm()
    tools.warm()
    os.environ.setdefault('SIM_SO', simio.build())

  def gen_tool(self, rng):
    n = rng.choice([1, 2, 5, 30, 30, 200, 200, 9000]) if rng.chance(0.96) else 70000
    splits = []
    for _ in range(rng.randint(1, 3)):
      faults = []
      if rng.chance(0.3):
        faults = [{'cls': 'rd', 'kind': rng.choice(['err', 'short', 'eintr', 'err-from']), 'frac': rng.random(), 'arg': 'EIO', 'count': rng.choice([1, 1000])}]
      splits.append({'files': rng.choice([1, 2, 3, 7]), 'cut': rng.seed31(), 'list': rng.seed31(), 'faults': faults})
    return {'tool': {'n': n, 'seed': rng.seed31(), 'classes': rng.choice([20, 20, 200]), 'present': rng.choice([1, 2, 5, 99]),
                     'ignore': rng.choice([0.0, 0.0, 0.3, 0.9]), 'wrong': rng.choice([0.0, 0.1, 0.5, 1.0])}, 'samples': [], 'splits': splits}

  def gen(self, rng, idx, tier):
    if rng.chance(0.2):
      return self.gen_tool(rng)
    n = rng.choice([1, 2, 3, 4, 4, 6, 6, 8])
    kind = rng.choice(list(KINDS))
    samples = [dict(gen.cloud_spec(rng, 4, 30), dir=rng.choice(['a', 'b'])) for _ in range(n)]
    if rng.chance(0.04):      # a scan of ordinary size
      samples[rng.randrange(n)].update(n=rng.choice([5000, 20000, 70000]), kind=rng.choice(['uniform', 'sphere']))
    splits = []
    for _ in range(rng.randint(2, 4)):
      R = rng.choice([r for r in (1, 1, 2, 3) if n % r == 0])
      B = rng.choice([b for b in range(1, n // R + 1) if (n // R) % b == 0])
      splits.append({'ranks': R, 'batch': B, 'order': [rng.random() for _ in range(n)],
                     'switches': [[rng.random(), rng.randrange(3), 'line'] for _ in range(rng.randint(0, 8))]})
    return {'kind': kind, 'samples': samples, 'splits': splits, 'classes': rng.choice([3, 5, 8, 21]), 'mask': rng.choice([-1, 0, 0, 1]),
            'present': rng.choice([2, 3, 99]), 'seed': rng.seed31(), 'relabel': rng.seed31(), 'ignore': rng.choice([0.0, 0.3, 0.7]),
            'bias': rng.choice([0.0, 0.0, 8.0]), 'void': rng.choice([0, 0, 0, 0.2, 0.5])}

  def simplify(self, plan):
    if 'tool' in plan:
      for i, s in enumerate(plan['splits']):
        for k, v in (('files', 1), ('faults', [])):
          if s[k] != v:
            p = copy.deepcopy(plan)
            p['splits'][i][k] = v
            yield p
      for k, v in (('n', plan['tool']['n'] // 2), ('classes', 20), ('ignore', 0.0), ('present', 1)):
        if v and plan['tool'][k] != v:
          p = copy.deepcopy(plan)
          p['tool'][k] = v
          yield p
      return
    for i, s in enumerate(plan['splits']):
      for k, v in (('ranks', 1), ('batch', 1), ('switches', [])):
        if s[k] != v:
          p = copy.deepcopy(plan)
          p['splits'][i][k] = v
          yield p
    for k, v in (('classes', 3), ('ignore', 0.0), ('kind', 'seg_shapenet'), ('bias', 0.0), ('void', 0)):
      if plan[k] != v:
        p = copy.deepcopy(plan)
        p[k] = v
        yield p

  def labels(self, plan, i, n):
    """Labels of the stored sample: classes that count, and ignored ones."""
    r = np.random.RandomState((plan['relabel'] + i) % (2 ** 31))
    lo = plan['mask'] + 1
    hi = min(plan['classes'], lo + plan['present'])
    lab = r.randint(lo, hi, n)
    if lo > 0:
      ig = r.rand(n) < plan['ignore']
      ig[r.randint(n)] = False
      if r.rand() < plan.get('void', 0):    # nothing in this sample counts
        ig[:] = True
      lab[ig] = r.randint(0, lo, int(ig.sum()))
    return lab

  def execute_tool(self, plan, ctx):
    t = plan['tool']
    ctx.probe('tool')
    folder = tools.copy_tools(ctx.scratch)
    if t['classes'] == 200:
      ctx.probe('tool-200')
      ids = [int(x) for x in open(os.path.join(os.path.dirname(tools.__file__), 'ids200.txt')).read().split()]
    else:
      ids = list(IDS20)
    g = np.random.RandomState(t['seed'] % (2 ** 31))
    pool = np.array(ids[1:])[g.permutation(len(ids) - 1)[:t['present']]]
    n = t['n']
    gt = pool[g.randint(len(pool), size=n)]
    ig = g.rand(n) < t['ignore']
    gt = np.where(ig, g.choice([0, 13, 17, 2000], n), gt) if t['classes'] == 20 else np.where(ig, 0, gt)
    pred = np.where(g.rand(n) < t['wrong'], np.array(ids)[g.randint(len(ids), size=n)], gt)
    pred = np.where(np.isin(pred, ids), pred, ids[1])
    keep = np.isin(gt, ids[1:])
    iou = 0.0
    for k in ids[1:]:
      u = ((pred == k) | (gt == k))[keep].sum()
      iou += ((pred == k) & (gt == k))[keep].sum() / u if u else 0.0
    iou /= len(ids) - 1
    for si, sp in enumerate(plan['splits']):
      root = os.path.join(ctx.scratch, 'w%d' % si)
      os.makedirs(root + '/gt')
      os.makedirs(root + '/pred')
      g = np.random.RandomState(sp['cut'] % (2 ** 31))
      own = g.randint(sp['files'], size=n)
      accs = []
      for f in range(sp['files']):
        m = own == f
        if not m.any():
          continue
        name = 'scene%04d_%02d.txt' % (g.randint(40), f)
        np.savetxt(os.path.join(root, 'gt', name), gt[m], fmt='%d')
        np.savetxt(os.path.join(root, 'pred', name), pred[m], fmt='%d')
        accs.append((pred == gt)[m & keep].mean() if (m & keep).any() else None)
      np.savez(os.path.join(root, 'pred', 'scene0000_00.eval.npz'), prob=np.zeros(3))
      np.savetxt(os.path.join(root, 'gt', 'zz_not_predicted.txt'), np.array([ids[1]]), fmt='%d')

      def fn():
        out = []
        tools.listing_order(sp['list'])
        tools.run_tool(folder, 'seg_scannet', ['--run', 'calc_iou', '--path_in', root + '/gt', '--path_pred', root + '/pred'] +
                       (['--scannet200'] if t['classes'] == 200 else []), keep=out)
        return ''.join(out)
      what = 'label files, split %d (%d files)' % (si, len(accs))
      r = simio.run_in_child(fn, root, [])
      if r['status'] != 'ok':
        raise Violation('unexpected-error', '%s: %s' % (what, r.get('error') or r['status']))
      self.compare_tool(r['value'], iou, accs, what, ctx)
      ctx.count('steps', r['nrd'])
      ctx.state(('tool', t['classes'], t['present'], len(accs), si))
      ctx.log(what, '%.6f' % iou)
      if sp['faults']:
        faults = [simio.aim(f, r) for f in sp['faults']]
        r1 = simio.run_in_child(fn, root, faults)
        simio.count_fired(ctx, faults, r1['fired'])
        if any(r1['fired']):
          ctx.probe('tool-read-fault')
          ctx.nontrivial = True
        w1 = '%s, %s at read call %d' % (what, faults[0]['kind'], faults[0]['at'])
        if r1['status'] == 'ok':
          self.compare_tool(r1['value'], iou, accs, w1, ctx)
        elif r1['status'] != 'raise' or not any(r1['fired']) or faults[0]['kind'] == 'short':
          raise Violation('unexpected-error', '%s: %s' % (w1, r1.get('error') or r1['status']))
        else:
          ctx.probe('tool-reported')
        ctx.log(w1, r1['status'])
    if len(plan['splits']) > 1:
      ctx.nontrivial = True

  def compare_tool(self, text, iou, accs, what, ctx):
    got = {}
    for line in text.replace('\r', '\n').split('\n'):
      m = re.fullmatch(r'\s*(Accu|IoU):\s*(\S+)\s*', line)
      if m:
        got[m.group(1)] = float(m.group(2))
    if 'IoU' not in got or not abs(got['IoU'] - iou) < 2e-6:
      raise Violation('miou', '%s: IoU %s, from all points %.6f' % (what, got.get('IoU'), iou))
    if None in accs:
      ctx.probe('tool-void')
    elif 'Accu' not in got or not abs(got['Accu'] - np.mean(accs)) < 2e-6:
      raise Violation('score', '%s: accuracy %s, the labelled points give %.6f' % (what, got.get('Accu'), np.mean(accs)))

  def execute(self, plan, ctx):
    if 'tool' in plan:
      return self.execute_tool(plan, ctx)
    import segmentation
    kind, C, mask = plan['kind'], plan['classes'], plan['mask']
    ctx.probe('kind:' + kind)
    n = len(plan['samples'])
    datasets.full_seed(plan['seed'])
    o = datasets.open_(kind, ctx.scratch, plan['samples'], {'depth': 4, 'full': 2, 'batch': 1})
    # the dataset hands out the plan's labels (any value can be stored)
    truth = []
    ds = o.dataset

    class Labelled(torch.utils.data.Dataset):
      def __len__(self):
        return n

      def __getitem__(self, i):
        s = ds[i]
        p = s['points']
        lab = self_.labels(plan, i, p.points.shape[0])
        p.labels = torch.from_numpy(lab.astype(np.float32)).view(-1, 1).to(p.labels.dtype)
        return s
    self_ = self
    data = Labelled()
    ref_i, ref_u = np.zeros(C), np.zeros(C)
    for i in range(n):
      s = data[i]
      xyz = s['points'].points.numpy()
      lab = s['points'].labels.numpy().reshape(-1).astype(int)
      cnt = len(np.unique(voxels(xyz, np.zeros(len(xyz), np.int64), 4), axis=0))
      lg = solvers.logits(xyz, np.full(len(xyz), cnt), C, plan['seed'])
      lg[:, C - 1] += np.float32(plan['bias'])
      keep = lab > mask
      pred = lg.argmax(1)
      truth.append((lg[keep], pred[keep], lab[keep]))
      if not keep.any():
        ctx.probe('void-sample')
      if not keep.all():
        ctx.probe('ignored')
        if (pred[~keep] > mask).any():
          ctx.probe('noise-in-ignored')
      for k in range(C):
        ref_i[k] += ((pred == k) & (lab == k) & keep).sum()
        ref_u[k] += (((pred == k) | (lab == k)) & keep).sum()
    lo = mask + 1
    if any(ref_u[k] == 0 for k in range(lo, C)):
      ctx.probe('absent-class')
    if any(ref_u[k] > 0 and ref_i[k] == 0 for k in range(lo, C)):
      ctx.probe('missed-class')
    allab = np.concatenate([t[2] for t in truth])
    if any(ref_u[k] > 0 and not (allab == k).any() for k in range(lo, C)):
      ctx.probe('spurious-class')
    miou = sum(ref_i[k] / ref_u[k] if ref_u[k] else 0.0 for k in range(lo, C)) / (C - lo)
    got = []
    for si, sp in enumerate(plan['splits']):
      R, B = sp['ranks'], sp['batch']
      if n % R or (n // R) % B:
        R, B = 1, 1 if n % B else B
      order = sorted(range(n), key=lambda i: (sp['order'][i % len(sp['order'])], i))
      if order != list(range(n)):
        ctx.probe('order')
      shards = [order[r::R] for r in range(R)]
      batches = [[sh[k:k + B] for k in range(0, len(sh), B)] for sh in shards]
      what = 'split %d (%d ranks, batches %s)' % (si, R, batches)
      ctx.probe('single-batch' if sum(map(len, batches)) == 1 else 'several-batches')
      if R > 1:
        ctx.probe('ranks')
      ss = [self.solver(plan, o, data, ctx, batches[r], r, R) for r in range(R)]
      if R == 1:
        with sut(what):
          ss[0].test_epoch(si)
      else:
        with sut(what):
          sch = threads.Scheduler([(lambda s=s: s.local_test(si)) for s in ss], [[int(a * 3000 * n / R), b] for a, b, _ in sp['switches']], op_points=False)
          tasks = sch.run()
        for t in tasks:
          if t.exc is not None:
            raise Violation('unexpected-error', '%s: rank %d: %s: %s' % (what, t.idx, type(t.exc).__name__, t.exc))
        if sch.taken:
          ctx.fault('thread-switch', len(sch.taken))
        with sut(what):
          ss[0].finish(ss, si)
        ctx.count('steps', sch.step)
      rep = ss[0].report
      ctx.count('steps', 1)
      self.compare(plan, rep, miou, ref_i, ref_u, truth, batches, what, ctx)
      got.append(rep['test/mIoU_part'])
      ctx.state((kind, C, mask, B, R, si, tuple(order)))
      ctx.log(what, '%.6f' % rep['test/mIoU_part'])
    if len(plan['splits']) > 1:
      ctx.nontrivial = True

  def solver(self, plan, o, data, ctx, batches, rank, R):
    import segmentation
    from thsolver.tracker import AverageTracker
    fg = o.flags.clone()
    fg.name = KINDS[plan['kind']]
    F = solvers.flags(fg, os.path.join(ctx.scratch, 'logs'), {'run': 'test'}, {'mask': plan['mask'], 'num_class': plan['classes']},
                      {'name': 'stub', 'feature': 'P', 'nempty': True, 'channel': 3})
    bias, C = plan['bias'], plan['classes']

    class Net(solvers.StubSeg):
      def forward(self, data, octree, depth, query_pts):
        out = super().forward(data, octree, depth, query_pts)
        out[:, C - 1] += bias
        return out

    class S(segmentation.SegSolver):
      def save_best_checkpoint(self, tracker, epoch):
        self.report = tracker.average()

      def local_test(self, epoch):
        """test_epoch without the part after the loop (done by finish)."""
        self.is_master = False
        self.keep = []
        old = AverageTracker.update
        tr = AverageTracker()
        self.model.eval()
        for it in range(len(self.test_loader)):
          batch = next(self.test_iter)
          batch['iter_num'] = it
          batch['epoch'] = epoch
          tr.update(self.test_step(batch))
        self.tracker = tr

      def finish(self, ranks, epoch):
        """AverageTracker.average_all_gather: the mean of the ranks' sums."""
        tr = self.tracker
        for k in list(tr.value):
          tr.value[k] = torch.stack([r.tracker.value[k].float().reshape(()) for r in ranks]).mean()
        self.result_callback(tr, epoch)
        self.report = tr.average()
    s = S(F, is_master=True)
    s.model = Net(C, plan['seed'])
    s.logdir, s.log_file = F.SOLVER.logdir, None
    s.test_loader = solvers.PlanLoader(data, o.collate, [batches])
    s.test_iter = iter(s.test_loader)
    return s

  def compare(self, plan, rep, miou, ref_i, ref_u, truth, batches, what, ctx):
    C, mask = plan['classes'], plan['mask']
    if 'test/mIoU_part' not in rep:
      raise Violation('missing', '%s: no part mIoU reported' % what)
    v = rep['test/mIoU_part']
    if not abs(v - miou) < 2e-5:
      raise Violation('miou', '%s: part mIoU %.6f, from all points %.6f' % (what, v, miou))
    if any(not any(len(truth[i][2]) for i in b) for bs in batches for b in bs):
      ctx.probe('void-batch')
      return
    # per-batch quantities, averaged over the batches
    acc, loss, shape = [], [], []
    for bs in batches:
      for b in bs:
        lg = np.concatenate([truth[i][0] for i in b]).astype(np.float64)
        pred = np.concatenate([truth[i][1] for i in b])
        lab = np.concatenate([truth[i][2] for i in b])
        acc.append((pred == lab).mean())
        m = lg.max(1, keepdims=True)
        loss.append((np.log(np.exp(lg - m).sum(1)) + m[:, 0] - lg[np.arange(len(lab)), lab]).mean())
        v = [((pred == k) & (lab == k)).sum() / ((pred == k) | (lab == k)).sum() for k in range(C) if (lab == k).any()]
        shape.append(np.mean(v))
    for key, ref in (('test/accu', acc), ('test/loss', loss), ('test/mIoU', shape)):
      if key not in rep or not abs(rep[key] - np.mean(ref)) < 2e-4 * (1 + abs(np.mean(ref))):
        raise Violation('score', '%s: %s is %s, the labelled points give %.6f' % (what, key, rep.get(key), np.mean(ref)))


PROP = P()
