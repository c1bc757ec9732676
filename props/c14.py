"""C14: dataset preparation can be killed and rerun."""
import copy
import io
import json
import os
import re
import sys
import types
import zipfile

import numpy as np

from sim import datasets, simio, tools
from sim.core import HarnessError, Prop, Violation

TOOLS = ('cls_modelnet', 'ae_shapenet', 'seg_shapenet', 'image2shape', 'seg_scannet', 'seg_scannet_npz', 'seg_scannet_200', 'seg_kitti')
M40 = ['cone', 'curtain', 'car', 'laptop'] + ['k%02d' % i for i in range(36)]
CATS16 = ['02691156', '02773838', '02954340', '02958343', '03001627', '03261776', '03467517', '03624134', '03636649', '03642806', '03790512',
          '03797390', '03948459', '04099429', '04225987', '04379243']
CATS13 = ['02691156', '02828884', '02933112', '02958343', '03001627', '03211117', '03636649', '03691459', '04090263', '04256520', '04379243',
          '04401088', '04530566']
TEMP = re.compile(r'(tmp|temp|\.part|partial|~$|\.swp)', re.I)


def off(r, header):
  v = r.rand(4, 3).round(3)
  s = header + '4 4 0\n' + ''.join('%g %g %g\n' % tuple(p) for p in v)
  return s + ''.join('3 %d %d %d\n' % f for f in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)))


def obj(r):
  v = r.rand(4, 3).round(3)
  return ''.join('v %g %g %g\n' % tuple(p) for p in v) + ''.join('f %d %d %d\n' % f for f in ((1, 2, 3), (1, 2, 4), (1, 3, 4), (2, 3, 4)))


def mesh_ply(path, v, cols, names):
  from plyfile import PlyData, PlyElement
  t = [('x', 'f4'), ('y', 'f4'), ('z', 'f4')] + [(n, 'u1') if n != 'label' else (n, 'u2') for n in names]
  s = np.empty(len(v), dtype=t)
  for i, n in enumerate('xyz'):
    s[n] = v[:, i]
  for i, n in enumerate(names):
    s[n] = cols[:, i]
  f = np.empty(2, dtype=[('vertex_indices', 'i4', (3,))])
  f['vertex_indices'] = [[0, 1, 2], [0, 2, 1 if len(v) < 4 else 3]]
  PlyData([PlyElement.describe(s, 'vertex'), PlyElement.describe(f, 'face')]).write(path)


class P(Prop):
  id = 'C14'
  runs = {'quick': 560, 'thorough': 20000}
  soft_s = {'quick': 85, 'thorough': 2700}
  shrink_lists = ('faults',)
  rule = ('a run executes one preparation tool as a program on a small synthetic source, 1-3 times with a crash or file-system fault each at a seeded call, '
          'then to completion; the folder is compared with the one of an undisturbed run; source data is compared after every step, the values of the prepared samples and lists with those computed from the sources; non-trivial when a '
          'fault fired')
  distinct_measure = 'distinct (tool, fault kinds and positions) tuples'
  real = ['projects/tools/cls_modelnet.py, ae_shapenet.py, seg_shapenet.py, image2shape.py, seg_scannet.py (process_scannet), seg_kitti.py, utils.py',
          'wget (real temporary file and rename), zipfile, trimesh loaders, plyfile, numpy']
  stubs = ['network under wget (bytes of a synthetic archive)', 'trimesh.sample.sample_surface (points determined by the mesh)',
           'cyminiball (bounding sphere)', 'directory listing order (plan)', 'file-system calls (LD_PRELOAD seam that counts and injects faults)']
  assumptions = ['process crash, not power loss', 'leftover files with temporary names are not dataset files']
  required_probes = ('crash', 'reported', 'rerun', 'twice', 'again', 'survived', 'unclean-off', 'fault-rd', 'fault-mut') + tuple('tool:' + t for t in TOOLS) + tuple('values:' + t for t in TOOLS)

  def prepare(self, base):
    tools.warm()
    datasets.warm()
    import trimesh.sample, trimesh.exchange.off, trimesh.exchange.obj  # noqa
    import trimesh
    os.environ.setdefault('SIM_SO', simio.build())

    def sample_surface(mesh, count, *a, **k):
      v = np.asarray(mesh.vertices)
      r = np.random.RandomState(int(abs(v.sum() * 1e4)) % (2 ** 31))
      idx = r.randint(0, len(mesh.faces), count)
      w = r.dirichlet([1, 1, 1], count)
      return (v[np.asarray(mesh.faces)[idx]] * w[:, :, None]).sum(1), idx
    trimesh.sample.sample_surface = sample_surface
    m = types.ModuleType('cyminiball')

    def compute(p, details=False, **k):
      c = (p.min(0) + p.max(0)) / 2
      out = c, float(((p - c) ** 2).sum(1).max())
      return out + ({'is_valid': True},) if details else out
    m.compute = compute
    sys.modules['cyminiball'] = m

  def gen(self, rng, idx, tier):
    tool = rng.wchoice([('cls_modelnet', 3), ('ae_shapenet', 3), ('seg_shapenet', 4), ('image2shape', 3), ('seg_scannet', 4), ('seg_scannet_npz', 3),
                        ('seg_scannet_200', 2), ('seg_kitti', 2)])
    faults = []
    for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 2, 3])):
      if rng.chance(0.12):
        faults.append({'cls': 'rd', 'kind': rng.choice(['err', 'short', 'eintr']), 'frac': rng.random(), 'arg': 'EIO', 'count': 1})
      else:
        faults.append({'cls': 'mut', 'kind': rng.choice(['crash-before', 'crash-after', 'crash-partial', 'crash-partial', 'err', 'err', 'err-from', 'short', 'eintr']),
                       'frac': rng.random(), 'where': rng.choice(['any', 'risky', 'late-write']), 'arg': rng.choice(['ENOSPC', 'EIO', 'EDQUOT']), 'count': rng.choice([1, 1000])})
    return {'tool': tool, 'seed': rng.seed31(), 'faults': faults, 'n': rng.randint(1, 3), 'order': rng.seed31(), 'align': rng.chance(0.3), 'bad': rng.chance(0.5),
            'whole': rng.chance(0.5), 'dirty': rng.choice([0.0, 0.1, 0.5])}

  def simplify(self, plan):
    for k, v in (('n', 1), ('align', False), ('bad', False), ('dirty', 0.0)):
      if plan[k] != v:
        p = copy.deepcopy(plan)
        p[k] = v
        yield p

  # -- sources ---------------------------------------------------------------
  def zipped(self, path, files):
    with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED) as z:
      for n, b in files:
        i = zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0))
        i.external_attr = 0o644 << 16
        z.writestr(i, b)

  def ply(self, pts, nor):
    p = os.path.join(self.tmp, 'one.ply')
    datasets.write_ply(p, {'points': pts, 'normals': nor})
    return open(p, 'rb').read()

  def source(self, plan, root, ctx=None):
    """Creates the source data below root; returns the commands to run, the
    mapping of URLs and the paths that must never change."""
    r = np.random.RandomState(plan['seed'] % (2 ** 31))
    t = plan['tool']
    n = plan['n']
    net = os.path.join(root, 'net')
    os.makedirs(net)
    data = os.path.join(root, 'projects', 'data')
    if t == 'cls_modelnet':
      files = []
      for k in M40:
        for sub in ('train', 'test'):
          for j in range(1 if r.rand() < 0.8 else n):
            h = 'OFF' if r.rand() < plan['dirty'] else 'OFF\n'
            if h == 'OFF' and ctx:
              ctx.probe('unclean-off')
            files.append(('ModelNet40/%s/%s/%s_%04d.off' % (k, sub, k, j + 1), off(r, h)))
      if plan['bad']:
        files += [('ModelNet40/cone/train/cone_0117.off', 'OFF\nbroken'), ('ModelNet40/car/train/car_0021.off.off', 'x')]
      z = os.path.join(net, 'a.zip')
      self.zipped(z, files)
      argv = ['--sample_num', '6'] + (['--align_y', 'true'] if plan['align'] else [])
      return [('cls_modelnet', argv)], {'ModelNet40.zip': z}, [net]
    if t == 'ae_shapenet':
      files = []
      names = []
      for sec in ('shape', 'test.scans'):
        for d in ('02691156', '03001627'):
          for j in range(n):
            m = r.randint(1, 300)
            files.append(('%s.ply/%s/m%d.ply' % (sec, d, j), self.ply(r.rand(m, 3), r.rand(m, 3))))
            names.append('%s/m%d.points %d' % (d, j, j))
      for f in ('filelist_test', 'filelist_train', 'filelist_test_scans'):
        files.append((f + '.txt', '\n'.join(names) + '\n'))
      z = os.path.join(net, 'a.zip')
      self.zipped(z, files)
      return [('ae_shapenet', [])], {'ocnn_completion.zip': z}, [net]
    if t == 'seg_shapenet':
      top = 'shapenetcore_partanno_segmentation_benchmark_v0_normal'
      files, names = [], []
      dis = [0, 4, 6, 8, 12, 16, 19, 22, 24, 28, 30, 36, 38, 41, 44, 47]
      for i, c in enumerate(CATS16):
        for j in range(1 if r.rand() < 0.7 else n):
          rows = np.concatenate([r.rand(r.randint(2, 8), 6)], 0)
          lab = dis[i] + r.randint(0, 2, len(rows))
          files.append(('%s/%s/s%d.txt' % (top, c, j), ''.join(' '.join('%.6f' % v for v in row) + ' %d.000000\n' % l for row, l in zip(rows, lab))))
          names.append('shape_data/%s/s%d' % (c, j))
      for k in ('train', 'val', 'test'):
        files.append(('%s/train_test_split/shuffled_%s_file_list.json' % (top, k), json.dumps(names)))
      z = os.path.join(net, 'a.zip')
      self.zipped(z, files)
      return [('seg_shapenet', [])], {top: z}, [net]
    if t == 'image2shape':
      base = os.path.join(data, 'ShapeNetV1')
      for c in CATS13:
        os.makedirs(os.path.join(base, 'shapenet.mesh', c))
        for j in range(1 if r.rand() < 0.6 else n):
          with open(os.path.join(base, 'shapenet.mesh', c, 's%d.obj' % j), 'w') as f:
            f.write(obj(r))
          if r.rand() < 0.8:
            os.makedirs(os.path.join(base, 'renderings', c, 's%d' % j))
        os.makedirs(os.path.join(base, 'renderings', c), exist_ok=True)
      src = [os.path.join(base, 'shapenet.mesh'), os.path.join(base, 'renderings')]
      return [('image2shape', ['--run', k, '--sample_num', '6']) for k in ('mesh2points', 'ply2npz', 'create_filelist')], {}, src
    if t == 'seg_kitti':
      files, lab = [], []
      for q in range(22):
        for j in range(1 if r.rand() < 0.7 else n):
          k = r.randint(1, 20)
          files.append(('dataset/sequences/%02d/velodyne/%06d.bin' % (q, j), r.rand(k, 4).astype(np.float32).tobytes()))
          if q < 11:
            lab.append(('dataset/sequences/%02d/labels/%06d.label' % (q, j), r.randint(0, 9, k).astype(np.int32).tobytes()))
      base = os.path.join(root, 'kitti')
      os.makedirs(base)
      self.zipped(os.path.join(base, 'data_odometry_labels.zip'), lab)
      self.zipped(os.path.join(base, 'data_odometry_velodyne.zip'), files)
      return [('seg_kitti', ['--root_folder', base])], {}, [os.path.join(base, 'data_odometry_labels.zip'), os.path.join(base, 'data_odometry_velodyne.zip')]
    # scannet
    base = os.path.join(root, 'raw')
    z = os.path.join(net, 'a.zip')
    self.zipped(z, [('scannetv2-labels.combined.tsv', 'id\traw_category\tcategory\n1\twall\twall\n2\tchair\tchair\n24\tbox\tbox\n'),
                    ('scannetv2_train.txt', 'train/scene0000_00.ply\n')])
    for sub, cnt in (('scans', n + 1), ('scans_test', n)):
      for j in range(cnt):
        s = 'scene%04d_00' % j
        d = os.path.join(base, sub, s)
        os.makedirs(d)
        m = r.randint(4, 300)
        v = r.rand(m, 3).astype(np.float32)
        cols = np.concatenate([r.randint(0, 256, [m, 3]), np.full([m, 1], 255)], 1)
        p = os.path.join(d, s + '_vh_clean_2.ply')
        mesh_ply(p, v, cols, ('red', 'green', 'blue', 'alpha'))
        with open(os.path.join(d, s + '.txt'), 'w') as f:
          f.write('name = x\naxisAlignment = 0 1 0 0.5 -1 0 0 0 0 0 1 0 0 0 0 1\n')
        if t == 'seg_scannet_200':
          seg = r.randint(0, 5, m)
          with open(os.path.join(d, s + '_vh_clean_2.0.010000.segs.json'), 'w') as f:
            json.dump({'segIndices': seg.tolist()}, f)
          with open(os.path.join(d, s + '_vh_clean.aggregation.json'), 'w') as f:
            json.dump({'segGroups': [{'label': 'chair', 'segments': [0, 1]}, {'label': 'odd', 'segments': [2]}, {'label': 'wall', 'segments': [3]}]}, f)
        if sub == 'scans':
          mesh_ply(p[:-4] + '.labels.ply', v, np.concatenate([cols, r.randint(0, 41, [m, 1])], 1), ('red', 'green', 'blue', 'alpha', 'label'))
    argv = ['--run', 'process_scannet', '--path_in', base, '--path_out', os.path.join(root, 'out', 'scannet'),
            '--suffix_out', '.npz' if t == 'seg_scannet_npz' else '.ply'] + (['--align_axis'] if plan['align'] else []) + \
        (['--scannet200'] if t == 'seg_scannet_200' else [])
    return [('seg_scannet', argv)], {'scannet_filelist.zip': z}, [base, net]

  # ---------------------------------------------------------------------
  def child(self, plan, root, folder, cmds, urls, faults, salt):
    def fn():
      tools.listing_order(plan['order'] + salt)
      tools.network(urls)
      np.random.seed(1)
      for name, argv in cmds:
        tools.run_tool(folder, name, argv)
    return simio.run_in_child(fn, root, faults)

  def snap(self, root):
    return {k: v for k, v in tools.tree(root).items() if not k.startswith('projects/tools')}

  def same_source(self, root, src, before, what):
    for s in src:
      rel = os.path.relpath(s, root)
      now = tools.tree(s) if os.path.isdir(s) else {'': open(s, 'rb').read() if os.path.exists(s) else None}
      for k, v in before[rel].items():
        if k not in now:
          raise Violation('source-lost', '%s: %s is gone' % (what, os.path.join(rel, k)))
        if now[k] != v:
          raise Violation('source-changed', '%s: %s was modified' % (what, os.path.join(rel, k)))

  def equal(self, want, got, what):
    for k in sorted(want):
      if k not in got:
        raise Violation('missing', '%s: %s is missing' % (what, k))
      if want[k] != got[k] and '/flags/' not in k:      # (a marker: only its existence counts)
        raise Violation('differs', '%s: %s differs from that of an undisturbed run (%s bytes, %s expected)' % (
            what, k, len(got[k] or b''), len(want[k] or b'')))
    extra = [k for k in sorted(set(got) - set(want)) if not any(TEMP.search(x) for x in k.split('/')[1:])]
    if extra:
      raise Violation('extra', '%s: unexpected %s' % (what, extra[:5]))

  def execute(self, plan, ctx):
    tool = plan['tool']
    ctx.probe('tool:' + tool)
    self.tmp = os.path.join(ctx.scratch, 'mk')
    os.makedirs(self.tmp)
    # both runs see the same absolute paths
    root = os.path.join(ctx.scratch, 'w')

    def fresh(probe=None):
      os.makedirs(root)
      folder = tools.copy_tools(root)
      return (folder,) + self.source(plan, root, probe)
    folder, cmds, urls, src = fresh(ctx)
    before = {os.path.relpath(s, root): tools.tree(s) if os.path.isdir(s) else {'': open(s, 'rb').read()} for s in src}
    r0 = self.child(plan, root, folder, cmds, urls, [], 0)
    if r0['status'] != 'ok':
      raise Violation('unexpected-error', '%s: %s\n%s' % (tool, r0.get('error') or r0['status'], r0.get('tb', '')[-600:]))
    want = self.snap(root)
    self.same_source(root, src, before, 'undisturbed run')
    self.outputs(plan, want)
    self.values(plan, root, ctx)
    if plan['whole']:      # prepared already: another run changes nothing
      ctx.probe('again')
      r = self.child(plan, root, folder, cmds, urls, [], 1)
      if r['status'] != 'ok':
        raise Violation('rerun-failed', 'second run on a prepared folder: %s' % (r.get('error') or r['status']))
      self.equal(want, self.snap(root), 'second run on a prepared folder')
    if not plan['faults']:
      ctx.state((tool, 'plain', plan['n']))
      return
    import shutil
    shutil.rmtree(root)
    folder, cmds, urls, src = fresh()
    at = []
    k = 0
    n = {'mut': r0['nmut'], 'rd': r0['nrd']}
    for i, f in enumerate(plan['faults']):
      f = dict(f)
      ctx.probe('fault-' + f['cls'])
      f = simio.aim(f, r0)
      r = self.child(plan, root, folder, cmds, urls, [f], i + 2)
      simio.count_fired(ctx, [f], r['fired'])
      at.append('%s at %s call %d of %d' % (f['kind'], f['cls'], f['at'], n[f['cls']]))
      ctx.log(tool, f['kind'], f['cls'], f['at'], r['status'], r['nmut'])
      ctx.count('steps', r['nmut'])
      if any(r['fired']):
        ctx.nontrivial = True
      what = ', '.join(at)
      self.same_source(root, src, before, 'after ' + what)
      if r['status'] == 'died':
        raise Violation('process-died', '%s: %s' % (tool, what))
      if r['status'] == 'ok':
        ctx.probe('survived')
        self.equal(want, self.snap(root), '%s reports success after %s' % (tool, what))
      elif r['status'] == 'raise':
        if not any(r['fired']):
          raise Violation('rerun-failed', '%s after %s: %s' % (tool, what, r['error']))
        if f['kind'] == 'short':
          raise Violation('short-io', '%s: a short transfer made the tool fail: %s' % (tool, r['error']))
        ctx.probe('reported')
      else:
        ctx.probe('crash')
      k += 1
    if k > 1:
      ctx.probe('twice')
    ctx.probe('rerun')
    ctx.state((tool, str(at)))
    what = ', '.join(at)
    r = self.child(plan, root, folder, cmds, urls, [], 99)
    if r['status'] != 'ok':
      raise Violation('rerun-failed', '%s after %s: %s' % (tool, what, r.get('error') or r['status']))
    self.same_source(root, src, before, 'rerun after ' + what)
    self.equal(want, self.snap(root), '%s rerun after %s' % (tool, what))

  def outputs(self, plan, want):
    """The undisturbed run made one output per source item."""
    t = plan['tool']
    names = list(want)

    def count(pat):
      return sum(bool(re.search(pat, k)) for k in names)
    if t == 'cls_modelnet':
      a, b = count(r'data/ModelNet40/ModelNet40/.*\.off$'), count(r'ModelNet40\.ply[^/]*/.*\.ply$')
      if count(r'filelist/m40_.*\.txt$') < 4:
        raise Violation('incomplete', 'file lists are missing')
    elif t == 'ae_shapenet':
      a, b = count(r'\.ply/.*\.ply$'), count(r'\.npz/.*\.npz$')
    elif t == 'seg_shapenet':
      a, b = count(r'_normal/\d+/.*\.txt$'), count(r'points/.*\.ply$')
    elif t == 'image2shape':
      a, b = count(r'\.obj$'), count(r'points\.npz/.*\.npz$')
    elif t == 'seg_kitti':
      a, b = 4, count(r'^kitti/[a-z_]+\.txt$')
    else:
      a, b = count(r'raw/.*_vh_clean_2\.ply$'), count(r'out/scannet/(train|test)/.*\.%s$' % ('npz' if t.endswith('npz') else 'ply'))
    if a != b or not a:
      raise Violation('incomplete', '%s: %d outputs for %d source items' % (t, b, a))

  # -- the prepared samples hold the values of their sources ------------------
  def values(self, plan, root, ctx):
    t = plan['tool'].replace('_npz', '').replace('_200', '')
    data = os.path.join(root, 'projects', 'data')
    getattr(self, 'values_' + t)(plan, root, data)
    ctx.probe('values:' + plan['tool'])

  def load(self, path):
    from plyfile import PlyData
    if path.endswith('.npz'):
      with np.load(path) as z:
        return {k: z[k] for k in z.files}
    v = PlyData.read(path)['vertex']
    n = v.data.dtype.names
    g = lambda *k: np.stack([np.asarray(v[i]) for i in k], 1)
    out = {'points': g('x', 'y', 'z'), 'normals': g('nx', 'ny', 'nz')}
    if 'red' in n:
      out['colors'] = g('red', 'green', 'blue')
    if 'label' in n:
      out['labels'] = np.asarray(v['label'])
    return out

  def same(self, got, want, what, tol=0.0):
    for k, w in want.items():
      g = got.get(k)
      if g is None or g.shape != w.shape or not (np.abs(g.astype(np.float64) - w.astype(np.float64)) <= tol).all():
        raise Violation('values', '%s: %s of the prepared sample are not those of its source: %s, expected %s' % (
            what, k, None if g is None else g[:2].tolist(), w[:2].tolist()))

  def lines(self, path):
    with open(path) as f:
      return [l for l in f.read().split('\n') if l]

  def listed(self, path, want, what):
    got = self.lines(path)
    if sorted(got) != sorted(want):
      raise Violation('filelist', '%s lists %s, expected %s' % (what, sorted(set(got) ^ set(want))[:3] or got[:3], len(want)))

  def values_seg_shapenet(self, plan, root, data):
    base = os.path.join(data, 'shapenet_segmentation')
    top = [d for d in os.listdir(base) if d.endswith('_normal')][0]
    dis = [0, 4, 6, 8, 12, 16, 19, 22, 24, 28, 30, 36, 38, 41, 44, 47]
    for i, c in enumerate(CATS16):
      own = sorted(os.listdir(os.path.join(base, top, c)))
      for f in own:
        raw = np.loadtxt(os.path.join(base, top, c, f), ndmin=2)
        w = {'points': raw[:, :3].astype(np.float32), 'normals': raw[:, 3:6].astype(np.float32), 'labels': raw[:, 6] - dis[i]}
        self.same(self.load(os.path.join(base, 'points', c, f[:-4] + '.ply')), w, '%s/%s' % (c, f), 1e-6)
      names = ['%s/%s.ply %d' % (c, f[:-4], i) for f in own]
      self.listed(os.path.join(base, 'filelist', c + '_test.txt'), names, c + '_test.txt')
      self.listed(os.path.join(base, 'filelist', c + '_train_val.txt'), names * 2, c + '_train_val.txt')

  def values_ae_shapenet(self, plan, root, data):
    base = os.path.join(data, 'ae_shapenet')
    for sec in ('shape', 'test.scans'):
      for d in os.listdir(os.path.join(base, sec + '.ply')):
        for f in os.listdir(os.path.join(base, sec + '.ply', d)):
          self.same(self.load(os.path.join(base, sec + '.npz', d, f[:-4] + '.npz')), self.load(os.path.join(base, sec + '.ply', d, f)), '%s/%s/%s' % (sec, d, f))
    for f in ('filelist_test', 'filelist_train', 'filelist_test_scans'):
      src = self.lines(os.path.join(base, f + '.txt'))
      for e in ('.npz', '.ply'):
        self.listed(os.path.join(base, f + e + '.txt'), [l.replace('.points', e) for l in src], f + e)

  def on_mesh(self, mesh, got, what, free=False):
    """Every point lies on a face whose normal it carries (free: up to one
    shift and scale of the whole sample)."""
    v, faces = mesh
    fn = np.cross(v[faces[:, 1]] - v[faces[:, 0]], v[faces[:, 2]] - v[faces[:, 0]])
    fn /= np.linalg.norm(fn, axis=1, keepdims=True)
    p, n = got['points'].astype(np.float64), got['normals'].astype(np.float64)
    d = np.abs(n[:, None] - fn[None]).max(2)
    of = d.argmin(1)
    if (d.min(1) > 1e-4).any():
      raise Violation('values', '%s: normal %s is that of no face' % (what, n[d.min(1).argmax()].tolist()))
    off = (p * fn[of]).sum(1)                    # n.p
    ref = (v[faces[:, 0]] * fn).sum(1)[of]        # n.v0
    if free:      # n.p = s n.v0 + n.t for one s > 0 and t
      X = np.concatenate([ref[:, None], fn[of]], 1)
      sol = np.linalg.lstsq(X, off, rcond=None)[0]
      res = np.abs(X @ sol - off).max()
    else:
      res = np.abs(off - ref).max()
    if res > 2e-4:
      raise Violation('values', '%s: a point does not lie on the face whose normal it carries (%.3g)' % (what, res))

  def mesh_off(self, path):
    s = open(path).read().replace('OFF', '', 1).split()
    n, m = int(s[0]), int(s[1])
    v = np.array(s[3:3 + 3 * n], float).reshape(n, 3)
    f = np.array(s[3 + 3 * n:3 + 3 * n + 4 * m], int).reshape(m, 4)[:, 1:]
    return v, f

  def values_cls_modelnet(self, plan, root, data):
    base = os.path.join(data, 'ModelNet40')
    fold = [d for d in os.listdir(base) if d.startswith('ModelNet40.ply')][0]
    cats = sorted(os.listdir(os.path.join(base, 'ModelNet40')))
    mat = np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]], float) if plan['align'] else np.eye(3)
    for sub in ('train', 'test'):
      per = []
      for i, c in enumerate(cats):
        own = sorted(f for f in os.listdir(os.path.join(base, 'ModelNet40', c, sub)) if f.endswith('.off'))
        per.append((i, c, ['%s/%s/%sply' % (c, sub, f[:-3]) for f in own]))
        for f in own:
          got = self.load(os.path.join(base, fold, c, sub, f[:-3] + 'ply'))
          what = '%s/%s/%s' % (c, sub, f)
          if got['points'].shape != (6, 3) or abs(np.linalg.norm(got['points'], axis=1).max() - 1) > 1e-4:
            raise Violation('values', '%s: %s points, the farthest at %s of the unit sphere' % (
                what, got['points'].shape, np.linalg.norm(got['points'], axis=1).max()))
          v, faces = self.mesh_off(os.path.join(base, 'ModelNet40', c, sub, f))
          self.on_mesh((v @ mat, faces), got, what, True)
      for ratio in (0.01, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0):
        if sub == 'train' or ratio == 1:
          self.listed(os.path.join(base, 'filelist', 'm40_%.02f_%s.txt' % (ratio, sub)),
                      ['%s %d' % (f, i) for i, c, fs in per for f in fs[:-int(-len(fs) * ratio // 1)]], 'm40 %s of %s' % (ratio, sub))
      self.listed(os.path.join(base, 'filelist', 'm40_%s.txt' % sub), ['%s %d' % (f, i) for i, c, fs in per for f in fs], 'm40_%s.txt' % sub)

  def values_image2shape(self, plan, root, data):
    base = os.path.join(data, 'ShapeNetV1')
    train, test = [self.lines(os.path.join(base, 'filelist', 'image2shape.%s.txt' % k)) for k in ('train', 'test')]
    for c in CATS13:
      both = []
      for f in sorted(os.listdir(os.path.join(base, 'shapenet.mesh', c))):
        s = open(os.path.join(base, 'shapenet.mesh', c, f)).read().split('\n')
        v = np.array([l.split()[1:] for l in s if l.startswith('v ')], float)
        faces = np.array([l.split()[1:] for l in s if l.startswith('f ')], int) - 1
        a = self.load(os.path.join(base, 'points.ply', c, f[:-4] + '.ply'))
        self.on_mesh((v, faces), a, '%s/%s' % (c, f))
        self.same(self.load(os.path.join(base, 'points.npz', c, f[:-4] + '.npz')), a, '%s/%s npz' % (c, f), 1e-3)
        if os.path.isdir(os.path.join(base, 'renderings', c, f[:-4])):
          both.append('%s/%s' % (c, f[:-4]))
      k = int(len(both) * 0.8)
      a, b = [[l for l in x if l.startswith(c)] for x in (train, test)]
      if sorted(a + b) != sorted(both) or len(a) != k:
        raise Violation('filelist', 'image2shape lists %d and %d of the %d samples of %s' % (len(a), len(b), len(both), c))

  def values_seg_kitti(self, plan, root, data):
    base = os.path.join(root, 'kitti')
    val, test = [8], list(range(11, 22))
    train = [q for q in range(11) if q != 8]
    for k, seqs in (('train', train), ('val', val), ('test', test), ('train_val', train + val)):
      want = ['dataset/sequences/%02d/velodyne/%s 0' % (q, f) for q in seqs
              for f in os.listdir(os.path.join(base, 'dataset', 'sequences', '%02d' % q, 'velodyne'))]
      self.listed(os.path.join(base, k + '.txt'), want, k + '.txt')

  def values_seg_scannet(self, plan, root, data):
    from plyfile import PlyData
    ids200 = plan['tool'] == 'seg_scannet_200'
    ids20 = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 24, 28, 33, 34, 36, 39)
    for sub, out in (('scans', 'train'), ('scans_test', 'test')):
      for s in sorted(os.listdir(os.path.join(root, 'raw', sub))):
        d = os.path.join(root, 'raw', sub, s)
        f = PlyData.read(os.path.join(d, s + '_vh_clean_2.ply'))
        v = np.stack([np.asarray(f['vertex'][k], dtype=np.float64) for k in 'xyz'], 1)
        col = np.stack([np.asarray(f['vertex'][k]) for k in ('red', 'green', 'blue')], 1)
        faces = np.stack(list(f['face']['vertex_indices']), 0)
        if plan['align']:
          v = v @ np.array([[0, 1, 0], [-1, 0, 0], [0, 0, 1]], float).T + np.array([0.5, 0, 0])
        nv = np.zeros_like(v)
        for t in faces:
          x = np.cross(v[t[1]] - v[t[0]], v[t[2]] - v[t[0]])
          for j in t:
            nv[j] += x
        nv /= np.linalg.norm(nv, axis=1, keepdims=True) + 1e-12
        sure = np.ones(len(v), bool)
        for j in set(faces.ravel().tolist()):     # opposing faces cancel: the direction is rounding
          sure[j] = np.linalg.norm(sum(np.cross(v[t[1]] - v[t[0]], v[t[2]] - v[t[0]]) for t in faces if j in t)) > 1e-3
        suffix = '.npz' if plan['tool'] == 'seg_scannet_npz' else '.ply'
        got = self.load(os.path.join(root, 'out', 'scannet', out, s + suffix))
        self.same(got, {'points': v, 'colors': col}, '%s/%s' % (out, s), 1e-5)
        if got['normals'].shape != nv.shape:
          raise Violation('values', '%s/%s: normals %s' % (out, s, got['normals'].shape))
        self.same({'normals': got['normals'][sure]}, {'normals': nv[sure]}, '%s/%s' % (out, s), 2e-3)
        if out == 'train':
          if ids200:
            seg = np.array(json.load(open(os.path.join(d, s + '_vh_clean_2.0.010000.segs.json')))['segIndices'])
            lab = np.select([np.isin(seg, [0, 1]), seg == 3], [2, 1], 0)
            new = lab
          else:
            lab = np.asarray(PlyData.read(os.path.join(d, s + '_vh_clean_2.labels.ply'))['vertex']['label']).astype(int)
            new = np.array([ids20.index(x) if x in ids20 else 0 for x in lab])
          self.same(got, {'labels': new}, '%s/%s' % (out, s))
          txt = np.loadtxt(os.path.join(root, 'out', 'scannet', out, s + '.txt'), ndmin=1)
          self.same({'original labels': txt}, {'original labels': lab}, '%s/%s' % (out, s))


PROP = P()
