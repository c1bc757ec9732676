"""Every dataset of the repository on small synthetic files.

spec (JSON) -> files on disk in the formats the project's preparation tools
produce, the raw arrays (the truth), and the real dataset / collate objects.
"""
import os

import numpy as np
import torch
import ocnn
from yacs.config import CfgNode as CN

from sim import gen

KINDS = ['base', 'modelnet', 'modelnet_npz', 'seg_shapenet', 'scannet', 'scannet_npz', 'kitti', 'ae', 'ae_npz', 'completion',
         'completion_npz', 'image2shape', 'image2shape_npz']
MERGES = {'seg_shapenet', 'kitti', 'base_merge'}
RICH = ('base', 'modelnet', 'seg_shapenet', 'scannet', 'scannet_npz')     # read by ReadPly and ReadNpz
NO_OCTREE = {'scannet', 'scannet_npz'}


def flags(cfg, location='', filelist=''):
  """cfg: {depth, full, distort, angle, interval, scale, uniform, jitter, flip, orient}"""
  f = CN(new_allowed=True)
  f.name = 'sim'
  f.disable = False
  f.pin_memory = False
  f.depth = cfg['depth']
  f.full_depth = cfg['full']
  f.adaptive = False
  f.orient_normal = cfg.get('orient', '')
  f.distort = bool(cfg.get('distort'))
  f.scale = float(cfg.get('scale', 0.0))
  f.uniform = bool(cfg.get('uniform'))
  f.jitter = float(cfg.get('jitter', 0.0))
  f.interval = tuple(cfg.get('interval', (1, 1, 1)))
  f.angle = tuple(cfg.get('angle', (0, 0, 0)))
  f.flip = tuple(cfg.get('flip', (0.0, 0.0, 0.0)))
  f.location = location
  f.filelist = filelist
  f.batch_size = cfg.get('batch', 2)
  f.take = -1
  f.num_workers = 0
  f.shuffle = False
  f.in_memory = bool(cfg.get('in_memory'))
  f.points_scale = 0.5
  f.filetype = 'ply'
  return f


def raw(kind, spec):
  """The arrays stored for one sample, in the stored types."""
  p = gen.cloud(spec)
  if spec.get('wide'):      # half of the points may leave the cube
    p = p.copy()
    p[:(len(p) + 1) // 2] *= 0.3
    p[(len(p) + 1) // 2:] *= spec['wide']
  a = gen.attrs(spec)
  r = np.random.RandomState((spec['seed'] ^ 0x77) % (2 ** 31))
  n = len(p)
  base = kind.replace('_npz', '')
  if base in ('base', 'modelnet', 'seg_shapenet'):
    out = {'points': p.astype(np.float32), 'normals': a['normals']}
    if base == 'seg_shapenet':
      out['labels'] = r.randint(0, 5, n).astype(np.int32)
  elif base == 'scannet':
    out = {'points': (p * 4 + 5).astype(np.float32), 'normals': a['normals'],
           'colors': r.randint(0, 256, (n, 3)).astype(np.float32), 'labels': r.randint(0, 21, n).astype(np.int32)}
    if n > 1:
      out['colors'][0], out['colors'][1] = 0, 255
    else:
      out['colors'][0] = 200
    if spec.get('flat') is not None:      # a channel without contrast
      out['colors'][:, spec['flat'] % 3] = 128
    if kind == 'scannet_npz' and spec.get('rich'):     # colours as averaged while resampling
      out['colors'] = (r.rand(n, 3) * 255).astype(np.float32)
  elif base == 'kitti':
    out = {'points': np.concatenate([p * 60, r.rand(n, 1)], 1).astype(np.float32),
           'labels': (r.choice([0, 1, 10, 40, 48, 70, 252, 259], n) + (r.randint(0, 50, n) << 16)).astype(np.int32)}
  elif base in ('ae', 'completion', 'image2shape'):
    out = {'points': (p * 0.5).astype(np.float32), 'normals': a['normals']}
    if kind in ('ae_npz', 'image2shape_npz'):
      out = {k: v.astype(np.float16) for k, v in out.items()}
    if base == 'image2shape':
      out['images'] = r.randint(0, 256, (spec.get('views', 24), 12, 10, 4)).astype(np.uint8)
  else:
    raise KeyError(kind)
  if spec.get('rich') and kind in RICH:
    # the widest types the formats hold
    out['points'] = out['points'].astype(np.float64) * (1 + 2.0 ** -30)
    out['normals'] = out['normals'].astype(np.float64)
    if 'colors' in out:
      out['colors'] = out['colors'].astype(np.float64)
    if 'labels' in out:
      out['labels'] = r.choice([-1, 0, 1, 5, 20, 254, 255, 256, 40000, 2 ** 31 - 1], n).astype(np.int64 if kind.endswith('_npz') else np.int32)
  return out


def write_ply(path, arr, text=False, rich=0):
  from plyfile import PlyData, PlyElement
  cols, types = [], []
  for key, names, t in (('points', 'x y z', 'f4'), ('normals', 'nx ny nz', 'f4'), ('colors', 'red green blue', 'u1'),
                        ('labels', 'label', 'u1')):
    if key in arr:
      v = np.asarray(arr[key])
      v = v.reshape(len(v), -1)
      for i, nm in enumerate(names.split()):
        cols.append(v[:, i])
        types.append((nm, v.dtype.str[1:] if rich else t))
  if rich:       # further properties, in another order
    cols.append(np.arange(len(cols[0]), dtype=np.float32))
    types.append(('quality', 'f4'))
    order = np.random.RandomState(rich % (2 ** 31)).permutation(len(cols))
    cols, types = [cols[i] for i in order], [types[i] for i in order]
  s = np.empty(len(cols[0]), dtype=types)
  for c, (nm, _) in zip(cols, types):
    s[nm] = c
  elements = [PlyElement.describe(s, 'vertex')]
  if rich:
    face = np.array([([0, 0, 0],)], dtype=[('vertex_indices', 'i4', (3,))])
    elements.insert(rich % 2, PlyElement.describe(face, 'face'))
  PlyData(elements, text).write(path)


def write(kind, root, i, spec, text=False):
  """Stores sample i below root; returns its name in the file list."""
  r = raw(kind, spec)
  base = kind.replace('_npz', '')
  npz = kind.endswith('_npz')
  sub = spec.get('dir', 'a')
  i = spec.get('num', i)
  if base == 'kitti':
    name = '%s/velodyne/%06d.bin' % (sub, i)
    p = os.path.join(root, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    r['points'].tofile(p)
    if not spec.get('nolabel'):
      q = p.replace('velodyne', 'labels').replace('.bin', '.label')
      os.makedirs(os.path.dirname(q), exist_ok=True)
      r['labels'].tofile(q)
    return name
  ext = '.npz' if npz else '.ply'
  stem = spec.get('stem', 's%03d') % i
  name = '%s/%s%s' % (sub, stem, ext)
  p = os.path.join(root, name)
  os.makedirs(os.path.dirname(p), exist_ok=True)
  arrays = {k: v for k, v in r.items() if k != 'images'}
  rich = spec['seed'] | 1 if spec.get('rich') and kind in RICH else 0
  if spec.get('rich') == 2 and rich:
    rich += 1
  if npz:
    if rich:
      arrays['quality'] = np.arange(3)
    np.savez(p, **arrays)
  else:
    write_ply(p, arrays, text, rich)
  if base == 'image2shape':
    from PIL import Image
    d = os.path.join(os.path.dirname(root), 'renderings', sub, stem, 'rendering')
    os.makedirs(d, exist_ok=True)
    for k, im in enumerate(r['images']):
      Image.fromarray(im, 'RGBA').save(os.path.join(d, '%02d.png' % k))
  return name[:-4] if base in ('ae', 'image2shape') else name


def points_root(kind, scratch):
  npz = kind.endswith('_npz')
  return os.path.join(scratch, 'data', 'points.npz' if npz else 'points.ply')


def warm():
  """Imports everything once, in the process the runs are forked from."""
  import datascts, thsolver, plyfile, PIL.Image, PIL.PngImagePlugin, scipy.ndimage, scipy.interpolate  # noqa
  import segmentation  # noqa


class Opened:
  pass


def paths(kind, root, name):
  """Every file that holds the sample."""
  base = kind.replace('_npz', '')
  ext = '.npz' if kind.endswith('_npz') else '.ply'
  if base in ('ae', 'image2shape'):
    out = [os.path.join(root, name + ext)]
    if base == 'image2shape':
      d = os.path.join(os.path.dirname(root), 'renderings', name, 'rendering')
      out += [os.path.join(d, f) for f in sorted(os.listdir(d))]
    return out
  out = [os.path.join(root, name)]
  if base == 'kitti':
    out.append(out[0].replace('velodyne', 'labels').replace('.bin', '.label'))
  return out


def _make(kind, fg, cfg):
  """Dataset, collate function, whether it merges points."""
  import datascts
  from thsolver import Dataset
  base = kind.replace('_npz', '')
  get = {'modelnet': datascts.get_modelnet40_dataset, 'seg_shapenet': datascts.get_seg_shapenet_dataset,
         'scannet': datascts.get_scannet_dataset, 'kitti': datascts.get_kitti_dataset, 'ae': datascts.get_ae_shapenet_dataset,
         'completion': datascts.get_completion_dataset, 'image2shape': datascts.get_image2shape_dataset}.get(base)
  if get is None:
    tr = ocnn.dataset.Transform(**fg)
    from datascts.utils import ReadPly
    ds = Dataset(fg.location, fg.filelist, tr, read_file=ReadPly(has_normal=True), in_memory=fg.in_memory)
    col = ocnn.dataset.CollateBatch(merge_points=bool(cfg.get('merge')))
    mg = bool(cfg.get('merge'))
  else:
    ds, col = get(fg)
    mg = kind in MERGES
    if fg.in_memory and not ds.in_memory:
      ds = Dataset(fg.location, fg.filelist, ds.transform, read_file=ds.read_file, in_memory=True)
  return ds, col, mg


def reopen(kind, o, cfg):
  """A second dataset on the same files."""
  return _make(kind, o.flags, cfg)[0]


def open_(kind, scratch, specs, cfg, text=False):
  """Writes the samples and opens the real dataset. Result: .dataset .collate .names .raw .root"""
  o = Opened()
  o.root = points_root(kind, scratch)
  os.makedirs(o.root, exist_ok=True)
  o.names = [write(kind, o.root, i, s, text) for i, s in enumerate(specs)]
  o.raw = [raw(kind, s) for s in specs]
  o.labels = [[s['seed'] % 7, s['seed'] % 1000, s['seed'] % 70000, s['seed'] % (1 << 25)][s['seed'] // 7 % 4] for s in specs]
  fl = os.path.join(scratch, 'list.txt')
  with open(fl, 'w') as f:
    for n, l in zip(o.names, o.labels):
      f.write('%s %d\n' % (n, l))
  fg = flags(cfg, o.root, fl)
  fg.filetype = 'npz' if kind.endswith('_npz') else 'ply'
  o.flags = fg
  o.dataset, o.collate, o.merges = _make(kind, fg, cfg)
  o.transform = o.dataset.transform
  return o


def full_seed(seed):
  """Pins every source of randomness the datasets use."""
  import random
  random.seed(seed)
  np.random.seed(seed % (2 ** 32))
  torch.manual_seed(seed)


def number(specs):
  """Numbers the samples anew in every folder, as recorded sequences do: files
  of different folders then share their base names."""
  seen = {}
  for s in specs:
    s['num'] = seen.setdefault(s.get('dir', 'a'), 0)
    seen[s.get('dir', 'a')] += 1
  return specs
