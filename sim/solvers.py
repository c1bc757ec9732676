"""The project solvers (thsolver loop, real eval/test steps) on CPU with a
controllable network."""
import os

import numpy as np
import torch

from sim import boot


def warm():
  import thsolver, segmentation, autoencoder, image2shape, classification, completion  # noqa
  boot.patch_cuda()
  torch.cuda.current_device = lambda: 'cpu'
  import tqdm
  tqdm.tqdm.monitor_interval = 0      # no monitor thread


def flags(data, logdir, solver=None, loss=None, model=None):
  from thsolver.config import get_config
  f = get_config().clone()
  f.defrost()
  f.SOLVER.gpu = (0,)
  f.SOLVER.run = 'evaluate'
  f.SOLVER.logdir = logdir
  f.SOLVER.progress_bar = False
  f.SOLVER.empty_cache = False
  for k, v in (solver or {}).items():
    f.SOLVER[k] = v
  f.DATA.test = data
  f.DATA.train = data.clone()
  for k, v in (loss or {}).items():
    f.LOSS[k] = v
  for k, v in (model or {}).items():
    f.MODEL[k] = v
  return f


class Recorder(torch.utils.data.Dataset):
  """The real dataset; notes what was handed out (name, mask, points)."""

  def __init__(self, dataset, log):
    self.d, self.log = dataset, log

  def __len__(self):
    return len(self.d)

  def __getitem__(self, i):
    s = self.d[i]
    self.log.append((s['filename'], s['inbox_mask'].clone().numpy(), s['points'].points.clone().numpy(),
                     None if s['points'].labels is None else s['points'].labels.clone().numpy().reshape(-1)))
    return s


class PlanLoader:
  """Batches in the order of the plan."""

  def __init__(self, dataset, collate, passes):
    self.dataset, self.collate, self.passes = dataset, collate, passes
    self.per = len(passes[0])
    self.flat = [b for p in passes for b in p]

  def __len__(self):
    return self.per

  def __iter__(self):
    for idx in self.flat:
      yield self.collate([self.dataset[i] for i in idx])


def logits(xyz, count, classes, seed):
  """The stand-in network: per point a smooth function of its position and of
  the number of voxels of its own sample. float64 in, float32 out."""
  r = np.random.RandomState(seed % (2 ** 31))
  W = r.randn(3, classes) * 3
  b = r.rand(classes) * 6
  x = np.asarray(xyz, np.float64)
  return (2.5 * np.sin(x @ W + b + 0.1 * np.asarray(count, np.float64).reshape(-1, 1))).astype(np.float32)


class StubSeg(torch.nn.Module):
  def __init__(self, classes, seed):
    super().__init__()
    self.classes, self.seed = classes, seed
    self.calls = 0
    self.w = torch.nn.Parameter(torch.zeros(1))

  def forward(self, data, octree, depth, query_pts):
    self.calls += 1
    q = query_pts.detach().double().numpy()
    key = octree.keys[depth][octree.children[depth] >= 0].numpy()
    cnt = np.bincount(key >> 48, minlength=octree.batch_size)
    b = q[:, 3].astype(np.int64)
    return torch.from_numpy(logits(q[:, :3], cnt[b] if len(b) else np.zeros(0), self.classes, self.seed))


def softmax(l):
  e = np.exp(l.astype(np.float64) - l.max(1, keepdims=True))
  return e / e.sum(1, keepdims=True)


# -- generation --------------------------------------------------------------

def signature(data, b):
  """Content of sample b: its finest non-empty voxels, or its image."""
  import hashlib
  if isinstance(data, torch.Tensor):
    raw = data[b].detach().contiguous().numpy().tobytes()
  else:
    D = data.depth
    key = data.keys[D][data.children[D] >= 0]
    key = key[(key >> 48) == b] & ((1 << 48) - 1)
    raw = key.sort()[0].numpy().astype(np.int64).tobytes()
  return int.from_bytes(hashlib.sha256(raw).digest()[:4], 'little') % (2 ** 31)


def generated(sig, seed, depth, empty):
  """The voxels the stand-in network generates for a content signature."""
  r = np.random.RandomState((sig * 31 + seed) % (2 ** 31))
  if r.rand() < empty:
    return np.zeros([0, 3], np.int64)
  n = r.randint(1, 40)
  return np.unique(r.randint(0, 2 ** depth, [n, 3]), axis=0)


def signal(vox, sig, seed):
  r = np.random.RandomState((sig * 17 + seed) % (2 ** 31))
  return np.tanh(2.0 * np.sin(np.asarray(vox, np.float64) @ (r.randn(3, 4) * 3) + r.rand(4) * 6)).astype(np.float32)


def signal_points(vox, sig, seed, depth):
  """float64 reference: displaced voxel centres in [-1, 1] and unit normals."""
  s = signal(vox, sig, seed).astype(np.float64)
  n = s[:, :3] / np.maximum(np.linalg.norm(s[:, :3], axis=1, keepdims=True), 1e-12)
  xyz = vox + 0.5 + s[:, 3:] * n
  return np.concatenate([xyz / 2.0 ** (depth - 1) - 1.0, n], axis=1)


class StubGen(torch.nn.Module):
  """Grows, with the real octree code, for every sample the voxels of its
  signature."""

  def __init__(self, seed, depth, full, empty):
    super().__init__()
    self.seed, self.depth, self.full, self.empty = seed, depth, full, empty
    self.w = torch.nn.Parameter(torch.zeros(1))

  def forward(self, data, *a, update_octree=False):
    import ocnn
    B = data.size(0) if isinstance(data, torch.Tensor) else data.batch_size
    D = self.depth
    sigs = [signature(data, b) for b in range(B)]
    vox = [generated(s, self.seed, D, self.empty) for s in sigs]
    t = ocnn.octree.init_octree(D, self.full, B)
    for d in range(self.full, D + 1):
      x, y, z, b = (v.numpy() for v in t.xyzb(d))
      want = {(k, *v) for k in range(B) for v in (vox[k] >> (D - d)).tolist()}
      split = np.array([(int(k), int(i), int(j), int(l)) in want for k, i, j, l in zip(b, x, y, z)], np.int64)
      t.octree_split(torch.from_numpy(split).int(), d)
      if d < D:
        t.octree_grow(d + 1)
    x, y, z, b = (v.numpy() for v in t.xyzb(D, nempty=True))
    sig = np.zeros([len(b), 4], np.float32)
    v = np.stack([x, y, z], 1).astype(np.int64)
    for k in range(B):
      if (b == k).any():
        sig[b == k] = signal(v[b == k], sigs[k], self.seed)
    t.features[D] = torch.from_numpy(sig)
    return {'octree_out': t, 'signal': t.features[D], 'logits': {}}


class RecorderGen(torch.utils.data.Dataset):
  """The real dataset; notes name, signature, points and image handed out."""

  def __init__(self, dataset, log):
    self.d, self.log = dataset, log

  def __len__(self):
    return len(self.d)

  def __getitem__(self, i):
    s = self.d[i]
    p = s['points']
    cols = [p.points] + ([p.normals] if p.normals is not None else [])
    img = s.get('image')
    if img is not None:
      sig = signature(img.unsqueeze(0), 0)
      img = img.clone().numpy()
    else:
      t = s['octree']
      sig = signature(t, 0)
    self.log.append((s['filename'], sig, torch.cat(cols, 1).numpy().copy(), img))
    return s
