"""Workload data, generated from integers in the plan."""
import numpy as np

CLOUDS = ['uniform', 'sphere', 'plane', 'cluster', 'line', 'grid', 'corner', 'single']


def cloud(spec):
  """spec: {seed, n, kind} -> (N,3) float32 points inside [-0.98, 0.98]."""
  r = np.random.RandomState(spec['seed'] % (2 ** 31))
  n, kind = spec['n'], spec['kind']
  if kind == 'uniform':
    p = r.uniform(-0.97, 0.97, (n, 3))
  elif kind == 'sphere':
    p = r.randn(n, 3)
    p = p / np.maximum(np.linalg.norm(p, axis=1, keepdims=True), 1e-6) * r.uniform(0.3, 0.9)
  elif kind == 'plane':
    p = r.uniform(-0.9, 0.9, (n, 3))
    p[:, r.randint(3)] = r.uniform(-0.9, 0.9)
  elif kind == 'cluster':
    c = r.uniform(-0.8, 0.8, (3, 3))
    p = c[r.randint(3, size=n)] + r.randn(n, 3) * 0.05
  elif kind == 'line':
    a, b = r.uniform(-0.9, 0.9, (2, 3))
    p = a + (b - a) * r.rand(n, 1)
  elif kind == 'grid':      # exact voxel corners
    p = r.randint(-31, 31, (n, 3)) / 32.0
  elif kind == 'corner':    # the extreme corners of the cube
    p = r.choice([-0.999, 0.999], (n, 3)) * r.uniform(0.97, 1.0, (n, 1))
  else:
    p = np.repeat(r.uniform(-0.9, 0.9, (1, 3)), n, 0)
  p = np.clip(p, -0.999, 0.999).astype(np.float32)
  if spec.get('perm'):      # the same node counts at every depth, other positions
    p = np.ascontiguousarray(p[:, spec['perm']])
  return p


PERMS = [[1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]]


def cloud_spec(rng, lo=1, hi=60):
  n = rng.choice([rng.randint(lo, hi), rng.randint(lo, max(lo, hi // 4)), lo])
  return {'seed': rng.seed31(), 'n': n, 'kind': rng.choice(CLOUDS)}


def attrs(spec, normals=True, feats=0, labels=False):
  """normals (N,3) unit, features (N,feats), labels (N,1)"""
  r = np.random.RandomState((spec['seed'] ^ 0x5bd1e995) % (2 ** 31))
  n = spec['n']
  out = {}
  nv = r.randn(n, 3).astype(np.float32)
  nv /= np.maximum(np.linalg.norm(nv, axis=1, keepdims=True), 1e-6)
  if normals:
    out['normals'] = nv.astype(np.float32)
  if feats:
    out['features'] = r.randn(n, feats).astype(np.float32)
  if labels:
    out['labels'] = r.randint(0, 5, (n, 1)).astype(np.float32)
  return out


def make_points(spec, normals=True, feats=0, labels=False, batch_id=False):
  import torch
  import ocnn
  a = attrs(spec, normals, feats, labels)
  kw = {k: torch.from_numpy(v.copy()) for k, v in a.items()}
  return ocnn.octree.Points(torch.from_numpy(cloud(spec)), **kw)


def make_octree(spec, depth, full_depth, normals=True, feats=0):
  import ocnn
  o = ocnn.octree.Octree(depth, full_depth)
  o.build_octree(make_points(spec, normals, feats))
  return o


def make_batch(specs, depth, full_depth, normals=True, feats=0, neigh=True):
  import ocnn
  os_ = [make_octree(s, depth, full_depth, normals, feats) for s in specs]
  o = ocnn.octree.merge_octrees(os_)
  if neigh:
    o.construct_all_neigh()
  return o


def ref_batch(specs, depth, full_depth):
  from sim.refmodel import RefOctree, voxels
  o = RefOctree(depth, full_depth, len(specs))
  v = np.concatenate([voxels(cloud(s), np.full(s['n'], i), depth) for i, s in enumerate(specs)])
  o.build(v)
  return o


def tensor(seed, *shape, scale=1.0, dtype=None):
  import torch
  g = torch.Generator().manual_seed(int(seed))
  t = torch.randn(*shape, generator=g, dtype=torch.float32) * scale
  return t if dtype is None else t.to(dtype)
