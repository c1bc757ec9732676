"""Snapshots of documented state, to detect that an input was changed."""
import torch
from sim.torchseam import digest

LISTS = ('keys', 'children', 'neighs', 'features', 'normals', 'points')
TENS = ('nnum', 'nnum_nempty', 'batch_nnum', 'batch_nnum_nempty')


def octree(o):
  d = {'depth': o.depth, 'full_depth': o.full_depth, 'batch_size': o.batch_size, 'device': str(o.device)}
  for k in LISTS:
    for i, t in enumerate(getattr(o, k)):
      d['%s[%d]' % (k, i)] = digest(t)
  for k in TENS:
    d[k] = digest(getattr(o, k))
  return d


def points(p):
  d = {'batch_size': p.batch_size, 'device': str(p.device)}
  for k in ('points', 'normals', 'features', 'labels', 'batch_id', 'batch_npt'):
    v = getattr(p, k, None)
    d[k] = digest(v) if isinstance(v, torch.Tensor) or v is None else str(v)
  return d


def module(m):
  d = {}
  for k, v in m.state_dict(keep_vars=True).items():
    d['param ' + k] = digest(v)
  for k, v in m.named_parameters():
    d['grad ' + k] = digest(v.grad)
  return d


def any_(x):
  import ocnn
  import numpy as np
  if isinstance(x, torch.Tensor):
    return {'tensor': digest(x)}
  if isinstance(x, ocnn.octree.Octree):
    return octree(x)
  if isinstance(x, ocnn.octree.Points):
    return points(x)
  if isinstance(x, torch.nn.Module):
    return module(x)
  if isinstance(x, np.ndarray):
    import hashlib
    return {'array': str((x.dtype, x.shape)) + hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()[:16]}
  if isinstance(x, (list, tuple)):
    d = {'len': len(x), 'type': type(x).__name__}
    for i, v in enumerate(x):
      for k, w in any_(v).items():
        d['[%d].%s' % (i, k)] = w
    return d
  if isinstance(x, dict):
    d = {'keys': str(sorted(map(str, x.keys())))}
    for i in x:
      for k, w in any_(x[i]).items():
        d['{%s}.%s' % (i, k)] = w
    return d
  return {'value': repr(x)[:200]}


def diff(a, b):
  return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
