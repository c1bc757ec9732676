"""Small executable reference models, written from the documentation.

RefOctree stores the voxel coordinates of every level in node order and
nothing else; neighbours and lookups are dictionary searches.
"""
import numpy as np

OFF8 = [(i, j, k) for i in (0, 1) for j in (0, 1) for k in (0, 1)]
OFF27 = [(i, j, k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)]


def slow_key(b, x, y, z, depth):
  k = 0
  for i in range(depth):
    k |= ((x >> i) & 1) << (3 * i + 2)
    k |= ((y >> i) & 1) << (3 * i + 1)
    k |= ((z >> i) & 1) << (3 * i)
  return (b << 48) | k


def slow_keys(coords, depth):
  c = coords.astype(np.int64)
  k = np.zeros(len(c), np.int64)
  for i in range(depth):
    k |= ((c[:, 1] >> i) & 1) << (3 * i + 2)
    k |= ((c[:, 2] >> i) & 1) << (3 * i + 1)
    k |= ((c[:, 3] >> i) & 1) << (3 * i)
  return k | (c[:, 0] << 48)


KERNELS = {'333': (3, 3, 3), '311': (3, 1, 1), '131': (1, 3, 1), '113': (1, 1, 3), '331': (3, 3, 1),
           '313': (3, 1, 3), '133': (1, 3, 3), '222': (2, 2, 2)}


def kernel_offsets(kernel):
  """Offsets of a kernel in its documented (x-major) order; an odd extent is
  centred, an even extent of 2 covers offsets 0 and 1."""
  ext = KERNELS[kernel]
  rng = [range(-1, 2) if e == 3 else range(0, 2) if e == 2 else range(0, 1) for e in ext]
  return [(i, j, k) for i in rng[0] for j in rng[1] for k in rng[2]]


def linear(c, d):
  """One number per voxel of depth d, in row order; room for offsets of 1 around the cube."""
  c = np.asarray(c, np.int64)
  s = (1 << d) + 2
  return ((c[:, 0] * s + c[:, 1] + 1) * s + c[:, 2] + 1) * s + c[:, 3] + 1


def find(table, order, query):
  """The rows of `query` in table[order] (sorted), -1 where absent."""
  at = np.searchsorted(table[order], query)
  at = np.minimum(at, len(order) - 1)
  return np.where(table[order][at] == query, order[at], -1)


class RefOctree:
  def __init__(self, depth, full_depth, batch_size):
    self.depth, self.full_depth, self.batch_size = depth, full_depth, batch_size
    self.coords = [None] * (depth + 1)   # (N,4) int64: b,x,y,z in node order
    self.nempty = [None] * (depth + 1)   # (N,) bool
    self.neigh_ok = [False] * (depth + 1)
    self.specs = None                    # the clouds it was built from
    self.merged = False                  # nodes per sample are documented to be valid after a merge only

  def copy(self):
    o = RefOctree(self.depth, self.full_depth, self.batch_size)
    o.coords = list(self.coords)
    o.nempty = list(self.nempty)
    o.neigh_ok = list(self.neigh_ok)
    o.merged = self.merged
    return o

  # -- history operations
  def grow_full(self, d, neigh=False):
    c = np.zeros((1, 3), np.int64)
    for _ in range(d):
      c = (c[:, None, :] * 2 + np.array(OFF8)[None]).reshape(-1, 3)
    full = np.concatenate([np.concatenate([np.full((len(c), 1), b), c], 1) for b in range(self.batch_size)])
    self.coords[d] = full.astype(np.int64)
    self.nempty[d] = np.ones(len(full), bool)
    self.neigh_ok[d] = bool(neigh)
    self._stale(d)

  def _stale(self, d):
    """levels below a changed level no longer follow from the history"""
    for e in range(d + 1, self.depth + 1):
      if e <= self.full_depth:
        continue
      self.coords[e] = None
      self.nempty[e] = None
      self.neigh_ok[e] = False

  def build(self, vox):
    """vox: (N,4) occupied finest voxels b,x,y,z"""
    for d in range(self.full_depth + 1):
      self.grow_full(d)
    if len(vox) > 1500:
      return self._build_large(vox)
    occ = [None] * (self.depth + 1)
    cur = {tuple(v) for v in vox.tolist()}
    for d in range(self.depth, -1, -1):
      occ[d] = cur
      cur = {(b, x >> 1, y >> 1, z >> 1) for b, x, y, z in cur}
    for d in range(self.full_depth, self.depth + 1):
      if d > self.full_depth:
        self.coords[d] = self._children(d - 1)
      self.nempty[d] = np.array([tuple(v) in occ[d] for v in self.coords[d].tolist()], bool)
      self.neigh_ok[d] = False

  def _build_large(self, vox):
    vox = np.asarray(vox, np.int64)
    for d in range(self.full_depth, self.depth + 1):
      if d > self.full_depth:
        self.coords[d] = self._children(d - 1)
      occ = np.concatenate([vox[:, :1], vox[:, 1:] >> (self.depth - d)], 1)
      self.nempty[d] = np.isin(linear(self.coords[d], d), linear(occ, d))
      self.neigh_ok[d] = False

  def _children(self, d):
    p = self.coords[d][self.nempty[d]]
    off = np.array([(0,) + o for o in OFF8], np.int64)
    mul = np.array([1, 2, 2, 2], np.int64)
    return ((p * mul)[:, None, :] + off[None]).reshape(-1, 4)

  def split(self, d, flags):
    f = np.asarray(flags).astype(bool).copy()
    if not f.any():
      f[0] = True
    self.nempty[d] = f
    self.merged = False
    self._stale(d)

  def grow(self, d, neigh=False):
    self.coords[d] = self._children(d - 1)
    self.nempty[d] = np.ones(len(self.coords[d]), bool)
    self.neigh_ok[d] = bool(neigh)
    self.merged = False
    for e in range(d + 1, self.depth + 1):
      self.coords[e] = self.nempty[e] = None
      self.neigh_ok[e] = False

  def valid_depth(self):
    d = -1
    while d < self.depth and self.coords[d + 1] is not None:
      d += 1
    return d

  @staticmethod
  def merge(refs):
    o = RefOctree(refs[0].depth, refs[0].full_depth, sum(1 for _ in refs))
    for d in range(o.depth + 1):
      cs, ne = [], []
      for i, r in enumerate(refs):
        c = r.coords[d].copy()
        c[:, 0] = i
        cs.append(c)
        ne.append(r.nempty[d])
      o.coords[d] = np.concatenate(cs)
      o.nempty[d] = np.concatenate(ne)
    o.merged = True
    return o

  # -- queries
  def nnum(self, d):
    return len(self.coords[d])

  def nnum_nempty(self, d):
    return int(self.nempty[d].sum())

  def children(self, d):
    c = np.cumsum(self.nempty[d]) - 1
    return np.where(self.nempty[d], c, -1)

  def index(self, d, nempty=False):
    c = self.coords[d][self.nempty[d]] if nempty else self.coords[d]
    return {tuple(v): i for i, v in enumerate(c.tolist())}

  def neigh(self, d, kernel='333', stride=1, nempty=False):
    c = self.coords[d]
    large = len(c) > 1500
    if large:
      table = linear(c[self.nempty[d]] if nempty else c, d)
      order = np.argsort(table, kind='stable')
    else:
      get = self.index(d, nempty).get
    if stride == 2:
      c = c[::8]
    elif nempty:
      c = c[self.nempty[d]]
    offs = OFF27 if kernel == '333' else kernel_offsets(kernel)
    if large:
      return np.stack([find(table, order, linear(c + np.array((0,) + o), d)) for o in offs], 1)
    out = np.array([[get((b, x + i, y + j, z + k), -1) for i, j, k in offs]
                    for b, x, y, z in c.tolist()], np.int64)
    return out.reshape(len(c), len(offs))


def voxels(points, batch, depth):
  """Occupied voxels of points in [-1,1) (numpy float32 arithmetic as
  documented: (p+1) * 2^(depth-1), truncated)."""
  p = ((points.astype(np.float32) + np.float32(1)) * np.float32(2 ** (depth - 1))).astype(np.int64)
  return np.concatenate([np.asarray(batch, np.int64).reshape(-1, 1), p], 1)


def conv_ref(data, weights, neigh):
  """out[n] = sum_k data[neigh[n,k]] @ W[k]   (float64)"""
  data, weights = data.astype(np.float64), weights.astype(np.float64)
  ext = np.concatenate([data, np.zeros((1, data.shape[1]))])
  g = ext[neigh]                       # (N,K,C), -1 -> zero row
  return np.einsum('nkc,kco->no', g, weights)


def deconv_ref(data, weights, neigh, out_h):
  """adjoint: out[neigh[n,k]] += data[n] @ W[k]^T"""
  data, weights = data.astype(np.float64), weights.astype(np.float64)
  contrib = np.einsum('no,kco->nkc', data, weights)
  out = np.zeros((out_h + 1, weights.shape[1]))
  np.add.at(out, neigh.reshape(-1), contrib.reshape(-1, weights.shape[1]))
  return out[:out_h]


def dwconv_ref(data, weights, neigh):
  data, weights = data.astype(np.float64), weights.astype(np.float64)
  ext = np.concatenate([data, np.zeros((1, data.shape[1]))])
  w = weights.reshape(neigh.shape[1], data.shape[1])
  return np.einsum('nkc,kc->nc', ext[neigh], w)


def compare_level(oct_, ref, d, fail, check_neigh=True):
  """Compares level d of a real octree with the reference. `fail(cls, text)`."""
  import torch
  c = ref.coords[d]
  n = len(c)
  key = oct_.keys[d]
  if key is None or key.numel() != n:
    fail('level-nodes', 'depth %d: %s nodes listed, expected %d' % (d, None if key is None else key.numel(), n))
    return
  want = slow_keys(c, d)
  got = key.detach().cpu().numpy()
  if not np.array_equal(got, want):
    i = int(np.nonzero(got != want)[0][0])
    fail('level-keys', 'depth %d node %d: key %d, expected %d %s' % (d, i, got[i], want[i], c[i].tolist()))
  if int(oct_.nnum[d]) != n:
    fail('level-count', 'depth %d: nnum %d, nodes %d' % (d, int(oct_.nnum[d]), n))
  if int(oct_.nnum_nempty[d]) != ref.nnum_nempty(d):
    fail('level-count', 'depth %d: nnum_nempty %d, expected %d' % (d, int(oct_.nnum_nempty[d]), ref.nnum_nempty(d)))
  ch = oct_.children[d]
  wantc = ref.children(d)
  if ch is None or ch.numel() != n or not np.array_equal(ch.cpu().numpy(), wantc):
    fail('level-children', 'depth %d: children differ from the split decisions' % d)
  x, y, z, b = oct_.xyzb(d)
  got = torch.stack([b, x, y, z], 1).cpu().numpy()
  if not np.array_equal(got, c):
    fail('level-xyzb', 'depth %d: coordinates differ' % d)
  bid = oct_.batch_id(d, nempty=True).cpu().numpy()
  if not np.array_equal(bid, c[ref.nempty[d]][:, 0]):
    fail('level-batch', 'depth %d: batch ids of non-empty nodes differ' % d)
  bid = oct_.batch_id(d).cpu().numpy()
  if not np.array_equal(bid, c[:, 0]):
    fail('level-batch', 'depth %d: batch ids differ' % d)
  if not np.array_equal(oct_.nempty_mask(d).cpu().numpy(), ref.nempty[d]):
    fail('level-children', 'depth %d: the mask of non-empty nodes differs' % d)
  if not np.array_equal(oct_.key(d, nempty=True).cpu().numpy(), want[ref.nempty[d]]):
    fail('level-keys', 'depth %d: keys of non-empty nodes differ' % d)
  x, y, z, b = oct_.xyzb(d, nempty=True)
  if not np.array_equal(torch.stack([b, x, y, z], 1).cpu().numpy(), c[ref.nempty[d]]):
    fail('level-xyzb', 'depth %d: coordinates of non-empty nodes differ' % d)
  if ref.merged:
    for name, rows in (('batch_nnum', c), ('batch_nnum_nempty', c[ref.nempty[d]])):
      wantn = np.bincount(rows[:, 0], minlength=ref.batch_size)
      got = np.asarray(getattr(oct_, name)[d].cpu())
      if not np.array_equal(got, wantn):
        fail('level-count', 'depth %d: %s is %s, the nodes per sample are %s' % (d, name, got.tolist()[:8], wantn.tolist()[:8]))
  if check_neigh and ref.neigh_ok[d] and d > 0:
    nb = oct_.neighs[d]
    wantn = ref.neigh(d)
    if nb is None or tuple(nb.shape) != wantn.shape or not np.array_equal(nb.cpu().numpy(), wantn):
      msg = 'missing'
      if nb is not None and tuple(nb.shape) == wantn.shape:
        i, k = [int(v) for v in np.argwhere(nb.cpu().numpy() != wantn)[0]]
        msg = 'node %d %s offset %s: neighbour %d, expected %d' % (
            i, c[i].tolist(), OFF27[k], int(nb[i, k]), wantn[i, k])
      fail('level-neigh', 'depth %d: %s' % (d, msg))
