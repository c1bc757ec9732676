"""Every operator, module and network of the library under one interface.

A cfg is JSON; build(cfg) gives a module with seeded parameters; data(cfg, ...)
the per-sample inputs; run(...) a list of Out with the layout of each result,
so that a result can be split into samples.
"""
import copy

import numpy as np
import torch
import ocnn

from sim import gen

CONV = ['conv', 'conv', 'deconv', 'dw', 'group', 'convbn', 'convbnrelu', 'deconvbnrelu']
OPS = CONV + ['maxpool', 'unpool', 'avgpool', 'globalpool', 'pad', 'depad', 'upsample', 'upsample2', 'interp', 'interp',
              'groupnorm', 'instnorm', 'batchnorm', 'droppath', 'octree2voxel', 'octree2col', 'col2octree', 'align',
              'input', 'conv1x1', 'conv1x1bn', 'conv1x1bnrelu', 'resblock', 'resblock2', 'resblocks', 'nearest', 'linear']
NETS = ['LeNet', 'ResNet', 'HRNet', 'SegNet', 'UNet', 'UNetFull', 'AutoEncoder', 'Image2Shape', 'OUNet']
GEN_NETS = ('AutoEncoder', 'Image2Shape', 'OUNet')
KERN = ['333', '333', '333', '222', '311', '131', '113', '331', '313', '133']


class Out:
  """tensor + layout: ('node', d, nempty) | ('batch',) | ('pts',) | ('onode', d, nempty) of the generated octree"""

  def __init__(self, name, t, layout):
    self.name, self.t, self.layout = name, t, layout


def gen_op(rng, D, F, names=None):
  name = rng.choice(names or OPS)
  ne = rng.chance(0.5)
  kern = rng.choice(KERN)
  cfg = {'op': name, 'nempty': ne, 'c': rng.choice([1, 2, 3, 4]), 'co': rng.choice([1, 2, 3, 5]), 'seed': rng.seed31(),
         'kernel': kern, 'stride': rng.choice([1, 1, 2]), 'bias': rng.chance(0.4), 'direct': rng.chance(0.2),
         'limit': rng.choice([0, 0, 60, 500]), 'fd': round(rng.random(), 3), 'group': rng.choice([1, 2]),
         'method': rng.choice(['linear', 'nearest']), 'npts': rng.choice([1, 2, 5, 9]), 'bound': rng.chance(0.3),
         'rescale': rng.chance(0.6), 'feature': rng.choice(['NDF', 'ND', 'L', 'P', 'F', 'N', 'D', 'LP', 'NDLPF']),
         'ckpt': rng.chance(0.3), 'default_kernel': rng.chance(0.25)}
  if name in ('droppath',):
    cfg['prob'] = rng.choice([0.1, 0.5])
  return cfg


def gen_net(rng, D, F, names=None, full_unet=0.1):
  name = rng.choice(names or [n for n in NETS if n != 'UNetFull'])
  if name == 'UNet' and rng.chance(full_unet):
    name = 'UNetFull'
  cfg = {'op': name, 'nempty': rng.chance(0.5), 'c': 3, 'co': rng.choice([1, 2, 4]), 'seed': rng.seed31(),
         'method': rng.choice(['linear', 'nearest']), 'npts': rng.choice([1, 3, 8]), 'fd': 0.999, 'stages': rng.choice([2, 3]),
         'update': rng.chance(0.7), 'feature': rng.choice(['ND', 'L', 'NDF'])}
  return cfg


class SmallUNet(ocnn.models.UNet):
  """The documented way to configure a UNet."""

  def config_network(self):
    self.encoder_channel = [4, 4, 6, 8]
    self.decoder_channel = [8, 6, 6, 4]
    self.encoder_blocks = [1, 1, 2]
    self.decoder_blocks = [1, 2, 1]
    self.head_channel = 8
    self.bottleneck = 1
    self.resblk = ocnn.modules.OctreeResBlock2


def depth_of(cfg, D, F):
  """The depth the operator works at."""
  n = cfg['op']
  lo, hi = 1, D
  if n in ('deconv', 'deconvbnrelu') and cfg['stride'] == 2 or n in ('upsample',):
    hi = D - 1
  if n == 'upsample2':
    lo, hi = 1, D - 1
  if n in ('maxpool', 'unpool') or n == 'resblock' and cfg['stride'] == 2 or n == 'resblock2' and cfg['stride'] == 2:
    lo, hi = min(2, D), D
  if n == 'avgpool':
    lo = 1
  if n == 'octree2voxel':
    hi = min(D, 4)
  if n in ('input',) or n in NETS:
    return D
  hi = max(hi, lo)
  return lo + int(cfg['fd'] * (hi - lo + 1)) if cfg['fd'] < 1 else hi


def kernel_list(cfg):
  k = cfg['kernel']
  return [int(k[0])] if len(set(k)) == 1 else [int(c) for c in k]


def supported(cfg, D, F):
  n = cfg['op']
  if n == 'LeNet':
    return D - cfg['stages'] == 2 and F <= 2
  if n in ('ResNet',):
    return D - cfg['stages'] >= 1
  if n == 'HRNet':
    return D - cfg['stages'] >= 2
  if n == 'SegNet':
    return D - cfg['stages'] >= 1
  if n == 'UNet':
    return D >= 5
  if n == 'UNetFull':
    return D >= 6
  if n in GEN_NETS:
    return F == 2 and D in (3, 4)
  if n in ('deconv', 'deconvbnrelu') and cfg['stride'] == 2 or n in ('upsample', 'upsample2'):
    return D >= 2
  return True


def make(cfg, D=None, F=None, klist=None):
  """Constructs the module (None for functional operators)."""
  n, c, co, ne = cfg['op'], cfg['c'], cfg['co'], cfg['nempty']
  nn, mods = ocnn.nn, ocnn.modules
  if n in CONV:
    kw = dict(stride=cfg['stride'], nempty=ne)
    if not (cfg.get('default_kernel') and cfg['kernel'] == '333'):
      kw['kernel_size'] = klist if klist is not None else kernel_list(cfg)
    kdim = int(np.prod([int(x) for x in cfg['kernel']]))
    lim = {'max_buffer': max(cfg['limit'], kdim * max(c, co))} if cfg['limit'] else {}
    if n == 'conv':
      return nn.OctreeConv(c, co, use_bias=cfg['bias'], direct_method=cfg['direct'], **kw, **lim)
    if n == 'deconv':
      return nn.OctreeDeconv(c, co, use_bias=cfg['bias'], direct_method=cfg['direct'], **kw, **lim)
    if n == 'dw':
      return nn.OctreeDWConv(c, use_bias=cfg['bias'], **kw, **lim)
    if n == 'group':
      g = cfg['group']
      return nn.OctreeGroupConv(g * c, g * co, use_bias=cfg['bias'], group=g, **kw)
    if n == 'convbn':
      return mods.OctreeConvBn(c, co, **kw)
    if n == 'convbnrelu':
      return mods.OctreeConvBnRelu(c, co, **kw)
    return mods.OctreeDeconvBnRelu(c, co, **kw)
  if n == 'maxpool':
    return nn.OctreeMaxPool(ne, return_indices=True)
  if n == 'unpool':
    return torch.nn.ModuleList([nn.OctreeMaxPool(ne, return_indices=True), nn.OctreeMaxUnpool(ne)])
  if n == 'avgpool':
    return nn.OctreeAvgPool(klist if klist is not None else kernel_list(cfg), cfg['stride'], ne)
  if n == 'globalpool':
    return nn.OctreeGlobalPool(ne)
  if n in ('upsample', 'upsample2'):
    return nn.OctreeUpsample(cfg['method'], ne)
  if n == 'interp':
    return nn.OctreeInterp(cfg['method'], ne, cfg['bound'], cfg['rescale'])
  if n == 'groupnorm':
    return nn.OctreeGroupNorm(c * cfg['group'], cfg['group'], ne)
  if n == 'instnorm':
    return nn.OctreeInstanceNorm(c, ne)
  if n == 'batchnorm':
    return nn.OctreeBatchNorm(c)
  if n == 'droppath':
    return nn.OctreeDropPath(cfg['prob'], ne)
  if n == 'octree2voxel':
    return nn.Octree2Voxel(ne)
  if n == 'input':
    return mods.InputFeature(cfg['feature'], ne)
  if n == 'conv1x1':
    return mods.Conv1x1(c, co, cfg['bias'])
  if n == 'conv1x1bn':
    return mods.Conv1x1Bn(c, co)
  if n == 'conv1x1bnrelu':
    return mods.Conv1x1BnRelu(c, co)
  if n == 'resblock':
    return mods.OctreeResBlock(c, co * 2, cfg['stride'], 2, ne)
  if n == 'resblock2':
    return mods.OctreeResBlock2(c, co, cfg['stride'], 1, ne)
  if n == 'resblocks':
    return mods.OctreeResBlocks(c, co * 2, 2, 2, ne, use_checkpoint=cfg['ckpt'])
  if n == 'LeNet':
    return ocnn.models.LeNet(c, co, cfg['stages'], ne)
  if n == 'ResNet':
    return ocnn.models.ResNet(c, co, 1, cfg['stages'], ne)
  if n == 'HRNet':
    return ocnn.models.HRNet(c, co, cfg['stages'], cfg['method'], ne)
  if n == 'SegNet':
    return ocnn.models.SegNet(c, co, cfg['stages'], cfg['method'], ne)
  if n == 'UNet':
    return SmallUNet(c, co, cfg['method'], ne)
  if n == 'UNetFull':
    return ocnn.models.UNet(c, co, cfg['method'], ne)
  chan = {'ND': 4, 'L': 3, 'NDF': 6}
  if n == 'AutoEncoder':
    return ocnn.models.AutoEncoder(chan[cfg['feature']], 4, D, F, cfg['feature'])
  if n == 'OUNet':
    return ocnn.models.OUNet(chan[cfg['feature']], 4, D, F, cfg['feature'])
  if n == 'Image2Shape':
    return ocnn.models.Image2Shape(4, D, F)
  return None


def seed_params(mod, seed, train=False):
  """Deterministic parameters and running statistics, whatever drew them."""
  if mod is None:
    return None
  g = torch.Generator().manual_seed(seed % (2 ** 31))
  with torch.no_grad():
    for name, p in sorted(mod.named_parameters(), key=lambda kv: kv[0]):
      r = torch.randn(p.shape, generator=g)
      if p.dim() == 1:
        base = 1.0 if ('bn' in name or 'norm' in name or '.1.' in name) and name.endswith('weight') else 0.0
        p.copy_(base + 0.2 * r)
      else:
        fan = max(1, p.numel() // max(1, p.shape[-1])) if p.dim() == 3 else max(1, p.numel() // p.shape[0])
        p.copy_(r * (1.4 / fan ** 0.5))
    for name, b in sorted(mod.named_buffers(), key=lambda kv: kv[0]):
      if name.endswith('running_mean'):
        b.copy_(0.2 * torch.randn(b.shape, generator=g))
      elif name.endswith('running_var'):
        b.copy_(0.6 + torch.rand(b.shape, generator=g))
    # generating networks: spread the split decisions
    if hasattr(mod, 'predict'):
      for m in mod.predict:
        last = [x for x in m.modules() if isinstance(x, torch.nn.Linear)][-1]
        last.weight.mul_(2.0)
  mod.train(train)
  return mod


def build(cfg, D=None, F=None, klist=None, train=False):
  return seed_params(make(cfg, D, F, klist), cfg['seed'], train)


def in_layout(cfg, D, F):
  """layout of the data tensor, channel count (None: no data tensor)"""
  n, ne = cfg['op'], cfg['nempty']
  d = depth_of(cfg, D, F)
  c = cfg['c'] * (cfg['group'] if n in ('group', 'groupnorm') else 1)
  if n == 'input' or n in GEN_NETS:
    return None, None
  if n == 'pad':
    return ('node', d, True), c
  if n == 'depad':
    return ('node', d, False), c
  if n == 'col2octree':
    return None, None
  return ('node', d, ne), c


def rows(octree, layout):
  _, d, ne = layout
  return int(octree.nnum_nempty[d] if ne else octree.nnum[d])


def sample_data(cfg, D, F, octrees, sample_seeds, salt=0):
  """One tensor per sample (None if the operator takes no data)."""
  lay, c = in_layout(cfg, D, F)
  if lay is None:
    if cfg['op'] == 'Image2Shape':
      return [gen.tensor((s ^ cfg['seed'] ^ salt) % (2 ** 31), 1, 3, 64, 64) for s in sample_seeds]
    return None
  return [gen.tensor((s ^ cfg['seed'] ^ salt) % (2 ** 31), rows(o, lay), c) for o, s in zip(octrees, sample_seeds)]


def has_pts(cfg):
  return cfg['op'] in ('interp', 'nearest', 'linear', 'SegNet', 'UNet', 'UNetFull')


def sample_pts(cfg, D, F, sample_seeds, specs=None):
  """One (n,3) tensor per sample, in the scale the operator expects."""
  if not has_pts(cfg):
    return None
  out = []
  d = depth_of(cfg, D, F)
  for k, s in enumerate(sample_seeds):
    r = np.random.RandomState((s ^ cfg['seed'] ^ 0x1234) % (2 ** 31))
    p = r.uniform(-0.95, 0.95, (cfg['npts'], 3)).astype(np.float32)
    if specs is not None:
      c = gen.cloud(specs[k])
      sel = r.randint(len(c), size=cfg['npts'])
      near = r.rand(cfg['npts']) < 0.7
      p[near] = np.clip(c[sel][near] + r.randn(int(near.sum()), 3).astype(np.float32) * 0.02, -0.99, 0.99)
    if cfg['op'] in ('nearest', 'linear') or (cfg['op'] == 'interp' and not cfg['rescale']):
      p = (p + 1) * np.float32(2 ** (d - 1))
    out.append(torch.from_numpy(p.astype(np.float32)))
  return out


def batch_pts(per_sample, order_seed=None):
  """(N,4) points with the batch column and, for each row, (sample, row)."""
  rows_ = [(i, j) for i, p in enumerate(per_sample) for j in range(len(p))]
  if order_seed is not None:
    np.random.RandomState(order_seed % (2 ** 31)).shuffle(rows_)
  t = torch.stack([torch.cat([per_sample[i][j], torch.tensor([float(i)])]) for i, j in rows_])
  return t, rows_


def run(cfg, mod, octree, D, F, x=None, pts=None, octree2=None):
  """Executes the operator. Returns [Out]."""
  n, ne = cfg['op'], cfg['nempty']
  d = depth_of(cfg, D, F)
  nn = ocnn.nn
  if n in CONV:
    t = mod(x, octree, d)
    do = d
    if cfg['stride'] == 2:
      do = d + 1 if n in ('deconv', 'deconvbnrelu') else d - 1
    return [Out('out', t, ('node', do, ne))]
  if n == 'maxpool':
    a, i = mod(x, octree, d)
    return [Out('out', a, ('node', d - 1, ne)), Out('indices', i, ('node', d - 1, True))]
  if n == 'unpool':
    a, i = mod[0](x, octree, d)
    return [Out('out', mod[1](a, i, octree, d - 1), ('node', d, ne))]
  if n == 'avgpool':
    t = mod(x, octree, d)
    return [Out('out', t, ('node', d - 1, True) if cfg['stride'] == 2 else ('node', d, ne))]
  if n == 'globalpool':
    return [Out('out', mod(x, octree, d), ('batch',))]
  if n == 'pad':
    return [Out('out', nn.octree_pad(x, octree, d, 1.5), ('node', d, False))]
  if n == 'depad':
    return [Out('out', nn.octree_depad(x, octree, d), ('node', d, True))]
  if n == 'upsample':
    return [Out('out', mod(x, octree, d), ('node', d + 1, ne))]
  if n == 'upsample2':
    return [Out('out', mod(x, octree, d, D), ('node', D, ne))]
  if n == 'interp':
    return [Out('out', mod(x, octree, d, pts), ('pts',))]
  if n == 'nearest':
    return [Out('out', nn.octree_nearest_pts(x, octree, d, pts, ne, cfg['bound']), ('pts',))]
  if n == 'linear':
    return [Out('out', nn.octree_linear_pts(x, octree, d, pts, ne, cfg['bound']), ('pts',))]
  if n in ('groupnorm', 'instnorm', 'droppath'):
    return [Out('out', mod(x, octree, d), ('node', d, ne))]
  if n in ('batchnorm', 'conv1x1', 'conv1x1bn', 'conv1x1bnrelu'):
    return [Out('out', mod(x), ('node', d, ne))]
  if n == 'octree2voxel':
    return [Out('out', mod(x, octree, d), ('batch',))]
  if n == 'octree2col':
    t = nn.octree2col(x, octree, d, cfg['kernel'], cfg['stride'], ne)
    return [Out('out', t, ('node', d - 1, True) if cfg['stride'] == 2 else ('node', d, ne))]
  if n == 'col2octree':
    col = nn.octree2col(_ramp(octree, d, ne), octree, d,
                        cfg['kernel'], cfg['stride'], ne)
    return [Out('out', nn.col2octree(col, octree, d, cfg['kernel'], cfg['stride'], ne), ('node', d, ne))]
  if n == 'align':
    o2 = octree2 if octree2 is not None else octree
    return [Out('out', nn.octree_align(x, octree, o2, d, ne), ('qnode', d, ne))]
  if n == 'input':
    return [Out('out', mod(octree), ('node', D, ne))]
  if n == 'resblock':
    return [Out('out', mod(x, octree, d), ('node', d - 1 if cfg['stride'] == 2 else d, ne))]
  if n == 'resblock2':
    return [Out('out', mod(x, octree, d), ('node', d - 1 if cfg['stride'] == 2 else d, ne))]
  if n == 'resblocks':
    return [Out('out', mod(x, octree, d), ('node', d, ne))]
  if n in ('LeNet', 'ResNet', 'HRNet'):
    return [Out('logit', mod(x, octree, D), ('batch',))]
  if n in ('SegNet', 'UNet', 'UNetFull'):
    return [Out('logit', mod(x, octree, D, pts), ('pts',))]
  if n in GEN_NETS:
    if n == 'AutoEncoder':
      res = mod(octree, cfg['update'])
    elif n == 'OUNet':
      res = mod(octree, None if cfg['update'] else octree, cfg['update'])
    else:
      res = mod(x, None if cfg['update'] else octree, cfg['update'])
    oo = res['octree_out']
    outs = []
    for e in range(F, D + 1):
      outs.append(Out('logit%d' % e, res['logits'][e], ('onode', e, False)))
      outs.append(Out('key%d' % e, oo.keys[e], ('onode', e, False)))
    outs.append(Out('signal', res['signal'], ('onode', D, True)))
    for o in outs:
      o.octree = oo
    return outs
  raise KeyError(n)


def _ramp(octree, d, ne):
  x, y, z, b = octree.xyzb(d, ne)
  v = torch.stack([x, y, z], 1).float()
  return torch.sin(v * 0.7) + 0.1 * v


def sample_rows(octree, layout, i, ptrows=None):
  """Row indices of sample i in an output of this layout."""
  if layout[0] == 'batch':
    return [i]
  if layout[0] == 'pts':
    return [k for k, (s, _) in enumerate(ptrows) if s == i]
  _, d, ne = layout
  b = octree.keys[d] >> 48
  if ne:
    b = b[octree.children[d] >= 0]
  return torch.nonzero(b == i).flatten().tolist()
