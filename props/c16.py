"""C16: checkpoint upgrade preserves the original and converts every weight."""
import copy
import os

import numpy as np
import torch

from sim import simio, tools
from sim.core import Prop, Violation

NETS = ('LeNet', 'ResNet', 'HRNet', 'SegNet', 'UNet', 'AutoEncoder', 'OUNet')


class P(Prop):
  id = 'C16'
  runs = {'quick': 1300, 'thorough': 60000}
  soft_s = {'quick': 45, 'thorough': 2700}
  shrink_lists = ('faults', 'keep')
  rule = ('a run upgrades one checkpoint (entries of one network of the library, or a random selection of them, in the old names and layout), '
          'interrupted 0-3 times by a crash or file-system fault at a seeded call and started again; the original is compared after every step, the '
          'result entry by entry; non-trivial when a fault fired')
  distinct_measure = 'distinct (network, number of entries, fault kinds and positions) tuples'
  real = ['projects/tools/upgrade_ckpt.py, run as a program', 'torch.save, torch.load']
  stubs = ['file-system calls (LD_PRELOAD seam that counts and injects faults)']
  assumptions = ['old names are those of the released O-CNN modules (Conv1x1 holds conv1x1, Conv1x1Bn holds conv1x1)', 'process crash, not power loss']
  required_probes = ('crash', 'reported', 'rerun', 'twice', 'fault-rd', 'fault-mut', 'stale', 'deconv', 'down', 'linear', 'linear-bias', 'linear-bn', 'shortcut',
                     'other', 'cut-original', 'empty') + tuple('net:' + n for n in NETS)

  def prepare(self, base):
    tools.warm()
    os.environ.setdefault('SIM_SO', simio.build())
    import ocnn
    from sim import catalog
    m = {'LeNet': ocnn.models.LeNet(3, 4, 3, nempty=True), 'ResNet': ocnn.models.ResNet(3, 4, 2, 3), 'HRNet': ocnn.models.HRNet(3, 4, 3),
         'SegNet': ocnn.models.SegNet(3, 4, 3), 'UNet': catalog.SmallUNet(3, 4), 'AutoEncoder': ocnn.models.AutoEncoder(3, 4, 4, 2),
         'OUNet': ocnn.models.OUNet(3, 4, 4, 2)}
    self.keys = {n: [(k, tuple(v.shape), v.dtype.is_floating_point) for k, v in x.state_dict().items()] for n, x in m.items()}
    # save once: what torch imports lazily is then loaded
    p = os.path.join(base, 'warm.pth')
    torch.save({'a': torch.zeros(2)}, p)
    torch.load(p, map_location='cpu')
    os.remove(p)

  def gen(self, rng, idx, tier):
    net = rng.choice(NETS)
    faults = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
      if rng.chance(0.25):
        faults.append({'cls': 'rd', 'kind': rng.choice(['err', 'err', 'short', 'eintr']), 'frac': rng.random(), 'arg': 'EIO', 'count': 1})
      else:
        faults.append({'cls': 'mut', 'kind': rng.choice(['crash-before', 'crash-after', 'crash-partial', 'crash-partial', 'err', 'err', 'err-from', 'short', 'eintr']),
                       'frac': rng.random(), 'where': 'any', 'arg': rng.choice(['ENOSPC', 'EIO', 'EDQUOT']), 'count': rng.choice([1, 1000])})
    return {'net': net, 'seed': rng.seed31(), 'faults': faults, 'keep': [rng.random() for _ in range(rng.choice([0, 3, 12]))], 'all': rng.chance(0.4),
            'dtype': rng.choice(['float32', 'float32', 'float16', 'float64']), 'dim3': rng.chance(0.5), 'stale': rng.choice([None, None, 'whole', 'torn']),
            'cut': rng.choice([None] * 12 + [0.5, 0.99]), 'name': rng.choice(['m.pth', 'm.tar', 'a.b.pth', 'dir.x/00010.model.pth']), 'shuffle': rng.chance(0.5)}

  def simplify(self, plan):
    for k, v in (('all', False), ('dtype', 'float32'), ('stale', None), ('name', 'm.pth'), ('shuffle', False), ('net', 'SegNet')):
      if plan[k] != v:
        p = copy.deepcopy(plan)
        p[k] = v
        yield p

  def entries(self, plan, ctx):
    """[(old key, old value, new key, new value)]"""
    r = np.random.RandomState(plan['seed'] % (2 ** 31))
    dt = getattr(torch, plan['dtype'])
    ks = self.keys[plan['net']]
    if not plan['all']:
      ks = [ks[int(f * len(ks))] for f in plan['keep']]
      ks = list(dict.fromkeys(ks))
    if plan['shuffle']:
      r.shuffle(ks)
    out = []
    for k, shape, flt in ks:
      if 'conv.weights' in k:
        shape = (shape[0], r.randint(1, 4), r.randint(1, 4))
      elif len(shape) == 2:
        shape = (r.randint(1, 5), r.randint(1, 5))
      elif len(shape) == 1:
        shape = (r.randint(1, 5),)
      v = torch.from_numpy(r.randn(*shape) if shape else np.array(r.randint(0, 9)))
      v = v.to(dt) if flt else v.long()
      k = str(k)
      if 'conv.weights' in k:
        old = v.permute(2, 1, 0).contiguous()
        if not plan['dim3']:
          old = old.reshape(old.shape[0], -1)
        ctx.probe('deconv' if 'deconv' in k else 'down' if 'downsample' in k else 'conv')
        out.append((k, old, k, v))
      elif k.endswith('.conv.linear.weight'):
        o = k[:-len('conv.linear.weight')] + 'conv1x1.conv1x1.weight'
        ctx.probe('shortcut' if o.endswith('conv1x1.conv1x1.conv1x1.weight') else 'linear-bn')
        out.append((o, v.unsqueeze(2), k, v))
      elif k.endswith('.linear.weight'):
        ctx.probe('linear')
        out.append((k.replace('linear.weight', 'conv1x1.weight'), v.unsqueeze(2), k, v))
      elif k.endswith('.linear.bias'):
        ctx.probe('linear-bias')
        out.append((k.replace('linear.bias', 'conv1x1.bias'), v, k, v))
      else:
        ctx.probe('other')
        out.append((k, v, k, v))
    return out

  def child(self, folder, path, root, faults):
    return simio.run_in_child(lambda: tools.run_tool(folder, 'upgrade_ckpt', [path]), root, faults)

  def check(self, out, exp, what):
    try:
      got = torch.load(out, map_location='cpu')
    except Exception as e:
      raise Violation('incomplete', '%s: the upgraded file cannot be loaded: %s' % (what, str(e)[:200]))
    want = {n: v for _, _, n, v in exp}
    if set(got) != set(want):
      raise Violation('names', '%s: missing %s, unexpected %s' % (what, sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4]))
    for k, v in want.items():
      g = got[k]
      if g.dtype != v.dtype or g.shape != v.shape or not torch.equal(g, v):
        raise Violation('values', '%s: %s has %s %s, %s %s expected%s' % (what, k, tuple(g.shape), g.dtype, tuple(v.shape), v.dtype,
                                                                       '' if g.shape != v.shape else ', values differ'))

  def execute(self, plan, ctx):
    ctx.probe('net:' + plan['net'])
    root = os.path.join(ctx.scratch, 'w')
    folder = tools.copy_tools(ctx.scratch)
    path = os.path.join(root, plan['name'])
    os.makedirs(os.path.dirname(path))
    exp = self.entries(plan, ctx)
    if not exp:
      ctx.probe('empty')
    torch.save({o: v for o, v, _, _ in exp}, path)
    orig = open(path, 'rb').read()
    other = os.path.join(os.path.dirname(path), 'neighbour.pth')
    with open(other, 'wb') as f:
      f.write(b'n' * 100)
    out = path[:-4] + '.upgrade.pth'

    def intact(what):
      if not os.path.exists(path) or open(path, 'rb').read() != orig:
        raise Violation('original-changed', '%s: the original checkpoint was modified' % what)
      if not os.path.exists(other) or open(other, 'rb').read() != b'n' * 100:
        raise Violation('other-changed', '%s: another checkpoint was modified' % what)
    if plan['cut'] is not None:
      ctx.probe('cut-original')
      orig = orig[:int(plan['cut'] * len(orig))]
      with open(path, 'wb') as f:
        f.write(orig)
      ctx.fault('cut-file')
      r = self.child(folder, path, root, [])
      ctx.log('cut', r['status'])
      intact('upgrade of a cut checkpoint')
      if r['status'] != 'raise':
        raise Violation('damage-accepted', 'a checkpoint cut short was upgraded (%s)' % r['status'])
      return
    r0 = self.child(folder, path, root, [])
    if r0['status'] != 'ok':
      raise Violation('unexpected-error', r0.get('error') or r0['status'])
    intact('upgrade')
    self.check(out, exp, 'upgrade')
    whole = open(out, 'rb').read()
    os.remove(out)
    if plan['stale']:
      ctx.probe('stale')
      with open(out, 'wb') as f:
        f.write(whole * 2 if plan['stale'] == 'whole' else whole[:len(whole) // 2])
    at = []
    for f in plan['faults']:
      f = simio.aim(f, r0)
      ctx.probe('fault-' + f['cls'])
      r = self.child(folder, path, root, [f])
      simio.count_fired(ctx, [f], r['fired'])
      at.append('%s at %s call %d' % (f['kind'], f['cls'], f['at']))
      what = 'after ' + ', '.join(at)
      ctx.log(f['kind'], f['cls'], f['at'], r['status'])
      ctx.count('steps', r['nmut'] + r['nrd'])
      if any(r['fired']):
        ctx.nontrivial = True
      intact(what)
      if r['status'] == 'died':
        raise Violation('process-died', what)
      if r['status'] == 'ok':
        self.check(out, exp, 'upgrade that reports success ' + what)
      elif r['status'] == 'raise':
        if not any(r['fired']):
          raise Violation('rerun-failed', '%s: %s' % (what, r['error']))
        ctx.probe('reported')
      else:
        ctx.probe('crash')
    if len(at) > 1:
      ctx.probe('twice')
    ctx.state((plan['net'], len(exp), str(at)))
    if at or plan['stale']:
      ctx.probe('rerun')
      r = self.child(folder, path, root, [])
      if r['status'] != 'ok':
        raise Violation('rerun-failed', 'after %s: %s' % (', '.join(at), r.get('error') or r['status']))
      intact('rerun')
      self.check(out, exp, 'rerun after ' + ', '.join(at))


PROP = P()
