"""C15: checkpoint clean-up never deletes the checkpoint to keep."""
import copy
import os

from sim import simio, tools
from sim.core import Prop, Violation


class P(Prop):
  id = 'C15'
  runs = {'quick': 1500, 'thorough': 80000}
  soft_s = {'quick': 45, 'thorough': 2700}
  shrink_lists = ('folders', 'faults')
  shrink_min = {'folders': 1}
  rule = ('a run cleans one log directory of 1-6 experiments with 0-8 checkpoints each (names of several styles, other files around them), interrupted '
          '0-3 times by a crash or failing deletion at a seeded call and started again; the kept files are examined after every step; non-trivial when '
          'a fault fired')
  distinct_measure = 'distinct (checkpoint counts, fault kinds and positions, listing order) tuples'
  real = ['projects/tools/cleanup_ckpt.py, run as a program']
  stubs = ['directory listing order (plan)', 'file-system calls (LD_PRELOAD seam that counts and injects faults)']
  assumptions = ['newest means last by name', 'one clean-up at a time']
  required_probes = ('crash', 'reported', 'rerun', 'again', 'single', 'none', 'pair', 'many', 'others', 'no-checkpoints', 'twice', 'kept-after-crash')

  def prepare(self, base):
    tools.warm()
    os.environ.setdefault('SIM_SO', simio.build())

  def gen(self, rng, idx, tier):
    folders = []
    for i in range(rng.choice([1, 1, 2, 3, 6])):
      folders.append({'cat': rng.choice(['chair', 'car', 'x.y', 'old']), 'sub': 'r%d' % i,
                      'n': rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6, 8]), 'style': rng.choice(['tar', 'pair', 'plain', 'odd']), 'others': rng.chance(0.5),
                      'ck': rng.chance(0.95)})
    faults = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
      faults.append({'cls': 'mut', 'kind': rng.choice(['crash-before', 'crash-after', 'crash-after', 'err', 'err-from', 'eintr']), 'frac': rng.random(),
                     'arg': rng.choice(['EIO', 'EACCES', 'EBUSY', 'EROFS']), 'count': rng.choice([1, 1000])})
    return {'folders': folders, 'faults': faults, 'order': rng.seed31(), 'again': rng.chance(0.4), 'rootfile': rng.chance(0.5), 'slash': rng.chance(0.3)}

  def simplify(self, plan):
    for i, f in enumerate(plan['folders']):
      for k, v in (('others', False), ('style', 'plain')):
        if f[k] != v:
          p = copy.deepcopy(plan)
          p['folders'][i][k] = v
          yield p
      if f['n'] > 2:
        p = copy.deepcopy(plan)
        p['folders'][i]['n'] -= 1
        yield p

  def names(self, f):
    n, out = f['n'], []
    for k in range(n):
      e = 10 * (k + 1)
      out.append({'tar': '%05d.solver.tar' % e, 'pair': '%05d.%s' % (10 * (k // 2 + 1), 'model.pth' if k % 2 == 0 else 'solver.tar'), 'plain': 'ckpt%03d' % e,
                  'odd': ['.hidden', '00001', '2', '10', 'a b', 'best.pth', 'z', '~last'][k]}[f['style']])
    return out

  def build(self, plan, root, ctx):
    keep, gone = {}, set()
    seen = set()
    for f in plan['folders']:
      d = os.path.join(f['cat'], f['sub'])
      if d in seen:
        continue
      seen.add(d)
      full = os.path.join(root, d)
      os.makedirs(full, exist_ok=True)
      if f['others']:
        ctx.probe('others')
        for x in ('log.csv', 'all_configs.yaml', 'checkpoints.old'):
          with open(os.path.join(full, x), 'w') as g:
            g.write(d + x)
        os.makedirs(os.path.join(full, 'tensorboard'), exist_ok=True)
        for x in ('0001', '0002', '0003'):
          with open(os.path.join(full, 'tensorboard', x), 'w') as g:
            g.write(x)
        with open(os.path.join(root, f['cat'], 'notes.txt'), 'w') as g:
          g.write('x')
      if not f['ck']:
        ctx.probe('no-checkpoints')
        continue
      c = os.path.join(d, 'checkpoints')
      os.makedirs(os.path.join(root, c), exist_ok=True)
      ns = self.names(f)
      for x in ns:
        with open(os.path.join(root, c, x), 'w') as g:
          g.write((d + x) * 30)
      ctx.probe('none' if not ns else 'single' if len(ns) == 1 else 'pair' if len(ns) == 2 else 'many')
      s = sorted(ns)
      if s:
        k = s[-2] if len(s) > 1 else s[0]
        keep[os.path.join(c, k)] = 1
        gone |= {os.path.join(c, x) for x in s if x != k}
    if plan['rootfile']:
      with open(os.path.join(root, 'readme'), 'w') as g:
        g.write('r')
    return set(keep), gone

  def child(self, root, folder, plan, faults, salt):
    def fn():
      tools.listing_order(plan['order'] + salt)
      tools.run_tool(folder, 'cleanup_ckpt', [root + ('/' if plan['slash'] else '')])
    return simio.run_in_child(fn, root, faults)

  def look(self, root, before, keep, gone, what, final):
    now = tools.tree(root)
    for k in keep:
      if k not in now:
        raise Violation('kept-file-lost', '%s: %s is the checkpoint to keep and is gone' % (what, k))
    for k, v in before.items():
      if k in gone:
        if k in now and now[k] != v:
          raise Violation('damaged', '%s: %s was modified' % (what, k))
      elif k not in now:
        raise Violation('outside', '%s: %s was removed' % (what, k))
      elif now[k] != v:
        raise Violation('outside' if k not in keep else 'kept-file-lost', '%s: %s was modified' % (what, k))
    extra = set(now) - set(before)
    if extra:
      raise Violation('extra', '%s: new files %s' % (what, sorted(extra)[:4]))
    if final:
      left = sorted(set(now) & gone)
      if left:
        raise Violation('not-removed', '%s: still there: %s' % (what, left[:4]))

  def execute(self, plan, ctx):
    import shutil
    root = os.path.join(ctx.scratch, 'logs')
    folder = tools.copy_tools(ctx.scratch)
    os.makedirs(root)
    keep, gone = self.build(plan, root, ctx)
    before = tools.tree(root)
    copy_ = os.path.join(ctx.scratch, 'copy')
    shutil.copytree(root, copy_)
    r0 = self.child(root, folder, plan, [], 0)
    if r0['status'] != 'ok':
      raise Violation('unexpected-error', r0.get('error') or r0['status'])
    self.look(root, before, keep, gone, 'clean-up', True)
    if plan['again']:
      ctx.probe('again')
      after = tools.tree(root)
      r = self.child(root, folder, plan, [], 1)
      if r['status'] != 'ok' or tools.tree(root) != after:
        raise Violation('not-idempotent', 'cleaning a cleaned folder: %s' % (r.get('error') or 'files changed'))
    if not plan['faults'] or not r0['nmut']:
      ctx.state((str(plan['folders']),))
      return
    shutil.rmtree(root)
    os.rename(copy_, root)
    at = []
    for i, f in enumerate(plan['faults']):
      f = simio.aim(f, r0)
      r = self.child(root, folder, plan, [f], i + 2)
      simio.count_fired(ctx, [f], r['fired'])
      at.append('%s at call %d of %d' % (f['kind'], f['at'], r0['nmut']))
      ctx.log(f['kind'], f['at'], r['status'], r['nmut'])
      ctx.count('steps', r['nmut'])
      if any(r['fired']):
        ctx.nontrivial = True
      what = 'after ' + ', '.join(at)
      if r['status'] == 'died':
        raise Violation('process-died', what)
      if r['status'] == 'raise' and not any(r['fired']):
        raise Violation('rerun-failed', '%s: %s' % (what, r['error']))
      if r['status'] == 'crash':
        ctx.probe('crash')
      if r['status'] == 'raise':
        ctx.probe('reported')
      ctx.probe('kept-after-crash')
      self.look(root, before, keep, gone, what, r['status'] == 'ok')
    if len(at) > 1:
      ctx.probe('twice')
    ctx.probe('rerun')
    ctx.state((str([(f['n'], f['style']) for f in plan['folders']]), str(at)))
    r = self.child(root, folder, plan, [], 99)
    if r['status'] != 'ok':
      raise Violation('rerun-failed', 'after %s: %s' % (', '.join(at), r.get('error') or r['status']))
    self.look(root, before, keep, gone, 'rerun after ' + ', '.join(at), True)


PROP = P()
