"""C02: a failed or interrupted operation can simply be retried."""
import copy
import os
import pickle

import numpy as np
import torch
import ocnn
from ocnn.dataset import CollateBatch

from props import c01
from props.c01 import World, octree_result, to_np
from sim import catalog, faults, gen, snap, threads
from sim.core import HarnessError, Prop, Violation, sut
from sim.torchseam import INJECTED, KINDS, OpSeam


def prepare(w, a, plan):
  """Returns (call, inputs that must not change, objects the call may modify).
  `call()` can be repeated on the same objects."""
  k, D, F = a['do'], w.D, w.F
  if k == 'build':
    n = a['n']
    if n > 1:
      p = ocnn.octree.merge_points([w.points[(a['i'] + j) % len(w.points)] for j in range(n)])
    else:
      p = w.points[a['i'] % len(w.points)]
    o = ocnn.octree.Octree(D, F, batch_size=n)

    def call():
      r = o.build_octree(p)
      res = octree_result(o, D)
      res['idx'] = r if isinstance(r, torch.Tensor) else None
      return res
    return call, [p]
  if k == 'neigh':
    o = ocnn.octree.merge_octrees([w.singles[i % len(w.singles)] for i in a['which']])

    def call():
      if a['b']:
        o.construct_all_neigh()
      else:
        for d in range(1, D + 1):
          o.construct_neigh(d)
      return octree_result(o, D)
    return call, w.singles
  if k in ('split', 'grow', 'growfull'):
    # the steps before the one that fails are undisturbed
    o = ocnn.octree.Octree(D, F, a['n'])
    for d in range(F + 1):
      o.octree_grow_full(d)
    if k == 'growfull':
      d0 = a['i'] % (F + 1)
      o2 = ocnn.octree.Octree(D, F, a['n'])
      for d in range(d0):
        o2.octree_grow_full(d)

      def call():
        o2.octree_grow_full(d0)
        return octree_result(o2, D)
      return call, []
    stop = F + a['i'] % max(1, D - F)
    r = np.random.RandomState(a['i'])
    d = F
    while d < min(stop, D - 1):
      o.octree_split(torch.from_numpy((r.rand(int(o.nnum[d])) < 0.4).astype(np.int64)), d)
      o.octree_grow(d + 1)
      d += 1
    lab = torch.from_numpy((r.rand(int(o.nnum[d])) < a['p']).astype(np.int64))
    if k == 'split' or d == D:
      def call():
        o.octree_split(lab, d)
        return octree_result(o, D)
      return call, [lab]
    o.octree_split(lab, d)

    def call():
      o.octree_grow(d + 1, update_neigh=a['b'])
      return octree_result(o, D)
    return call, []
  if k == 'collate':
    batch = []
    for j, i in enumerate(a['which']):
      i = i % len(w.singles)
      batch.append({'octree': w.singles[i], 'points': w.points[i], 'label': i, 'filename': 'f%d' % i,
                    'inbox_mask': w.points[i].points[:, 0] > 0})
    c = CollateBatch(merge_points=a['b'])

    def call():
      out = c(batch)
      r = octree_result(out['octree'], D)
      r['label'] = out['label']
      ps = [out['points']] if a['b'] else out['points']
      for j, p in enumerate(ps):
        r['p%d' % j] = p.points
        r['b%d' % j] = p.batch_id
      for j, m in enumerate(out['inbox_mask']):
        r['m%d' % j] = m
      r['names'] = torch.tensor([int(f[1:]) for f in out['filename']])
      return r
    return call, [batch]
  if k == 'to':
    o, p = w.batch, w.points[a['i'] % len(w.points)]

    def call():
      r = octree_result(o.to('cpu:0'), D)
      r['p'] = p.to('cpu:0').points
      return r
    return call, [o, p]
  return (lambda: c01.act(w, a, plan)), []


class P(Prop):
  id = 'C02'
  runs = {'quick': 1000, 'thorough': 40000}
  soft_s = {'quick': 75, 'thorough': 2700}
  shrink_lists = ('steps',)
  shrink_min = {'steps': 1}
  rule = ('a run executes 1-6 operations over one shared world; each is first stopped 1-3 times by an allocation failure or interrupt at '
          'a seeded tensor operation or source line and then repeated; non-trivial when at least one failure fired inside an operation')
  distinct_measure = 'distinct (operation, fault site) pairs'
  real = ['ocnn.octree, ocnn.nn, ocnn.modules, ocnn.models, ocnn.dataset, ocnn.utils', 'torch CPU kernels and autograd']
  stubs = ['allocator and interrupt source (OpSeam, line seam)']
  assumptions = ['a torch operation that fails leaves its own operands unchanged', 'gradients are requested with autograd.grad (no accumulation)']
  required_probes = ('build', 'neigh', 'split', 'grow', 'growfull', 'merge', 'collate', 'op', 'bwd', 'net', 'genet', 'fired-line', 'fired-op',
                     'interp', 'mutated-object')

  def gen(self, rng, idx, tier):
    D = rng.choice([3, 3, 4, 4])
    F = rng.choice([1, 2, 2])
    clouds = [gen.cloud_spec(rng, 1, 25) for _ in range(rng.choice([1, 2, 2, 3]))]
    ops = []
    for _ in range(rng.randint(1, 3)):
      for _ in range(20):
        c = catalog.gen_net(rng, D, F) if rng.chance(0.2) else catalog.gen_op(rng, D, F)
        if catalog.supported(c, D, F) and c['op'] != 'droppath':
          ops.append(c)
          break
    if not ops:
      ops.append({**catalog.gen_op(rng, D, F, ['conv']), 'stride': 1})
    steps = []
    for _ in range(rng.randint(1, 6)):
      a = {'do': rng.wchoice([('op', 7), ('bwd', 3), ('build', 2.5), ('neigh', 1.5), ('split', 1.5), ('grow', 2), ('growfull', 0.7),
                              ('merge', 1.5), ('mergepts', 0.7), ('collate', 1.5), ('to', 0.5), ('query', 1), ('growcopy', 0.5)]),
           'i': rng.randrange(1000), 'b': rng.chance(0.5), 'n': rng.choice([1, 1, 2, 3]), 'p': rng.choice([0, 0.2, 0.5, 1.0]),
           'which': [rng.randrange(4) for _ in range(rng.randint(1, 3))], 'faults': []}
      if rng.chance(0.8):
        a['faults'] = [faults.gen_fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
      steps.append(a)
    return {'depth': D, 'full': F, 'clouds': clouds, 'ops': ops, 'steps': steps}

  def simplify(self, plan):
    for i, s in enumerate(plan['steps']):
      for j in range(len(s['faults'])):
        p = copy.deepcopy(plan)
        del p['steps'][i]['faults'][j]
        yield p
    for i, c in enumerate(plan['clouds']):
      if len(plan['clouds']) > 1:
        p = copy.deepcopy(plan)
        del p['clouds'][i]
        yield p
      if c['n'] > 1:
        p = copy.deepcopy(plan)
        p['clouds'][i]['n'] = c['n'] // 2
        yield p

  def solo(self, plan):
    """The same operations, never disturbed (each on fresh objects), plus the
    number of fault sites of each."""
    with sut('building the shared objects'):
      w = World(plan)
    out = []
    for i, a in enumerate(plan['steps']):
      with sut('undisturbed step %d %s' % (i, a['do'])):
        call, _ = prepare(w, a, plan)
        res = to_np(call())
        # count the fault sites of a first execution
        ops, lines = OpSeam(), threads.LineFaults()
        call, _ = prepare(w, a, plan)
        with lines, ops:
          call()
      out.append({'res': res, 'ops': ops.n, 'lines': lines.n})
    return out

  def execute(self, plan, ctx):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        try:
          out = ('ok', self.solo(plan))
        except Violation as v:
          out = ('violation', (v.cls, v.detail, v.key))
        except BaseException as e:
          import traceback
          out = ('error', '%s\n%s' % (e, traceback.format_exc()[-3000:]))
        with os.fdopen(wfd, 'wb') as f:
          pickle.dump(out, f)
      finally:
        os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
      st, ref = pickle.loads(f.read())
    os.waitpid(pid, 0)
    if st == 'violation':
      raise Violation(*ref)
    if st == 'error':
      raise HarnessError(ref)
    with sut('building the shared objects'):
      w = World(plan)
    world0 = w.snapshot()
    cmp = c01.PROP.compare
    for i, (a, r) in enumerate(zip(plan['steps'], ref)):
      opname = plan['ops'][a['i'] % len(plan['ops'])]['op'] if a['do'] in ('op', 'bwd') else ''
      tag = 'step %d %s %s' % (i, a['do'], opname)
      with sut('preparing ' + tag):
        call, inputs = prepare(w, a, plan)
      snap0 = snap.any_(inputs)
      fired = 0
      for spec in a['faults']:
        n = r['ops'] if spec['where'] == 'op' else r['lines']
        if n == 0:
          continue
        at = min(n - 1, int(spec['frac'] * n))
        seam = OpSeam(fail_at=[at], kind=spec['kind']) if spec['where'] == 'op' else threads.LineFaults(
            fail_at=[at], exc=KINDS[spec['kind']])
        modes = (torch.is_grad_enabled(), torch.get_default_dtype())
        raised = None
        try:
          with seam:
            call()
        except INJECTED as e:
          raised = 'same'
        except Exception as e:
          raised = type(e).__name__
          if not seam.fired:
            raise Violation('unexpected-error', '%s before any failure (after %d earlier ones): %s: %s' % (
                tag, fired, type(e).__name__, str(e)[:300]))
        if not seam.fired:
          continue
        fired += 1
        site = seam.fired[0][1]
        ctx.fault('%s:%s' % (spec['kind'], spec['where']))
        ctx.probe('fired-' + spec['where'])
        ctx.state((a['do'], opname, site))
        ctx.log(tag, spec['kind'], spec['where'], at, site, raised)
        if raised is None:
          raise Violation('swallowed-failure', '%s: %s at %s did not reach the caller' % (tag, spec['kind'], site))
        d = snap.diff(snap0, snap.any_(inputs)) + snap.diff(world0, w.snapshot())
        if d:
          raise Violation('input-changed-by-failure', '%s stopped by %s at %s changed its inputs: %s' % (tag, spec['kind'], site, d[:6]))
        if (torch.is_grad_enabled(), torch.get_default_dtype()) != modes:
          raise Violation('global-state-changed', '%s stopped at %s left torch in another mode' % (tag, site))
      with sut('%s repeated after %d failures' % (tag, fired)):
        res = to_np(call())
      cmp(res, r['res'], '%s repeated after %d failures %s' % (tag, fired, a['faults']), 'retry-result')
      d = snap.diff(snap0, snap.any_(inputs)) + snap.diff(world0, w.snapshot())
      if d:
        raise Violation('input-changed', '%s changed its inputs: %s' % (tag, d[:6]))
      ctx.count('steps', r['ops'] + r['lines'])
      if fired:
        ctx.nontrivial = True
        ctx.probe(a['do'])
        if opname in catalog.NETS:
          ctx.probe('net')
        if opname in catalog.GEN_NETS:
          ctx.probe('genet')
        if opname == 'interp':
          ctx.probe('interp')
        if a['do'] in ('build', 'neigh', 'split', 'grow', 'growfull'):
          ctx.probe('mutated-object')
      ctx.log(tag, 'ok', sorted((k, v.shape) for k, v in res.items())[:4])


PROP = P()
