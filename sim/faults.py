"""One faulted attempt of an operation."""
import copy

from sim import torchseam, threads
from sim.core import Violation
from sim.torchseam import INJECTED, KINDS, OpSeam


def measure(fn, args):
  """(tensor operations, repository lines) of fn(*copies of args)."""
  a = copy.deepcopy(args)
  ops = OpSeam()
  lines = threads.LineFaults()
  with lines:
    with ops:
      fn(*a)
  return ops.n, lines.n


def attempt(fn, args, spec, ctx, counts=None):
  """Runs fn(*args) with the fault of spec = {where:'op'|'line', kind, frac}.
  Returns ('fault', None) if the injected error came out, else ('ok', value)."""
  n_ops, n_lines = counts or measure(fn, args)
  n = n_ops if spec['where'] == 'op' else n_lines
  if n == 0:
    return 'ok', fn(*args)
  at = min(n - 1, int(spec['frac'] * n))
  if spec['where'] == 'op':
    seam = OpSeam(fail_at=[at], kind=spec['kind'])
  else:
    seam = threads.LineFaults(fail_at=[at], exc=KINDS[spec['kind']])
  try:
    with seam:
      v = fn(*args)
    st = ('ok', v)
  except INJECTED:
    st = ('fault', None)
  except Violation:
    raise
  except BaseException as e:
    if not seam.fired:
      raise
    # the code may wrap the injected error; it must still be an error
    st = ('fault', None)
  if seam.fired:
    ctx.fault('%s:%s' % (spec['kind'], spec['where']))
    ctx.state('fault@%s' % (seam.fired[0][1],))
    ctx.log('fault', spec['kind'], spec['where'], at, n, seam.fired[0][1], st[0])
  ctx.count('steps', n)
  return st


def gen_fault(rng):
  return {'where': rng.choice(['op', 'op', 'line']), 'kind': rng.choice(['oom', 'memerr', 'intr']),
          'frac': round(rng.random(), 4)}
