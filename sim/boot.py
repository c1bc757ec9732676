"""Loads torch and the code under test once, in the fork server."""
import os
import sys
import threading
import warnings


def boot():
  import torch
  torch.set_num_threads(1)
  try:
    torch.set_num_interop_threads(1)
  except RuntimeError:
    pass
  warnings.filterwarnings('ignore')
  from sim import threads
  threads.install_locks()
  if os.environ.get('SIM_COV'):
    from sim import cov
    cov.start(os.environ['SIM_COV'])
  import ocnn
  from sim.core import REPO
  f = os.path.realpath(ocnn.__file__)
  if not f.startswith(REPO + os.sep):
    raise RuntimeError('ocnn is imported from %s, not from %s' % (f, REPO))
  return torch, ocnn


_solver_stub = False


def patch_cuda():
  """The solvers call .cuda(): on this CPU-only build it is the identity."""
  import torch
  import ocnn
  torch.Tensor.cuda = lambda self, *a, **k: self
  torch.nn.Module.cuda = lambda self, *a, **k: self
  ocnn.octree.Octree.cuda = lambda self, non_blocking=False: self
  ocnn.octree.Points.cuda = lambda self, non_blocking=False: self
