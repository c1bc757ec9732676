"""The command-line tools of projects/tools, run as programs in a process of
the simulator: controlled arguments, working directory, downloads."""
import os
import runpy
import sys

from sim.core import REPO


def warm():
  """Imports what the tools import, before the runs are forked."""
  import wget, zipfile, pandas, tqdm, plyfile, scipy.spatial, trimesh, json, shutil  # noqa
  import tqdm as T
  T.tqdm.monitor_interval = 0


class _Out:
  """Program output is discarded, or kept."""

  def __init__(self, keep=None):
    self.keep = keep

  def write(self, s):
    if self.keep is not None:
      self.keep.append(s)
    return len(s)

  def flush(self):
    pass

  def isatty(self):
    return False


def copy_tools(root):
  """The tools of the working tree below `root` (they keep their data beside
  the folder they lie in)."""
  import shutil
  d = os.path.join(root, 'projects', 'tools')
  os.makedirs(d)
  src = os.path.join(REPO, 'projects', 'tools')
  for f in os.listdir(src):
    if f.endswith('.py'):
      shutil.copyfile(os.path.join(src, f), os.path.join(d, f))
  return d


def run_tool(folder, name, argv, stubs=None, keep=None):
  """Runs <folder>/<name>.py as a program; what it prints is appended to `keep`."""
  path = os.path.join(folder, name + '.py')
  sys.argv = [path] + [str(a) for a in argv]
  for k, v in (stubs or {}).items():
    sys.modules[k] = v
  sys.modules.pop('utils', None)
  out = sys.stdout, sys.stderr
  sys.stdout, sys.stderr = _Out(keep), _Out()
  sys.path.insert(0, folder)
  try:
    runpy.run_path(path, run_name='__main__')
  finally:
    sys.stdout, sys.stderr = out


def listing_order(seed):
  """Directory listings in an order decided by the plan."""
  import random
  real = os.listdir

  def listdir(path='.'):
    out = sorted(real(path))
    random.Random(seed).shuffle(out)
    return out
  os.listdir = listdir


def network(mapping, chunk=1500):
  """The real wget; what arrives from the network is taken from `mapping`
  {URL substring: file}."""
  import random
  import tempfile
  import wget
  names = random.Random(5)

  class Names:
    def __iter__(self):
      return self

    def __next__(self):
      return ''.join(names.choice('abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(8))
  tempfile._get_candidate_names = lambda: Names()

  def urlretrieve(url, filename=None, reporthook=None, data=None):
    for k, src in mapping.items():
      if k in url:
        break
    else:
      raise OSError('no such URL: %s' % url)
    with open(src, 'rb') as f, open(filename, 'wb', buffering=0) as g:
      while True:
        d = f.read(chunk)
        if not d:
          break
        while d:
          d = d[g.write(d):]
    return filename, {}
  wget.ulib.urlretrieve = urlretrieve
  return wget


def tree(root, skip=()):
  """{relative path: bytes or None for a folder}"""
  out = {}
  for d, ds, fs in os.walk(root):
    for x in ds:
      out[os.path.relpath(os.path.join(d, x), root)] = None
    for x in fs:
      p = os.path.join(d, x)
      r = os.path.relpath(p, root)
      if r in skip:
        continue
      with open(p, 'rb') as f:
        out[r] = f.read()
  return out
