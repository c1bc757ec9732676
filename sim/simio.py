"""Python side of the file-system seam (simio.c)."""
import ctypes
import errno
import hashlib
import mmap
import os
import struct
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
CRASH_BEFORE, CRASH_AFTER, CRASH_PARTIAL, ERR, SHORT, EINTR, ERR_FROM = 1, 2, 3, 4, 5, 6, 7
KINDS = {'crash-before': 1, 'crash-after': 2, 'crash-partial': 3, 'err': 4, 'short': 5,
         'eintr': 6, 'err-from': 7}
OPS = {1: 'open', 2: 'write', 3: 'rename', 4: 'unlink', 5: 'mkdir', 6: 'rmdir', 7: 'trunc',
       8: 'link', 9: 'close', 10: 'fsync', 15: 'over'}
MAXF, MAXLOG = 16, 8192
SIZE = 32 + MAXF * 24 + MAXLOG * 8
_tmp = None


def build():
  """Compiles the shim into /verif/build (or a private temporary directory
  when that is not writable) and returns its path."""
  global _tmp
  src = os.path.join(HERE, 'simio.c')
  h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
  d = os.path.join(os.path.dirname(HERE), 'build')
  try:
    os.makedirs(d, exist_ok=True)
    ok = os.access(d, os.W_OK)
  except OSError:
    ok = False
  if not ok:
    import tempfile
    d = tempfile.mkdtemp(prefix='ocnnsimio.')
  so = os.path.join(d, 'simio-%s.so' % h)
  if not os.path.exists(so):
    tmp = so + '.%d' % os.getpid()
    subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True)
    os.rename(tmp, so)
  return so


def cleanup():
  pass


def lib():
  so = os.environ['SIM_SO']
  l = ctypes.CDLL(so)
  assert l.simio_present() == 42
  l.simio_arm.argtypes = [ctypes.c_char_p, ctypes.c_void_p]
  return l


class Shm:
  """Shared page: fault plan in, counters out. Survives the crash of the
  process that runs the code under test."""

  def __init__(self):
    self.mm = mmap.mmap(-1, (SIZE + 4095) // 4096 * 4096)
    self.buf = (ctypes.c_char * SIZE).from_buffer(self.mm)
    self.addr = ctypes.addressof(self.buf)

  def load(self, faults):
    """faults: list of dicts {cls:'mut'|'rd', at, kind, arg, count}"""
    self.mm[:SIZE] = b'\0' * SIZE
    faults = faults[:MAXF]
    struct.pack_into('<iiiiii', self.mm, 0, 0, 0, 0, len(faults), 0, 0)
    for i, f in enumerate(faults):
      arg = f.get('arg', 0)
      if isinstance(arg, str):
        arg = getattr(errno, arg)
      struct.pack_into('<iiiiii', self.mm, 32 + i * 24, 0 if f['cls'] == 'mut' else 1, f['at'],
                       KINDS[f['kind']], arg, 0, f.get('count', 1))
    self.faults = faults

  def counters(self):
    _, nmut, nrd, _, nlog, crashed = struct.unpack_from('<iiiiii', self.mm, 0)
    return nmut, nrd, bool(crashed)

  def fired(self):
    out = []
    for i, f in enumerate(self.faults):
      n = struct.unpack_from('<i', self.mm, 32 + i * 24 + 16)[0]
      out.append(n)
    return out

  def oplog(self):
    n = struct.unpack_from('<i', self.mm, 16)[0]
    out = []
    for i in range(n):
      op, ln = struct.unpack_from('<ii', self.mm, 32 + MAXF * 24 + i * 8)
      out.append((OPS.get(op, op), ln))
    return out


_armed = None


class Disarmed:
  """Calls of the simulator itself, inside run_in_child."""

  def __enter__(self):
    lib().simio_disarm()

  def __exit__(self, *a):
    if _armed:
      lib().simio_arm(*_armed)


def run_in_child(fn, root, faults, timeout=100):
  """Runs fn() in a forked process with the seam armed on `root`.
  Returns dict(status 'ok'|'raise'|'crash'|'died', value, error, nmut, nrd,
  fired, ops)."""
  import json
  import signal
  import time
  import traceback
  import select
  shm = Shm()
  shm.load(faults)
  rfd, wfd = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 0
    try:
      os.close(rfd)
      l = lib()
      out = {}
      global _armed
      _armed = (os.fsencode(os.path.realpath(root)), shm.addr)
      l.simio_arm(*_armed)
      try:
        v = fn()
        l.simio_disarm()
        out = {'status': 'ok', 'value': v}
      except BaseException as e:
        l.simio_disarm()
        import sys as _s
        loc = []
        e2 = e
        tb = traceback.format_exc()[-3000:]
        out = {'status': 'raise', 'error': '%s: %s' % (type(e).__name__, str(e)[:500]),
               'etype': type(e).__name__, 'tb': tb,
               'mro': [c.__name__ for c in type(e).__mro__],
               'errno': getattr(e, 'errno', None)}
        if isinstance(e, SystemExit):
          out['status'] = 'ok' if e.code in (None, 0) else 'raise'
      try:
        data = json.dumps(out).encode()
      except TypeError:
        out['value'] = repr(out.get('value'))
        data = json.dumps(out).encode()
      with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    except BaseException:
      code = 98
    finally:
      os._exit(code)
  os.close(wfd)
  buf = []
  t0 = time.monotonic()
  while True:
    left = timeout - (time.monotonic() - t0)
    if left <= 0:
      os.kill(pid, signal.SIGKILL)
      os.waitpid(pid, 0)
      os.close(rfd)
      raise RuntimeError('file-system child timed out')
    r, _, _ = select.select([rfd], [], [], left)
    if r:
      d = os.read(rfd, 1 << 20)
      if not d:
        break
      buf.append(d)
  os.close(rfd)
  _, st = os.waitpid(pid, 0)
  nmut, nrd, crashed = shm.counters()
  if buf:
    out = json.loads(b''.join(buf).decode())
  elif crashed and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 137:
    out = {'status': 'crash'}
  else:
    out = {'status': 'died', 'code': st}
  out.update(nmut=nmut, nrd=nrd, fired=shm.fired(), ops=shm.oplog())
  return out


def count_fired(ctx, faults, fired):
  for f, n in zip(faults, fired):
    if n:
      ctx.fault('io:%s%s' % (f['kind'], ':' + f['arg'] if isinstance(f.get('arg'), str) else ''), n)


RISKY = ('over', 'rename', 'unlink', 'trunc', 'link', 'rmdir')


def aim(f, base):
  """Position of a planned fault: frac of the calls of the undisturbed run
  `base`; with where='risky', of the calls that destroy something (and the call
  after each)."""
  f = dict(f)
  n = base['nmut'] if f['cls'] == 'mut' else base['nrd']
  fr = f.pop('frac')
  where = f.pop('where', 'any')
  f['at'] = max(0, min(n - 1, int(fr * n)))
  if where == 'risky' and f['cls'] == 'mut':
    pos = sorted({p for i, o in enumerate(base['ops']) if o[0] in RISKY for p in (i, i + 1)})
    if pos:
      f['at'] = pos[min(len(pos) - 1, int(fr * len(pos)))]
  if where == 'late-write' and f['cls'] == 'mut':    # inside an output, past the unpacking
    pos = [i for i, o in enumerate(base['ops']) if o[0] == 'write']
    pos = pos[len(pos) // 3:]
    if pos:
      f['at'] = pos[min(len(pos) - 1, int(fr * len(pos)))]
  if not f['kind'].startswith('err'):
    f['arg'] = 0
  return f
