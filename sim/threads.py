"""Deterministic scheduler for real threads, and a line-level fault seam.

Every simulated caller is a real Python thread that is parked on its own
semaphore except when the scheduler lets it run.  Scheduling points are the
LINE events of code under the repository (sys.monitoring) and every tensor
operation (OpSeam.yield_cb).  Which thread continues at which point is decided
by the plan alone.
"""
import os
import sys
import threading as _t
import time

from sim.core import HarnessError, REPO, Violation

mon = sys.monitoring
TOOL = 4
_real_lock = _t.Lock
_real_rlock = _t.RLock
_current = None      # active Scheduler
_tls = _t.local()


class _SimLockMixin:
  def _acq(self, real_acquire, blocking, timeout):
    s = _current
    if s is not None and getattr(_tls, 'task', None) is not None and blocking:
      while True:
        if real_acquire(False):
          return True
        if timeout is not None and timeout >= 0:
          return False
        s.blocked()
    return real_acquire(blocking, timeout if timeout is not None else -1)


class SimLock(_SimLockMixin):
  def __init__(self):
    self._l = _real_lock()

  def acquire(self, blocking=True, timeout=-1):
    return self._acq(self._l.acquire, blocking, timeout)

  def release(self):
    self._l.release()

  def locked(self):
    return self._l.locked()

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()

  def _at_fork_reinit(self):
    self._l._at_fork_reinit()


class SimRLock(_SimLockMixin):
  def __init__(self):
    self._l = _real_rlock()

  def acquire(self, blocking=True, timeout=-1):
    return self._acq(self._l.acquire, blocking, timeout)

  def release(self):
    self._l.release()

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()

  def _is_owned(self):
    return self._l._is_owned()

  def _release_save(self):
    return self._l._release_save()

  def _acquire_restore(self, st):
    return self._l._acquire_restore(st)

  def _at_fork_reinit(self):
    self._l._at_fork_reinit()


def install_locks():
  """Locks that the code under test creates from now on hand control to the
  scheduler instead of blocking a parked thread for ever."""
  _t.Lock = SimLock
  _t.RLock = SimRLock


# -- line monitoring ---------------------------------------------------------

_line_cb = None
_prefix = REPO + os.sep


def _on_line(code, line):
  if not code.co_filename.startswith(_prefix):
    return mon.DISABLE
  cb = _line_cb
  if cb is not None:
    cb(code, line)
  return None


def monitor(cb):
  global _line_cb
  if mon.get_tool(TOOL) is None:
    mon.use_tool_id(TOOL, 'ocnnsim')
  mon.register_callback(TOOL, mon.events.LINE, _on_line)
  _line_cb = cb
  mon.set_events(TOOL, mon.events.LINE)
  mon.restart_events()


def unmonitor():
  global _line_cb
  _line_cb = None
  if mon.get_tool(TOOL) is not None:
    mon.set_events(TOOL, 0)


class LineFaults:
  """Raises at the k-th executed line of repository code (an interrupt or
  allocation failure between two tensor operations)."""

  def __init__(self, fail_at=(), exc=None, cap=None):
    self.n = 0
    self.fail_at = set(fail_at)
    self.exc = exc
    self.fired = []
    self.cap = cap
    self.thread = _t.get_ident()

  def __call__(self, code, line):
    if _t.get_ident() != self.thread:
      return
    k = self.n
    self.n += 1
    if self.cap is not None and k > self.cap:
      raise Violation('no-progress', 'more than %d lines executed' % self.cap)
    if k in self.fail_at:
      self.fired.append((k, '%s:%s' % (os.path.basename(code.co_filename), code.co_name)))
      raise self.exc()

  def __enter__(self):
    monitor(self)
    return self

  def __exit__(self, *a):
    unmonitor()


# -- scheduler ---------------------------------------------------------------

class Gate:
  """Binary semaphore on a real lock; every signal pairs with one wait."""

  def __init__(self):
    self._l = _real_lock()
    self._l.acquire()

  def release(self):
    self._l.release()

  def acquire(self, timeout=-1):
    return self._l.acquire(True, timeout)


class Task:
  def __init__(self, idx, fn):
    self.idx, self.fn = idx, fn
    self.sem = Gate()
    self.done = False
    self.result = None
    self.exc = None
    self.steps = 0


class Scheduler:
  """switches: list of [step, target]; at global step number `step` (counted
  over scheduling points) control passes to task `target` (modulo the runnable
  ones).  When a task ends, the lowest-numbered runnable task continues unless
  the plan's order says otherwise."""

  def __init__(self, fns, switches, order=None, cap=2000000, op_points=True, own=None, record=False, iosw=None):
    self.tasks = [Task(i, f) for i, f in enumerate(fns)]
    self.sw = {}
    for s, tgt in switches:
      self.sw[int(s)] = tgt
    self.order = order or list(range(len(fns)))
    self.step = 0
    self.cap = cap
    self.cur = None
    self.taken = []
    self.main = Gate()
    self.spin = 0
    self.failed = None
    self.op_points = op_points
    self.own = own or {}      # (task, its own step) -> target
    self.positions = [] if record else None
    self.iosw = iosw or {}    # file-system point number -> target
    self.ios = 0

  # called in a task thread at every scheduling point
  def point(self, what):
    t = getattr(_tls, 'task', None)
    if t is None or t is not self.cur:
      return
    if self.failed is not None:
      raise _Stop()
    s = self.step
    self.step += 1
    t.steps += 1
    self.spin = 0
    if self.step > self.cap:
      self.failed = Violation('no-progress', 'the tasks did not finish within %d scheduling points' % self.cap)
      raise _Stop()
    if self.positions is not None:
      self.positions.append(what)
    tgt = self.sw.get(s)
    if tgt is None:
      tgt = self.own.get((t.idx, t.steps))
    if what.startswith('io:'):
      tgt = self.iosw.get(self.ios, tgt)
      self.ios += 1
    if tgt is not None:
      run = [x for x in self.order if not self.tasks[x].done]
      nxt = self.tasks[run[tgt % len(run)]]
      if nxt is not t:
        self.taken.append((s, t.idx, nxt.idx, what))
        self._handover(t, nxt)

  def blocked(self):
    """The current task waits for a lock: let another one run."""
    t = self.cur
    self.spin += 1
    run = [x for x in self.order if not self.tasks[x].done]
    if self.spin > 4 * len(run) + 4 or len(run) == 1:
      self.failed = Violation('deadlock', 'every caller waits for a lock')
      raise _Stop()
    nxt = self.tasks[run[(run.index(t.idx) + 1) % len(run)]]
    self._handover(t, nxt)

  def _handover(self, t, nxt):
    self.cur = nxt
    nxt.sem.release()
    t.sem.acquire()
    if self.failed is not None:
      raise _Stop()

  def _line(self, code, line):
    if getattr(_tls, 'task', None) is not None:
      self.point('%s:%d' % (os.path.basename(code.co_filename), line))

  def _run(self, t):
    t.sem.acquire()
    _tls.task = t
    try:
      if self.failed is None:
        if self.op_points:
          from sim.torchseam import OpSeam
          with OpSeam(yield_cb=self._op):
            t.result = t.fn()
        else:
          t.result = t.fn()
    except _Stop:
      pass
    except BaseException as e:
      t.exc = e
    finally:
      _tls.task = None
      t.done = True
      run = [x for x in self.order if not self.tasks[x].done]
      if run:
        self.cur = self.tasks[run[0]]
        self.cur.sem.release()
      else:
        self.cur = None
        self.main.release()

  def _op(self, name):
    self.point('op:' + name)

  def run(self, wall=90):
    global _current
    ths = [_t.Thread(target=self._run, args=(t,), daemon=True) for t in self.tasks]
    for th in ths:
      th.start()
    _current = self
    monitor(self._line)
    try:
      self.cur = self.tasks[self.order[0]]
      self.cur.sem.release()
      if not self.main.acquire(wall):
        raise HarnessError('scheduler: wall limit, a task is stuck outside the simulator')
    finally:
      unmonitor()
      _current = None
    for th in ths:
      th.join(10)
    if self.failed is not None:
      raise self.failed
    return self.tasks


class _Stop(BaseException):
  pass


# -- file-system scheduling points -------------------------------------------

_audit_on = False
AUDIT = {'open', 'os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.listdir', 'os.scandir', 'os.truncate', 'os.link', 'shutil.move',
         'shutil.copyfile', 'os.utime', 'os.chmod'}


def io_points():
  """From now on (in this process) every file-system call of a simulated
  caller is a scheduling point, taken before the call."""
  global _audit_on
  if _audit_on:
    return
  _audit_on = True

  def hook(event, args):
    if event in AUDIT:
      s = _current
      if s is not None and getattr(_tls, 'task', None) is not None:
        s.point('io:' + event)
  sys.addaudithook(hook)


def solo_steps(fns):
  """Scheduling points each function passes when it runs alone."""
  out = []
  for f in fns:
    s = Scheduler([f], [])
    s.run()
    if s.tasks[0].exc is not None:
      raise s.tasks[0].exc
    out.append((s.step, s.tasks[0].result))
  return out


def place(switches, positions):
  """switches of a plan as [fraction, target, 'io'|'line'] -> (by step, by
  file-system point), scaled to the points of a run without switches."""
  io = sum(1 for p in positions if p.startswith('io:'))
  sw, iosw = [], {}
  for fr, tgt, where in switches:
    if where == 'io' and io:
      iosw[min(io - 1, int(fr * io))] = tgt
    elif positions:
      sw.append([min(len(positions) - 1, int(fr * len(positions))), tgt])
  return sw, iosw
