"""Simulation core: seeded plans, one forked process per run, minimisation,
replay, evidence.

One run is a pure function of (plan, code under test).  A plan is a JSON value
made by `prop.gen(rng, idx, tier)` from one integer (VERIF_SEED, property,
index).  Nothing here reads a clock or a random source to decide anything
inside a run; wall time only bounds how many runs a batch starts.
"""
import hashlib
import json
import os
import random
import selectors
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('SIM_REPO', '/repo'))
WORKERS = int(os.environ.get('SIM_WORKERS', '0')) or max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
  """The property is broken. `cls` names the kind (kept during minimisation),
  `key` identifies the specific input / call site for known findings."""

  def __init__(self, cls, detail='', key=None):
    super().__init__('%s: %s' % (cls, detail))
    self.cls, self.detail, self.key = cls, str(detail)[:2000], key or cls


class HarnessError(Exception):
  pass


class Rng(random.Random):
  """All choices of a plan come from here."""

  @staticmethod
  def derive(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return Rng(int.from_bytes(h[:8], 'little'))

  def chance(self, p):
    return self.random() < p

  def seed31(self):
    return self.randrange(1 << 31)

  def wchoice(self, pairs):
    tot = sum(w for _, w in pairs)
    x = self.random() * tot
    for v, w in pairs:
      x -= w
      if x < 0:
        return v
    return pairs[-1][0]


class Ctx:
  """Given to prop.execute: event log, counters, scratch directory."""

  def __init__(self, scratch):
    self.scratch = scratch
    self.stats = {}
    self.hash = hashlib.sha256()
    self.events = 0
    self.trace = []
    self.sig = []
    self.nontrivial = False

  def count(self, name, n=1):
    self.stats[name] = self.stats.get(name, 0) + n

  def probe(self, name):
    self.count('probe:' + name)

  def fault(self, kind, n=1):
    self.count('fault:' + kind, n)

  def log(self, *parts):
    """Append to the event log. Contents must not depend on paths, pids,
    addresses or the clock."""
    s = ' '.join(str(p) for p in parts)
    self.hash.update(s.encode() + b'\n')
    self.events += 1
    if len(self.trace) < 400:
      self.trace.append(s[:300])

  def state(self, s):
    """A reached state / interleaving signature, counted distinct."""
    self.sig.append(hashlib.sha256(str(s).encode()).hexdigest()[:16])


class sut:
  """Wraps calls into the code under test where no fault is injected: any
  exception there is a violation, not a harness error."""

  def __init__(self, what, allow=()):
    self.what, self.allow = what, allow

  def __enter__(self):
    return self

  def __exit__(self, et, ev, tb):
    if et is None or issubclass(et, (Violation, HarnessError)):
      return False
    if self.allow and issubclass(et, self.allow):
      return False
    if issubclass(et, Exception) or issubclass(et, KeyboardInterrupt):
      loc = ''
      for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO):
          loc = '%s:%s' % (os.path.relpath(f.filename, REPO), f.name)
      raise Violation('unexpected-error', '%s: %s: %s at %s' % (
          self.what, et.__name__, str(ev)[:500], loc)) from ev
    return False


# ---------------------------------------------------------------------------
# running one plan in a forked child

_fork = os.fork


def fork():
  """Python seeds `random` anew, from the operating system, in every forked
  process; here a child carries on with its parent's state."""
  state = random.getstate()
  pid = _fork()
  if pid == 0:
    random.setstate(state)
  return pid


os.fork = fork


def _child_main(prop, plan_fn, wfd, scratch, outpath, pargs):
  res = {'violation': None, 'error': None}
  try:
    # every run begins with the same state of the global generators
    random.seed(0)
    for m, f in (('numpy', lambda m: m.random.seed(0)), ('torch', lambda m: m.manual_seed(0))):
      if m in sys.modules:
        f(sys.modules[m])
    signal.signal(signal.SIGINT, signal.default_int_handler)
    fd = os.open(outpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)
    nul = os.open('/dev/null', os.O_RDONLY)
    os.dup2(nul, 0)
    os.close(nul)
    os.chdir(scratch)
    ctx = Ctx(scratch)
    try:
      plan = plan_fn(*pargs)
      prop.execute(plan, ctx)
    except Violation as v:
      res['violation'] = {'cls': v.cls, 'detail': v.detail.replace(scratch, '$SCRATCH'), 'key': v.key}
      tb = traceback.format_exc()
      res['tb'] = tb[-6000:]
      ctx.log('VIOLATION', v.cls)
    except BaseException as e:
      tb = traceback.format_exc()
      through = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + os.sep)]
      if isinstance(e, Exception) and not isinstance(e, (HarnessError, OSError)) and (
          through or isinstance(e, (ValueError, IndexError, TypeError, KeyError))):
        # the code under test raised, or handed back something that cannot be
        # interpreted as the documented result
        loc = '%s:%s' % (os.path.relpath(through[-1].filename, REPO), through[-1].name) if through else 'result'
        cls = 'unexpected-error' if through else 'malformed-result'
        res['violation'] = {'cls': cls, 'key': cls, 'detail': '%s: %s at %s' % (type(e).__name__, str(e)[:500], loc)}
        res['tb'] = tb[-6000:]
        ctx.log('VIOLATION', cls)
      else:
        res['error'] = tb[-6000:]
    res.update(stats=ctx.stats, log=ctx.hash.hexdigest(), events=ctx.events,
               trace=ctx.trace, sig=ctx.sig, nontrivial=ctx.nontrivial)
  except BaseException:
    res['error'] = traceback.format_exc()
  try:
    sys.stdout.flush()
  except BaseException:
    pass
  data = json.dumps(res).encode()
  try:
    with os.fdopen(wfd, 'wb') as f:
      f.write(data)
  finally:
    os._exit(0)


class Pool:
  """Runs (key, plan_fn, pargs) jobs in forked children; yields results in
  completion order."""

  def __init__(self, prop, base, workers=WORKERS, timeout=None):
    self.prop, self.base, self.workers = prop, base, workers
    self.timeout = timeout or getattr(prop, 'run_timeout', 75)
    self.sel = selectors.DefaultSelector()
    self.live = {}
    self.n = 0

  def start(self, key, plan_fn, *pargs):
    self.n += 1
    scratch = os.path.join(self.base, 'r%d' % self.n)
    os.mkdir(scratch)
    out = os.path.join(self.base, 'r%d.out' % self.n)
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
      try:
        os.setpgid(0, 0)
        os.close(rfd)
        _child_main(self.prop, plan_fn, wfd, scratch, out, pargs)
      finally:
        os._exit(99)
    os.close(wfd)
    job = dict(key=key, pid=pid, rfd=rfd, buf=[], t0=time.monotonic(),
               scratch=scratch, out=out)
    self.live[rfd] = job
    self.sel.register(rfd, selectors.EVENT_READ, job)

  def _finish(self, job, killed=False):
    self.sel.unregister(job['rfd'])
    os.close(job['rfd'])
    del self.live[job['rfd']]
    try:
      os.killpg(job['pid'], signal.SIGKILL)
    except OSError:
      pass
    _, st = os.waitpid(job['pid'], 0)
    res = None
    if killed:
      res = {'violation': None, 'error': 'timeout: run exceeded %ds wall' % self.timeout, 'timeout': True}
    else:
      try:
        res = json.loads(b''.join(job['buf']).decode())
      except Exception:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
        tail = ''
        try:
          tail = open(job['out'], errors='replace').read()[-3000:]
        except OSError:
          pass
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS):
          res = {'error': None, 'violation': {
              'cls': 'process-died', 'key': 'process-died',
              'detail': 'signal %d\n%s' % (sig, tail)}}
        else:
          res = {'violation': None,
                 'error': 'child ended without result, status %s\n%s' % (st, tail)}
    res['wall'] = time.monotonic() - job['t0']
    for k, v in (('stats', {}), ('log', ''), ('events', 0), ('trace', []),
                 ('sig', []), ('nontrivial', False)):
      res.setdefault(k, v)
    shutil.rmtree(job['scratch'], ignore_errors=True)
    try:
      os.unlink(job['out'])
    except OSError:
      pass
    return job['key'], res

  def wait(self):
    """Returns a list of (key, result) that finished (at least one)."""
    done = []
    while not done:
      evs = self.sel.select(timeout=1.0)
      for k, _ in evs:
        job = k.data
        data = os.read(job['rfd'], 1 << 20)
        if data:
          job['buf'].append(data)
        else:
          done.append(self._finish(job))
      now = time.monotonic()
      for job in list(self.live.values()):
        if now - job['t0'] > self.timeout:
          done.append(self._finish(job, killed=True))
    return done

  def kill_all(self):
    for job in list(self.live.values()):
      self._finish(job, killed=True)


def run_many(prop, base, jobs, workers=WORKERS, timeout=None):
  """jobs: list of (plan_fn, *args). Returns results by index."""
  pool = Pool(prop, base, workers, timeout)
  out = [None] * len(jobs)
  i = 0
  while i < len(jobs) or pool.live:
    while i < len(jobs) and len(pool.live) < workers:
      pool.start(i, *jobs[i])
      i += 1
    for k, r in pool.wait():
      out[k] = r
  return out


# ---------------------------------------------------------------------------
# minimisation

def list_reductions(lst):
  """ddmin-like candidate sublists, large removals first."""
  n = len(lst)
  size = n
  while size >= 1:
    for s in range(0, n, size):
      cand = lst[:s] + lst[s + size:]
      if len(cand) < n:
        yield cand
    size //= 2


def default_shrink(prop, plan):
  for key in getattr(prop, 'shrink_lists', ()):
    v = plan.get(key)
    if isinstance(v, list) and len(v) > getattr(prop, 'shrink_min', {}).get(key, 0):
      for cand in list_reductions(v):
        if len(cand) >= getattr(prop, 'shrink_min', {}).get(key, 0):
          p = json.loads(json.dumps(plan))
          p[key] = cand
          yield p
  f = getattr(prop, 'simplify', None)
  if f:
    for p in f(json.loads(json.dumps(plan))):
      yield p


def minimise(prop, base, plan, cls, budget_s=60, max_tries=400):
  t0 = time.monotonic()
  tries = 0
  cur = plan
  res_cur = None
  progress = True
  while progress and time.monotonic() - t0 < budget_s and tries < max_tries:
    progress = False
    cands = []
    seen = {json.dumps(cur, sort_keys=True)}
    for c in default_shrink(prop, cur):
      s = json.dumps(c, sort_keys=True)
      if s not in seen:
        seen.add(s)
        cands.append(c)
    for s in range(0, len(cands), WORKERS):
      if time.monotonic() - t0 > budget_s or tries >= max_tries:
        break
      chunk = cands[s:s + WORKERS]
      tries += len(chunk)
      rs = run_many(prop, base, [((lambda p: p), c) for c in chunk], timeout=40)
      hit = None
      for c, r in zip(chunk, rs):
        if r['violation'] and r['violation']['cls'] == cls:
          hit = (c, r)
          break
      if hit:
        cur, res_cur = hit
        progress = True
        break
  return cur, res_cur, tries


# ---------------------------------------------------------------------------
# whole checks

def load_known():
  path = os.path.join(VERIF, 'known_findings.json')
  try:
    return json.load(open(path))
  except FileNotFoundError:
    return []


def plan_for(prop, seed, idx, tier):
  plan = prop.gen(Rng.derive('plan', seed, prop.id, idx), idx, tier)
  plan = json.loads(json.dumps(plan))
  return plan


def scratch_base(pid_tag):
  root = os.environ.get('SIM_TMP') or '/tmp'
  return tempfile.mkdtemp(prefix='ocnnsim.%s.' % pid_tag, dir=root)


def run_check(prop, tier, seed):
  t0 = time.monotonic()
  base = scratch_base(prop.id)
  try:
    return _run_check(prop, tier, seed, base, t0)
  finally:
    shutil.rmtree(base, ignore_errors=True)


def _run_check(prop, tier, seed, base, t0):
  print('%s seed=%d tier=%s workers=%d repo=%s' % (prop.id, seed, tier, WORKERS, REPO), flush=True)
  known = [k for k in load_known() if k.get('status') == 'known' and k['property'] == prop.id]
  known_keys = {k['key']: k for k in known}
  n_runs = prop.runs[tier]
  n_runs = int(os.environ.get('SIM_RUNS', n_runs))
  soft = prop.soft_s.get(tier) if hasattr(prop, 'soft_s') else None
  soft = soft or {'quick': 110, 'thorough': 3000}[tier]
  prop.prepare(base)

  agg = {}
  sigs, run_sigs = set(), set()
  samples = []
  digests = {}
  seen_known = {}
  first = None   # (idx, res)
  errors = []
  done = started = 0
  slowest = 0.0
  nontrivial = 0
  pool = Pool(prop, base)
  idx = 0
  min_runs = min(n_runs, 24)
  retry = []
  retried = set()
  while True:
    stop = first is not None or len(errors) > 0
    while (not stop and len(pool.live) < pool.workers and
           (retry or (idx < n_runs and (idx < min_runs or time.monotonic() - t0 < soft)))):
      k = retry.pop() if retry else idx
      if k == idx and k not in retried:
        idx += 1
      pool.start(k, plan_for, prop, seed, k, tier)
      started += 1
    if not pool.live:
      break
    for k, r in pool.wait():
      if r.get('error'):
        if r.get('timeout'):
          if k not in retried:
            retried.add(k)
            retry.append(k)
            continue
          # twice, on its own budget: the code under test does not finish
          r['violation'] = {'cls': 'no-progress', 'key': 'no-progress', 'detail': 'the run does not finish (two attempts of %d s)' % pool.timeout}
          if first is None or k < first[0]:
            first = (k, r)
          continue
        errors.append((k, r))
        continue
      done += 1
      slowest = max(slowest, r['wall'])
      for name, v in r['stats'].items():
        if name.startswith('max:'):
          agg[name] = max(agg.get(name, 0), v)
        else:
          agg[name] = agg.get(name, 0) + v
      sigs.update(r['sig'])
      digests[k] = r['log']
      if r['nontrivial']:
        nontrivial += 1
        run_sigs.add(r['log'])
      v = r['violation']
      if v:
        if v['key'] in known_keys:
          seen_known[v['key']] = seen_known.get(v['key'], 0) + 1
        elif first is None or k < first[0]:
          first = (k, r)
  wall_explore = time.monotonic() - t0

  if os.environ.get('SIM_DIGESTS'):
    with open(os.environ['SIM_DIGESTS'], 'w') as f:
      json.dump({str(k): digests[k] for k in sorted(digests)}, f)

  for k in range(min(3, done)):
    s = json.dumps(plan_for(prop, seed, k, tier))
    samples.append(json.loads(s) if len(s) < 3000 else s[:3000])
  cov = {
      'evaluations': done,
      'distinct_nontrivial': len(run_sigs),
      'rule': prop.rule,
      'samples': samples,
      'simulated_runs_per_hour': round(done / max(wall_explore, 1e-3) * 3600),
      'seeds': 'one plan seed per simulated run, derived from VERIF_SEED, the property and the run index',
      'nontrivial_runs': nontrivial,
      'distinct_states_or_interleavings': len(sigs),
      'distinct_measure': prop.distinct_measure,
      'simulated_time': getattr(prop, 'sim_time', None) or
          'the code under test reads no clock for this property; simulated time is counted in scheduler/seam steps: %d' % agg.get('steps', 0),
      'faults_fired': {n[6:]: v for n, v in sorted(agg.items()) if n.startswith('fault:')},
      'probes': {n[6:]: v for n, v in sorted(agg.items()) if n.startswith('probe:')},
      'counters': {n: v for n, v in sorted(agg.items())
                   if not n.startswith(('fault:', 'probe:'))},
      'real_components': prop.real,
      'stub_components': prop.stubs,
      'workers': WORKERS,
      'slowest_run_s': round(slowest, 1),
      'known_findings_seen': seen_known,
  }
  ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': prop.level,
        'coverage': cov, 'assumptions': prop.assumptions,
        'wall_s': round(time.monotonic() - t0, 2), 'violations': 1 if first else 0}

  if first is None and not errors:
    # the same seeds once more: one seed must be one exactly repeatable execution
    again = sorted(digests)[:6] if tier == 'quick' else sorted(digests)[:40]
    rs = run_many(prop, base, [(plan_for, prop, seed, k, tier) for k in again])
    bad = [k for k, r in zip(again, rs) if not r.get('timeout') and r['log'] != digests[k]]
    cov['determinism'] = {'runs_repeated': len(again), 'identical_event_logs': len(again) - len(bad)}
    if bad:
      print('note: event log differs when repeated: runs %s' % bad)
  code = 0
  if first is not None:
    k, r = first
    v = r['violation']
    plan = plan_for(prop, seed, k, tier)
    print('run %d violates: %s: %s' % (k, v['cls'], v['detail']), flush=True)
    mini, mres, tries = (plan, None, 0) if v['cls'] == 'no-progress' and r.get('timeout') else minimise(prop, base, plan, v['cls'])
    mres = mres or r
    path = write_replay(prop, seed, k, tier, plan, mini, mres, v)
    ok = verify_replay(prop, path, v['cls'])
    if not ok and mini != plan:
      path = write_replay(prop, seed, k, tier, plan, plan, r, v)
      ok = verify_replay(prop, path, v['cls'])
    if ok:
      print('minimised after %d attempts: %s' % (tries, mres['violation']['detail']))
      print('VIOLATION property=%s replay=%s' % (prop.id, path), flush=True)
      code = 1
    else:
      print('ERROR: violation did not replay in a fresh process: %s' % path)
      ev['violations'] = 0
      code = 2
  elif errors:
    for k, r in errors[:3]:
      print('ERROR in run %d: %s' % (k, r['error']))
    code = 2
  if code == 0:
    probes = getattr(prop, 'required_probes', ())
    missing = [p for p in probes if not agg.get('probe:' + p)]
    if missing:
      print('note: probes never hit: %s' % missing)
      cov['probes_missing'] = missing
    for key in known_keys:
      if key in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (prop.id, known_keys[key]['what']))
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  ev['wall_s'] = round(time.monotonic() - t0, 2)
  with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
  print('%s: %d runs, %d distinct non-trivial, %d distinct states, %.1fs, faults %s -> exit %d' % (
      prop.id, done, len(run_sigs), len(sigs), time.monotonic() - t0,
      cov['faults_fired'], code), flush=True)
  return code


def write_replay(prop, seed, idx, tier, plan, mini, res, v):
  d = os.path.join(VERIF, 'replays')
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, '%s-%d-%d.json' % (prop.id, seed, idx))
  with open(path, 'w') as f:
    json.dump({'property': prop.id, 'seed': seed, 'run': idx, 'tier': tier,
               'violation': res['violation'] or v, 'plan': mini,
               'original_plan': plan, 'trace': res.get('trace', []),
               'log': res.get('log'), 'traceback': res.get('tb')}, f, indent=1)
  return path


def verify_replay(prop, path, cls):
  import subprocess
  env = dict(os.environ)
  env['SIM_REEXEC'] = ''
  env.pop('LD_PRELOAD', None)
  p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay', path],
                     cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                     text=True, timeout=300)
  return p.returncode == 1 and ('class=%s' % cls) in p.stdout


def run_replay(prop, path):
  rec = json.load(open(path))
  base = scratch_base(prop.id)
  try:
    prop.prepare(base)
    r = run_many(prop, base, [((lambda p: p), rec['plan'])], workers=1)[0]
  finally:
    shutil.rmtree(base, ignore_errors=True)
  if r.get('timeout'):
    r['violation'] = {'cls': 'no-progress', 'detail': 'the run does not finish'}
  elif r.get('error'):
    print('ERROR: ' + r['error'])
    return 2
  if r['violation']:
    same = 'same log' if r['log'] == rec.get('log') else 'log differs from the recorded one'
    print('REPLAY property=%s class=%s (%s)\n%s' % (prop.id, r['violation']['cls'], same,
                                                   r['violation']['detail']))
    print('\n'.join(r['trace'][-40:]))
    print('VIOLATION property=%s replay=%s' % (prop.id, path))
    return 1
  print('replay: no violation')
  return 0


class Prop:
  id = None
  level = 'exploration'
  runs = {'quick': 200, 'thorough': 5000}
  rule = ''
  distinct_measure = ''
  real = []
  stubs = []
  assumptions = []
  needs_io = False
  shrink_lists = ()
  shrink_min = {}

  def prepare(self, base):
    pass

  def gen(self, rng, idx, tier):
    raise NotImplementedError

  def execute(self, plan, ctx):
    raise NotImplementedError
