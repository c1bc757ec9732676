"""The tensor-operation seam.

A TorchDispatchMode sees every tensor operation the calling thread issues,
forward and backward.  Through it the simulator counts operations, fails the
k-th one as an allocation failure or interrupt would, decides what freshly
allocated memory contains, refuses allocations above a limit, decides random
draws, and yields to the scheduler.
"""
import math
import torch
from torch.utils._python_dispatch import TorchDispatchMode

aten = torch.ops.aten


class SimOOM(RuntimeError):
  pass


class SimMemoryError(MemoryError):
  pass


class SimInterrupt(KeyboardInterrupt):
  pass


INJECTED = (SimOOM, SimMemoryError, SimInterrupt)
KINDS = {'oom': lambda: SimOOM('[enforce fail at alloc_cpu.cpp] DefaultCPUAllocator: can\'t allocate memory (simulated)'),
         'memerr': lambda: SimMemoryError('simulated'),
         'intr': lambda: SimInterrupt()}

EMPTY = {'empty', 'new_empty', 'empty_like', 'empty_strided', 'new_empty_strided', 'empty_permuted', 'resize_'}
ALLOC = EMPTY | {'zeros', 'new_zeros', 'zeros_like', 'ones', 'full', 'new_full', 'ones_like', 'full_like',
                 'index', 'index_select', 'mm', 'cat', 'gather', 'clone', 'repeat', 'addmm', 'bmm', 'stack'}


def poison(t, pat):
  if t.numel() == 0 or t.device.type != 'cpu':
    return
  with torch.no_grad():
    if t.dtype.is_floating_point:
      if pat == 'nan':
        t.fill_(float('nan'))
      elif pat == 'inf':
        t.fill_(float('inf'))
      elif pat == 'big':
        t.fill_(3.0e4 if t.dtype == torch.float16 else 1.0e30)
      else:
        n = t.numel()
        v = torch.arange(n, dtype=torch.float32).mul_(0.37).sin_().mul_(1.0e3)
        t.copy_(v.view(t.shape).to(t.dtype))
    elif t.dtype == torch.bool:
      t.fill_(True)
    else:
      t.fill_(123 if t.dtype in (torch.uint8, torch.int8) else 1000003 if t.dtype in (torch.int32, torch.int64) else 77)


class OpSeam(TorchDispatchMode):
  def __init__(self, fail_at=(), kind='oom', poison=None, yield_cb=None, limit=None, rng=None, on_op=None):
    super().__init__()
    self.n = 0
    self.fail_at = set(fail_at)
    self.kind = kind
    self.poison = poison
    self.yield_cb = yield_cb
    self.limit = limit
    self.rng = rng
    self.on_op = on_op
    self.fired = []
    self.max_alloc = 0
    self.poisoned = 0
    self.draws = 0

  def __torch_dispatch__(self, func, types, args=(), kwargs=None):
    kwargs = kwargs or {}
    name = func.overloadpacket.__name__
    k = self.n
    self.n += 1
    if self.yield_cb is not None:
      self.yield_cb(name)
    if k in self.fail_at:
      self.fired.append((k, name))
      raise KINDS[self.kind]()
    if self.rng is not None:
      out = self.rng(name, func, args, kwargs)
      if out is not NotImplemented:
        self.draws += 1
        return out
    out = func(*args, **kwargs)
    if self.poison is not None and name in EMPTY and isinstance(out, torch.Tensor):
      poison(out, self.poison)
      self.poisoned += 1
    if self.on_op is not None:
      self.on_op(name, func, args, kwargs, out)
    return out


class RandStream:
  """Decides the outcome of every random draw made through torch: a plan
  gives a per-draw mode, so that the extreme values of a draw are reached."""
  RANDOM = {'rand', 'rand_like', 'randn', 'randn_like', 'randint', 'randint_like', 'uniform_', 'normal_',
            'bernoulli', 'bernoulli_', 'randperm', 'random_', 'multinomial', 'native_dropout', 'exponential_'}

  def __init__(self, pick):
    """pick(draw_index, shape numel) -> list/tensor of u in [0,1) as float64"""
    self.pick = pick
    self.i = 0
    self.log = []

  def u(self, shape, dtype):
    n = 1
    for s in shape:
      n *= int(s)
    v = self.pick(self.i, n)
    self.i += 1
    t = torch.tensor(v, dtype=torch.float64).view([int(s) for s in shape])
    return t

  @staticmethod
  def to_unit(u, dtype):
    """u in [0,1) -> largest representable values strictly below 1."""
    dt = dtype if dtype is not None else torch.get_default_dtype()
    if not dt.is_floating_point:
      dt = torch.float32
    # torch.rand yields multiples of 2^-24 (float), 2^-53 (double), 2^-11 (half), 2^-8 (bfloat16)
    bits = {torch.float32: 24, torch.float64: 53, torch.float16: 11, torch.bfloat16: 8}[dt]
    s = float(2 ** bits)
    return (torch.floor(u * s).clamp_(0, s - 1) / s).to(dt)

  def __call__(self, name, func, args, kwargs):
    if name not in self.RANDOM:
      return NotImplemented
    dtype = kwargs.get('dtype')
    if name == 'rand':
      out = self.to_unit(self.u(args[0], dtype), dtype)
    elif name == 'rand_like':
      out = self.to_unit(self.u(args[0].shape, dtype), dtype or args[0].dtype)
    elif name in ('randint',):
      if 'low' in func._overloadname:
        low, high, size = args[0], args[1], args[2]
      else:
        low, high, size = 0, args[0], args[1]
      u = self.u(size, None)
      out = (low + torch.floor(u * (high - low))).clamp_(low, high - 1).to(dtype or torch.int64)
    elif name == 'uniform_':
      t = args[0]
      a = args[1] if len(args) > 1 else 0.0
      b = args[2] if len(args) > 2 else 1.0
      v = self.to_unit(self.u(t.shape, t.dtype), t.dtype).double() * (b - a) + a
      t.copy_(v.to(t.dtype))
      out = t
    elif name == 'bernoulli_':
      t = args[0]
      p = args[1] if len(args) > 1 else 0.5
      u = self.to_unit(self.u(t.shape, torch.float32), torch.float32)
      t.copy_((u < p).to(t.dtype))
      out = t
    elif name == 'bernoulli':
      t = args[0]
      u = self.to_unit(self.u(t.shape, torch.float32), torch.float32)
      out = (u < (args[1] if len(args) > 1 else t)).to(t.dtype)
    elif name in ('randn', 'randn_like', 'normal_'):
      shape = args[0] if name == 'randn' else args[0].shape
      u = self.u(shape, None).clamp(1e-7, 1 - 1e-7)
      v = math.sqrt(2.0) * torch.erfinv(2 * u - 1)
      if name == 'normal_':
        mean = args[1] if len(args) > 1 else 0.0
        std = args[2] if len(args) > 2 else 1.0
        args[0].copy_((v * std + mean).to(args[0].dtype))
        out = args[0]
      else:
        out = v.to(dtype or torch.float32)
    else:
      return NotImplemented
    self.log.append(name)
    return out


def digest(t):
  """Bit-exact digest of a tensor (for event logs and snapshots)."""
  import hashlib
  if t is None:
    return 'none'
  t = t.detach().contiguous()
  h = hashlib.sha256()
  h.update(str((tuple(t.shape), str(t.dtype))).encode())
  if t.numel():
    if t.dtype == torch.bfloat16:
      t = t.view(torch.int16)
    h.update(t.cpu().numpy().tobytes())
  return h.hexdigest()[:16]
