"""Abstract scalars, booleans and arrays.

An abstract scalar V describes one array element by up to four facts:
  ex    the exact rational expression it equals (when known)
  D     expressions known to be >= the element   (it bounds them from below)
  U     expressions known to be <= the element   (it bounds them from above)
  alts  a finite set of expressions one of which it equals (when known)
Joins (np.where with an undecided condition, minimum, maximum) keep what holds
on both sides.  B is a three-valued boolean.
"""

from fractions import Fraction
import itertools
import numpy as np

from .poly import (Rat, Poly, rat, new_atom, rat_sign, Facts, _mono_gcd, _mono_div,
                   poly_range)
from .poly import ONE

CAP = 24


class Unsupported(Exception):
  """The analysis cannot follow the code here (never an alarm)."""


class Ctx:
  """State of one abstract run."""

  def __init__(self):
    self.facts = Facts()
    self.events = []
    self.soft = []
    self.loc = None
    self.exp_atoms = {}
    self.log_atoms = {}
    self.misc_atoms = {}
    self.forker = None
    self.overflow_mode = False
    self.hooks = {}
    self.counters = {}
    self.buffers = []

  def event(self, kind, msg):
    self.events.append((kind, msg, self.loc))

  def own(self, arr):
    """Registers the buffer of an array handed to the code by its caller."""
    if arr.data.size:
      self.buffers.append((arr.data, arr.data.copy()))

  def user_data(self, data):
    return any(data is b or np.shares_memory(data, b) for b, _ in self.buffers)

  def changed(self):
    for b, old in self.buffers:
      if any(x is not y for x, y in zip(b.reshape(-1), old.reshape(-1))):
        return True
    return False

  def count(self, k, n=1):
    self.counters[k] = self.counters.get(k, 0) + n


CTX = [Ctx()]


def ctx():
  return CTX[-1]


EMPTY = frozenset()


def _cap(s):
  if len(s) > CAP:
    return frozenset(list(s)[:CAP])
  return s


class V:
  __slots__ = ('ex', 'D', 'U', 'alts', 'loc', 'nn')

  def __init__(self, ex=None, D=EMPTY, U=EMPTY, alts=None):
    self.ex = ex          # Rat, or 'inf' / '-inf' / 'nan', or None
    self.D = D
    self.U = U
    self.alts = alts
    self.loc = ctx().loc

  # effective bounds, including the exact value itself
  def dset(self):
    if isinstance(self.ex, Rat):
      return self.D | {self.ex}
    return self.D

  def uset(self):
    if isinstance(self.ex, Rat):
      return self.U | {self.ex}
    return self.U

  def aset(self):
    if isinstance(self.ex, Rat):
      return frozenset((self.ex,))
    return self.alts

  def is_exact(self):
    return isinstance(self.ex, Rat)

  def is_inf(self):
    return isinstance(self.ex, str)

  def bounds_below(self, g):
    if isinstance(self.ex, str):
      return self.ex == '-inf'
    ds = self.dset()
    return g in ds or any(rat_sign(g - x, ctx().facts) <= {0, 1} for x in ds)

  def bounds_above(self, g):
    if isinstance(self.ex, str):
      return self.ex == 'inf'
    us = self.uset()
    return g in us or any(rat_sign(x - g, ctx().facts) <= {0, 1} for x in us)

  def __add__(self, o):
    return v_add(self, to_v(o))
  __radd__ = __add__

  def __neg__(self):
    return v_neg(self)

  def __sub__(self, o):
    return v_add(self, v_neg(to_v(o)))

  def __rsub__(self, o):
    return v_add(to_v(o), v_neg(self))

  def __mul__(self, o):
    return v_mul(self, to_v(o))
  __rmul__ = __mul__

  def __repr__(self):
    if self.ex is not None:
      return repr(self.ex)
    if self.alts is not None:
      return 'oneof{' + ', '.join(sorted(map(repr, self.alts))[:4]) + '}'
    if self.D or self.U:
      return f'bound(le {sorted(map(repr, self.D))[:3]}, ge {sorted(map(repr, self.U))[:3]})'
    return '?'


class B:
  """A truth value; zero[branch] is an expression that is 0 on that branch."""
  __slots__ = ('val', 'zero')

  def __init__(self, val, zero=None):
    self.val = val
    self.zero = zero if val is None else None

  def __repr__(self):
    return {True: 'True', False: 'False', None: 'Bool?'}[self.val]


def unknown():
  return V()


def exact(x):
  return V(rat(x))


def to_v(x):
  if isinstance(x, V):
    return x
  if isinstance(x, B):
    if x.val is None:
      return V(None, EMPTY, EMPTY, frozenset((rat(0), rat(1))))
    return exact(int(x.val))
  if isinstance(x, (bool, np.bool_)):
    return exact(int(x))
  if isinstance(x, (int, Fraction, Rat, Poly)):
    return exact(x)
  if isinstance(x, np.integer):
    return exact(int(x))
  if isinstance(x, (float, np.floating)):
    x = float(x)
    if x == float('inf'):
      return V('inf')
    if x == float('-inf'):
      return V('-inf')
    if x != x:
      return V('nan')
    return exact(Fraction(repr(x)))
  raise Unsupported(f'array element {type(x).__name__}')


def v_sign(v):
  if isinstance(v.ex, Rat):
    return rat_sign(v.ex, ctx().facts)
  if v.ex == 'inf':
    return frozenset((1,))
  if v.ex == '-inf':
    return frozenset((-1,))
  if v.alts is not None:
    s = set()
    for a in v.alts:
      s |= rat_sign(a, ctx().facts)
    return frozenset(s)
  return frozenset((-1, 0, 1))


def v_add(a, b):
  if a.is_inf() or b.is_inf():
    if a.ex == 'nan' or b.ex == 'nan':
      return V('nan')
    if a.is_inf() and b.is_inf():
      return V(a.ex) if a.ex == b.ex else V('nan')
    return V(a.ex if a.is_inf() else b.ex)
  if a.ex is not None and b.ex is not None:
    ex = a.ex + b.ex
    if not (a.D or a.U or b.D or b.U):
      return V(ex)
  else:
    ex = None
  if a.ex is not None and a.ex.is_zero():
    return b
  if b.ex is not None and b.ex.is_zero():
    return a
  # Ghost bounds: use the stated ghosts when there are any, else the value.
  da, db = a.D or a.dset(), b.D or b.dset()
  ua, ub = a.U or a.uset(), b.U or b.uset()
  if a.D or a.U or a.ex is None or b.D or b.U or b.ex is None:
    D = _cap(frozenset(x + y for x in da for y in db))
    U = _cap(frozenset(x + y for x in ua for y in ub))
  else:
    D = U = EMPTY
  alts = None
  if ex is None:
    aa, ab = a.aset(), b.aset()
    if aa is not None and ab is not None and len(aa) * len(ab) <= 4 * CAP:
      alts = frozenset(x + y for x in aa for y in ab)
  return V(ex, D, U, alts)


def v_neg(a):
  if a.is_inf():
    return V({'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}[a.ex])
  return V(-a.ex if a.ex is not None else None,
           frozenset(-x for x in a.U), frozenset(-x for x in a.D),
           None if a.alts is None else frozenset(-x for x in a.alts))


def _scale_nonneg(v, c):
  """v * c, c exact Rat >= 0."""
  return V(v.ex * c if v.ex is not None else None,
           frozenset(x * c for x in v.D), frozenset(x * c for x in v.U),
           None if v.alts is None else frozenset(x * c for x in v.alts))


def v_mul(a, b):
  for x, y in ((a, b), (b, a)):
    if x.is_exact() and x.ex.is_zero():
      return V('nan') if y.is_inf() else exact(0)
  if a.is_inf() or b.is_inf():
    if a.ex == 'nan' or b.ex == 'nan':
      return V('nan')
    sa, sb = v_sign(a), v_sign(b)
    s = {x * y for x in sa for y in sb}
    if s == {1}:
      return V('inf')
    if s == {-1}:
      return V('-inf')
    return V('nan') if s == {0} else unknown()
  if a.is_exact() and b.is_exact() and not (a.D or a.U or b.D or b.U):
    return V(exact_mul(a.ex, b.ex))
  for x, y in ((a, b), (b, a)):
    if x.is_exact() and not (x.D or x.U):
      s = v_sign(x)
      if s <= {0, 1}:
        return _scale_nonneg(y, x.ex)
      if s <= {0, -1}:
        return v_neg(_scale_nonneg(y, -x.ex))
  ex = a.ex * b.ex if a.ex is not None and b.ex is not None else None
  alts = None
  D = U = EMPTY
  if ex is None:
    aa, ab = a.aset(), b.aset()
    if aa is not None and ab is not None and len(aa) * len(ab) <= 4 * CAP:
      alts = frozenset(x * y for x in aa for y in ab)
  if a.D or a.U or b.D or b.U:
    ctx().event('lossy', 'an interval end point is multiplied by a value of '
                'unknown sign')
  return V(ex, D, U, alts)


def exact_mul(x, y):
  r = x * y
  if x.is_poly() and y.is_poly() and 1 < len(x.num.t) <= 8 and 1 < len(
      y.num.t) <= 8 and r.is_poly():
    ctx().facts.product(x.num, y.num, r.num)
  return r


def exact_pow(x, n):
  r = x.pow(n)
  if n > 1 and x.is_poly() and 1 < len(x.num.t) <= 4:
    t = x
    for _ in range(n - 1):
      t = exact_mul(t, x)
  return r


def v_div(a, b):
  b = to_v(b)
  if b.is_inf():
    if b.ex == 'nan' or a.is_inf():
      return V('nan')
    return exact(0)
  if b.is_exact():
    if b.ex.is_zero():
      return V('nan')
    inv = V(b.ex.inv())
    if b.D or b.U:
      inv = V(b.ex.inv())
      if a.is_exact():
        return V(a.ex * inv.ex)
      return unknown()
    if v_sign(inv) == frozenset((0, 1)) and v_sign(b) == frozenset((0, 1)):
      pass
    return v_mul(a, inv)
  if b.alts is not None and a.aset() is not None and not any(
      x.is_zero() for x in b.alts):
    return V(None, EMPTY, EMPTY,
             frozenset(x / y for x in a.aset() for y in b.alts))
  return unknown()


def join(a, b):
  """Least upper bound of two elements."""
  if isinstance(a, B) and isinstance(b, B):
    return a if a.val == b.val else B(None)
  a, b = to_v(a), to_v(b)
  if a.ex is not None and b.ex is not None:
    if a.ex == b.ex:
      return V(a.ex, a.D & b.D, a.U & b.U)
  D = frozenset()
  U = frozenset()
  da, db = _D(a), _D(b)
  D = db if da is None else (da if db is None else da & db)
  ua, ub = _U(a), _U(b)
  U = ub if ua is None else (ua if ub is None else ua & ub)
  alts = None
  if not a.is_inf() and not b.is_inf():
    if a.aset() is not None and b.aset() is not None:
      alts = a.aset() | b.aset()
  return V(None, D or EMPTY, U or EMPTY, alts)


def _D(v):
  """Dominated set; None = everything (-inf)."""
  if v.ex == '-inf':
    return None
  return v.dset()


def _U(v):
  if v.ex == 'inf':
    return None
  return v.uset()


def v_min(a, b):
  a, b = to_v(a), to_v(b)
  if a.ex == 'nan' or b.ex == 'nan':
    return V('nan')
  if a.is_inf() or b.is_inf():
    if a.ex == '-inf' or b.ex == '-inf':
      return V('-inf')
    return b if a.ex == 'inf' else a
  if a.ex is not None and b.ex is not None:
    s = rat_sign(b.ex - a.ex, ctx().facts)
    pick = a if s <= {0, 1} else (b if s <= {0, -1} else None)
    if pick is not None:
      other = b if pick is a else a
      return V(pick.ex, pick.D | other.D, pick.U)
  for x, y in ((a, b), (b, a)):
    if x.is_exact() and y.alts is not None and all(
        rat_sign(t - x.ex, ctx().facts) <= {0, 1} for t in y.alts):
      return V(x.ex, x.D | y.D, x.U)
  D = a.dset() | b.dset()
  U = a.uset() & b.uset()
  # U also: values below both
  U = U | _common_below(a, b)
  aa, ab = a.aset(), b.aset()
  alts = aa | ab if aa is not None and ab is not None else None
  return V(None, _cap(D), U, alts)


def _common_below(a, b):
  out = set()
  for x in a.uset():
    if b.is_exact() and rat_sign(b.ex - x, ctx().facts) <= {0, 1}:
      out.add(x)
  for x in b.uset():
    if a.is_exact() and rat_sign(a.ex - x, ctx().facts) <= {0, 1}:
      out.add(x)
  return frozenset(out)


def v_max(a, b):
  return v_neg(v_min(v_neg(to_v(a)), v_neg(to_v(b))))


def compare(op, a, b):
  """op in lt le gt ge eq ne; returns B."""
  if isinstance(a, B) or isinstance(b, B):
    if isinstance(a, B) and isinstance(b, B) and op in ('eq', 'ne'):
      if a.val is None or b.val is None:
        return B(None)
      return B((a.val == b.val) == (op == 'eq'))
  a, b = to_v(a), to_v(b)
  if a.ex == 'nan' or b.ex == 'nan':
    return B(op == 'ne')
  if a.is_inf() or b.is_inf():
    order = {'-inf': -1, 'inf': 1}
    x = order.get(a.ex, 0) if a.is_inf() else 0
    y = order.get(b.ex, 0) if b.is_inf() else 0
    if x == y:
      s = {0}
    else:
      s = {1 if x > y else -1}
  else:
    s = set()
    if a.aset() is not None and b.aset() is not None and (
        len(a.aset()) * len(b.aset()) <= CAP):
      for x in a.aset():
        for y in b.aset():
          s |= rat_sign(x - y, ctx().facts)
    else:
      s = {-1, 0, 1}
    h = ctx().hooks.get('compare')
    if h is not None and len(s) > 1:
      s2 = h(a, b)
      if s2 is not None:
        s = set(s2)
  truth = {
      'lt': {-1: True, 0: False, 1: False},
      'le': {-1: True, 0: True, 1: False},
      'gt': {-1: False, 0: False, 1: True},
      'ge': {-1: False, 0: True, 1: True},
      'eq': {-1: False, 0: True, 1: False},
      'ne': {-1: True, 0: False, 1: True}}[op]
  vals = {truth[x] for x in s}
  if len(vals) == 1:
    return B(vals.pop())
  if len(s) == 2 and 0 in s and a.is_exact() and b.is_exact():
    return B(None, {truth[0]: a.ex - b.ex})
  return B(None)


# -- transcendental elements -------------------------------------------------


def v_exp(v):
  if v.ex == 'inf':
    return V('inf')
  if v.ex == '-inf':
    return exact(0)
  if v.ex == 'nan':
    return v
  if not v.is_exact():
    # exp is increasing: it maps the bounds
    f = lambda r: v_exp(V(r)).ex
    return V(None, frozenset(map(f, v.D)), frozenset(map(f, v.U)),
             None if v.alts is None else frozenset(map(f, v.alts)))
  r = v.ex
  if r.is_zero():
    return exact(1)
  c = ctx()
  if c.overflow_mode and r.is_poly():
    lo, hi, _, _ = poly_range(r.num)
    if lo >= 800:
      return V('inf')
    if hi <= -800:
      return exact(0)
  if r.is_poly():
    p = r.num
    m0 = min(p.t, key=lambda m: [(a.id, e) for a, e in m])
    k = p.t[m0]
    base = p.scale(Fraction(1) / k)
    if base not in c.exp_atoms:
      c.exp_atoms[base] = new_atom(f'exp({base!r})', 0, lo_open=True,
                                   meta=('exp', Rat(base)))
    a = rat(c.exp_atoms[base])
    if isinstance(k, int) or k.denominator == 1:
      return V(a.pow(int(k)))
    return V(a.pow(k))
  key = ('exp', r)
  if key not in c.misc_atoms:
    c.misc_atoms[key] = new_atom(f'exp({r!r})', 0, lo_open=True,
                                 meta=('exp', r))
  return V(rat(c.misc_atoms[key]))


def rat_log(r):
  """Normal form of log(r) for r > 0."""
  tot = Rat.const(0)
  for p, sg in ((r.num, 1), (r.den, -1)):
    g = _mono_gcd(p)
    rest = _mono_div(p, g) if g else p
    for a, e in g.items():
      if a.meta and a.meta[0] == 'exp':
        l = a.meta[1]
      else:
        l = rat(_log_atom(Poly.atom(a)))
      tot = tot + l * rat(e) * rat(sg)
    c0 = min(rest.t, key=lambda m: [(a.id, e) for a, e in m])
    k = rest.t[c0]
    if rest.is_const():
      if k != 1:
        tot = tot + rat(_log_atom(rest)) * rat(sg)
    else:
      tot = tot + rat(_log_atom(rest)) * rat(sg)
  return tot


def _log_atom(p):
  c = ctx()
  if p not in c.log_atoms:
    c.log_atoms[p] = new_atom(f'log({p!r})', meta=('log', Rat(p)))
  return c.log_atoms[p]


def v_log(v):
  if v.ex == 'inf' or v.ex == 'nan':
    return v
  if not v.is_exact():
    raise Unsupported('log of a non-exact value')
  if v.ex.is_zero():
    return V('-inf')
  s = v_sign(v)
  if s == {-1}:
    return V('nan')
  return V(rat_log(v.ex))


def v_abs(v):
  if v.is_inf():
    return V('nan') if v.ex == 'nan' else V('inf')
  s = v_sign(v)
  if s <= {0, 1}:
    return v
  if s <= {0, -1}:
    return v_neg(v)
  if v.is_exact():
    return v_max(v, v_neg(v))
  return unknown()


def v_signfn(v):
  s = v_sign(v)
  if v.ex == 'nan':
    return v
  if len(s) == 1:
    return exact(next(iter(s)))
  return V(None, EMPTY, EMPTY, frozenset(rat(x) for x in s))


def norm_exp(n):
  """Normalises a numeric exponent to int or a small Fraction."""
  if isinstance(n, Rat):
    if not n.is_const():
      raise Unsupported('symbolic exponent')
    n = n.const_value()
  if isinstance(n, bool):
    n = int(n)
  if isinstance(n, int):
    return n
  n = Fraction(n)
  if n.denominator == 1:
    return int(n)
  m = n.limit_denominator(1000)
  if abs(m - n) < Fraction(1, 10**12):
    return m
  return n


def v_pow(v, n):
  v = to_v(v)
  if isinstance(n, V):
    if not n.is_exact() or not n.ex.is_const():
      raise Unsupported('power with an array exponent')
    n = n.ex.const_value()
  n = norm_exp(n)
  if n == 0:
    return exact(1)
  if v.is_inf():
    if v.ex == 'nan':
      return v
    if v.ex == 'inf':
      return v if n > 0 else exact(0)
    if n < 0:
      return exact(0)
    if isinstance(n, int):
      return V('inf' if n % 2 == 0 else '-inf')
    return V('nan')
  if n == 1:
    return v
  if v.is_exact():
    if isinstance(n, int):
      if v.ex.is_zero():
        return exact(0) if n > 0 else V('inf')
      return V(exact_pow(v.ex, n))
    s = v_sign(v)
    if v.ex.is_zero():
      return exact(0) if n > 0 else V('inf')
    if s == {-1}:
      return V('nan')
    r = v.ex.pow(n)
    if r is None:
      c = ctx()
      k = ('pow', v.ex, n)
      if k not in c.misc_atoms:
        c.misc_atoms[k] = new_atom(f'({v.ex!r})^({n})', 0,
                                   lo_open=(s == {1}), meta=('pow', v.ex, n))
      return V(rat(c.misc_atoms[k]))
    return V(r)
  if v.alts is not None and isinstance(n, int) and n > 0:
    return V(None, EMPTY, EMPTY, frozenset(x.pow(n) for x in v.alts))
  return unknown()


# -- arrays --------------------------------------------------------------


class AArray:
  """n-dimensional abstract array (object ndarray of V or B)."""
  # nd0: an array of no dimensions rather than a number (numpy tells them apart: only
  # the former can be updated in place)
  __slots__ = ('data', 'dtype', 'literal', 'nd0')

  def __init__(self, data, dtype='f', literal=False, nd0=False):
    self.nd0 = nd0
    self.data = data
    self.dtype = dtype
    self.literal = literal

  @property
  def shape(self):
    return tuple(int(s) for s in self.data.shape)

  @property
  def ndim(self):
    return self.data.ndim

  @property
  def size(self):
    return int(self.data.size)

  def __repr__(self):
    if self.data.ndim == 0:
      return f'array({self.data.item()!r})'
    return f'array{self.shape}'


def _obj(x):
  """0-d or n-d object array from nested python data of V/B."""
  if isinstance(x, np.ndarray):
    if x.dtype == object:
      return x
    out = np.empty(x.shape, object)
    for i in np.ndindex(x.shape):
      out[i] = _elem(x[i])
    return out
  out = np.empty((), object)
  out[()] = x
  return out


def _elem(x):
  if isinstance(x, (V, B)):
    return x
  if isinstance(x, (bool, np.bool_)):
    return B(bool(x))
  return to_v(x)


def as_arr(x):
  if isinstance(x, AArray):
    return x
  if isinstance(x, (V,)):
    return AArray(_obj(x))
  if isinstance(x, B):
    return AArray(_obj(x), 'b')
  if isinstance(x, bool):
    return AArray(_obj(B(x)), 'b')
  if isinstance(x, int):
    return AArray(_obj(exact(x)), 'i')
  if isinstance(x, (Fraction, float)):
    return AArray(_obj(to_v(x)), 'f')
  if isinstance(x, np.ndarray):
    return AArray(_obj(x))
  if isinstance(x, (list, tuple)):
    parts = [as_arr(e) for e in x]
    if not parts:
      return AArray(np.empty((0,), object))
    shapes = {p.shape for p in parts}
    if len(shapes) != 1:
      raise ValueError('inhomogeneous array')
    out = np.empty((len(parts),) + parts[0].shape, object)
    for i, p in enumerate(parts):
      out[i] = p.data if p.data.ndim else p.data[()]
    dt = 'f' if any(p.dtype == 'f' for p in parts) else parts[0].dtype
    return AArray(out, dt)
  h = ctx().hooks.get('as_arr')
  if h is not None:
    r = h(x)
    if r is not None:
      return r
  raise TypeError(f'cannot convert {type(x).__name__} to an array')


def is_arraylike(x):
  return isinstance(x, AArray)


def symbolic(a):
  """Whether the array depends on values of the caller."""
  if a.literal:
    return False
  if a.dtype == 'b':
    return True
  known = ctx().hooks.get('concrete', EMPTY)
  return any(v.ex is None or v.D or v.U or (
      v.is_exact() and not v.ex.is_const() and not (v.ex.atoms() <= known))
             for v in a.data.reshape(-1) if isinstance(v, V))


def ew(fn, *args, dtype=None):
  arrs = [as_arr(a) for a in args]
  data = [a.data for a in arrs]
  if all(d.ndim == 0 for d in data):
    out = np.empty((), object)
    out[()] = fn(*[d[()] for d in data])
  else:
    try:
      bc = np.broadcast_arrays(*data)
    except ValueError as e:
      raise ValueError(f'shape mismatch: {[a.shape for a in arrs]}') from e
    out = np.empty(bc[0].shape, object)
    for i in np.ndindex(out.shape):
      out[i] = fn(*[b[i] for b in bc])
  if dtype is None:
    dts = [a.dtype for a in arrs]
    dtype = 'f' if 'f' in dts else ('i' if 'i' in dts else 'b')
  return AArray(out, dtype, dtype == 'b' and not any(map(symbolic, arrs)))


def a_add(a, b):
  return ew(lambda x, y: v_add(to_v(x), to_v(y)), a, b)


def a_sub(a, b):
  return ew(lambda x, y: v_add(to_v(x), v_neg(to_v(y))), a, b)


def a_mul(a, b):
  return ew(lambda x, y: v_mul(to_v(x), to_v(y)), a, b)


def a_div(a, b):
  return ew(lambda x, y: v_div(to_v(x), to_v(y)), a, b, dtype='f')


def a_neg(a):
  return ew(lambda x: v_neg(to_v(x)), a)


def a_pow(a, n):
  if isinstance(n, AArray) and n.ndim == 0:
    e = n.data[()]
    n = e
  if isinstance(n, AArray):
    return ew(v_pow, a, n)
  if isinstance(n, (V,)) or isinstance(n, (int, Fraction, float)):
    if isinstance(n, float):
      n = Fraction(repr(n))
    arr = as_arr(a)
    return ew(lambda x: v_pow(x, n), arr,
              dtype='f' if not isinstance(n, int) or arr.dtype == 'f' else None)
  raise Unsupported('power exponent ' + type(n).__name__)


def a_min(a, b):
  return ew(v_min, a, b)


def a_max(a, b):
  return ew(v_max, a, b)


def a_cmp(op):
  return lambda a, b: ew(lambda x, y: compare(op, x, y), a, b, dtype='b')


def to_b(x):
  if isinstance(x, B):
    return x
  x = to_v(x)
  s = v_sign(x)
  if 0 not in s:
    return B(True)
  if s == {0}:
    return B(False)
  return B(None)


def b_and(x, y):
  x, y = to_b(x), to_b(y)
  if x.val is False or y.val is False:
    return B(False)
  if x.val is True and y.val is True:
    return B(True)
  return B(None)


def b_or(x, y):
  return b_not(b_and(b_not(x), b_not(y)))


def b_not(x):
  x = to_b(x)
  if x.val is None:
    return B(None, x.zero and {not k: e for k, e in x.zero.items()})
  return B(not x.val)


def on_branch(v, e):
  """v where the expression e is known to be 0 (solved for one symbol if easy)."""
  if isinstance(v, B) or e is None or len(e.atoms()) != 1 or not e.is_poly():
    return v
  (atom,) = e.atoms()
  slope = const = Fraction(0)
  for m, c in e.num.t.items():
    if m == ():
      const = c
    elif m == ((atom, 1),):
      slope = c
    else:
      return v
  if not slope:
    return v
  v = to_v(v)
  to = {atom: rat(Fraction(-const) / slope)}
  try:
    if v.is_exact() and not v.D and not v.U:
      return V(v.ex.subs(to))
    if v.ex is None and v.alts is not None and not v.D and not v.U:
      return V(None, EMPTY, EMPTY, frozenset(r.subs(to) for r in v.alts))
  except ZeroDivisionError:
    pass
  return v


def v_where(c, x, y):
  c = to_b(c)
  if c.val is True:
    return x
  if c.val is False:
    return y
  if c.zero:
    e = c.zero.get(True)
    if e is not None:
      px, py = on_branch(x, e), on_branch(y, e)
      if _same_exact(px, py):
        return y                  # the other branch is right on this one, too
      x = px
    e = c.zero.get(False)
    if e is not None:
      px, py = on_branch(x, e), on_branch(y, e)
      if _same_exact(px, py):
        return x
      y = py
  return join(x, y)


def _same_exact(x, y):
  if isinstance(x, B) or isinstance(y, B):
    return False
  x, y = to_v(x), to_v(y)
  return (x.is_exact() and y.is_exact() and x.ex == y.ex and
          not (x.D or x.U or y.D or y.U))


def a_where(c, x, y):
  return ew(v_where, c, x, y,
            dtype='f' if 'f' in (as_arr(x).dtype, as_arr(y).dtype) else
            as_arr(x).dtype)


def fill(shape, v, dtype='f'):
  if isinstance(shape, int):
    shape = (shape,)
  out = np.empty(tuple(shape), object)
  for i in np.ndindex(out.shape):
    out[i] = v
  return AArray(out, dtype, nd0=True)


def _zero():
  return exact(0)


def a_sum(a, axis=None, keepdims=False):
  a = as_arr(a)
  if axis is None:
    axes = tuple(range(a.ndim))
  else:
    axes = (axis,) if isinstance(axis, int) else tuple(axis)
    axes = tuple(x % a.ndim for x in axes)
  keep = [i for i in range(a.ndim) if i not in axes]
  d = np.transpose(a.data, keep + list(axes))
  kshape = tuple(a.shape[i] for i in keep)
  d = d.reshape(kshape + (-1,)) if axes else d.reshape(kshape + (1,))
  out = np.empty(kshape, object)
  for i in np.ndindex(kshape):
    s = _zero()
    for e in d[i]:
      s = v_add(s, to_v(e))
    out[i] = s
  if keepdims:
    out = out.reshape(tuple(1 if i in axes else a.shape[i]
                            for i in range(a.ndim)))
  return AArray(out, a.dtype)


def a_tensordot(a, b, axes=2):
  a, b = as_arr(a), as_arr(b)
  if isinstance(axes, int):
    n = axes
    if n > a.ndim or n > b.ndim or n < 0:
      raise ValueError('tensordot axes')
    ax_a = list(range(a.ndim - n, a.ndim))
    ax_b = list(range(n))
  else:
    ax_a, ax_b = axes
    ax_a = [ax_a] if isinstance(ax_a, int) else list(ax_a)
    ax_b = [ax_b] if isinstance(ax_b, int) else list(ax_b)
    ax_a = [x % a.ndim for x in ax_a]
    ax_b = [x % b.ndim for x in ax_b]
  if [a.shape[i] for i in ax_a] != [b.shape[i] for i in ax_b]:
    raise ValueError(f'shape-mismatch for sum {a.shape} {b.shape} {axes}')
  fa = [i for i in range(a.ndim) if i not in ax_a]
  fb = [i for i in range(b.ndim) if i not in ax_b]
  da = np.transpose(a.data, fa + ax_a)
  db = np.transpose(b.data, ax_b + fb)
  sa = tuple(a.shape[i] for i in fa)
  sb = tuple(b.shape[i] for i in fb)
  k = int(np.prod([a.shape[i] for i in ax_a], dtype=int))
  da = da.reshape((int(np.prod(sa, dtype=int)), k))
  db = db.reshape((k, int(np.prod(sb, dtype=int))))
  out = np.empty((da.shape[0], db.shape[1]), object)
  for i in range(da.shape[0]):
    for j in range(db.shape[1]):
      s = _zero()
      for t in range(k):
        s = v_add(s, v_mul(to_v(da[i, t]), to_v(db[t, j])))
      out[i, j] = s
  return AArray(out.reshape(sa + sb), 'f' if 'f' in (a.dtype, b.dtype) else a.dtype)


def a_einsum(eq, *ops):
  eq = eq.replace(' ', '')
  if '.' in eq:
    raise Unsupported('einsum ellipsis')
  ops = [as_arr(o) for o in ops]
  if '->' in eq:
    ins, out = eq.split('->')
  else:
    ins = eq
    al = sorted(set(ins) - {','})
    out = ''.join(c for c in al if ins.count(c) == 1)
  ins = ins.split(',')
  if len(ins) != len(ops):
    raise ValueError('einsum operands')
  dims = {}
  for s, o in zip(ins, ops):
    if len(s) != o.ndim:
      raise ValueError('einsum subscripts do not match operand')
    for c, d in zip(s, o.shape):
      if dims.setdefault(c, d) != d:
        raise ValueError('einsum dimension mismatch')
  if any(c not in dims for c in out) or len(set(out)) != len(out):
    raise ValueError('einsum output subscripts')
  red = [c for c in dims if c not in out]
  res = np.empty(tuple(dims[c] for c in out), object)
  for idx in np.ndindex(res.shape):
    env = dict(zip(out, idx))
    s = _zero()
    for r in itertools.product(*[range(dims[c]) for c in red]):
      env.update(zip(red, r))
      t = None
      for sub, o in zip(ins, ops):
        e = to_v(o.data[tuple(env[c] for c in sub)])
        t = e if t is None else v_mul(t, e)
      s = v_add(s, t)
    res[idx] = s
  return AArray(res, 'f')


def a_getitem(a, key):
  def conv(k):
    if isinstance(k, AArray):
      if k.ndim == 0 and k.dtype == 'i':
        v = k.data[()]
        if v.is_exact() and v.ex.is_const():
          return int(v.ex.const_value())
      raise Unsupported('indexing with an array')
    return k
  key = tuple(conv(k) for k in key) if isinstance(key, tuple) else conv(key)
  r = a.data[key]
  if not isinstance(r, np.ndarray):
    r = _obj(r)
  return AArray(r, a.dtype, a.literal)


def a_diag(a, k=0):
  a = as_arr(a)
  if a.ndim == 1:
    n = a.shape[0] + abs(k)
    out = fill((n, n), _zero()).data
    for i in range(a.shape[0]):
      out[i + max(0, -k), i + max(0, k)] = a.data[i]
    return AArray(out, a.dtype)
  if a.ndim == 2:
    return AArray(np.array([a.data[i, i] for i in range(min(a.shape))] + [None],
                           object)[:-1], a.dtype)
  raise ValueError('Input must be 1- or 2-d.')


def a_reshape(a, shape):
  a = as_arr(a)
  if isinstance(shape, int):
    shape = (shape,)
  return AArray(a.data.reshape(tuple(int(s) for s in shape)), a.dtype, a.literal)


def a_transpose(a, axes=None):
  a = as_arr(a)
  if axes is not None:
    axes = tuple(axes)
    if sorted(x % a.ndim if a.ndim else x for x in axes) != list(range(a.ndim)):
      raise ValueError("axes don't match array")
  return AArray(np.transpose(a.data, axes), a.dtype, a.literal)


def arr_equal(a, b):
  """Exact equality of two abstract arrays (both fully exact)."""
  a, b = as_arr(a), as_arr(b)
  if a.shape != b.shape:
    return False
  for i in np.ndindex(a.shape):
    x, y = to_v(a.data[i]), to_v(b.data[i])
    if not (x.is_exact() and y.is_exact() and x.ex == y.ex):
      return False
  return True
