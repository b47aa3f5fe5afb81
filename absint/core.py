"""Obligations, runs and reporting shared by all properties."""

import contextlib
import os
import random
import re
from fractions import Fraction

import numpy as np

from . import domain as d
from . import interp as it
from . import models
from .domain import AArray, B, Ctx, CTX, Unsupported, V, ctx, exact
from .interp import AnchorMissing, Forker, Interp, PyExc
from .poly import Poly, Rat, new_atom, rat, rat_sign


class Violation(Exception):
  """A definite failure of an obligation."""

  def __init__(self, msg, loc=None):
    super().__init__(msg)
    self.msg = msg
    self.loc = loc


def soft(aspect, msg, loc=None):
  """A failure of a secondary guarantee ('sharp', 'form', ...); the run goes on."""
  ctx().soft.append((aspect, msg, loc))


class Obligation:
  def __init__(self, group, rule, construct, case, status, msg='', loc=None,
               soft=()):
    self.group, self.rule, self.construct, self.case = group, rule, construct, case
    self.status, self.msg, self.loc = status, msg, loc
    self.soft = tuple(soft)    # (aspect, message, place)

  def key(self):
    return f'{self.rule}@{self.construct}'

  def where(self):
    return where_of(self.loc) or self.construct


def where_of(loc):
  if not loc:
    return ''
  f, l, q = loc
  return f'{os.path.relpath(f, it.REPO)}:{l} in {q}'


class Report:
  def __init__(self, tier='quick'):
    self.tier = tier
    self.obls = []
    self.paths = 0
    self.counters = {}
    self.interps = []

  def add(self, o):
    self.obls.append(o)

  def by(self, status):
    return [o for o in self.obls if o.status == status]


@contextlib.contextmanager
def new_ctx():
  c = Ctx()
  CTX.append(c)
  try:
    yield c
  finally:
    CTX.pop()


def core_interp(extra=None):
  ms = models.stdlib_models()
  ms['numpy'] = models.np_model('numpy')
  ms['jax.numpy'] = models.np_model('jax.numpy')
  ms['backend'] = models.np_model('backend')
  ms['backend'].portable = models.portable_names()
  ms['backend'].documented = models.documented_names()
  models.watch_foreign(ms['numpy'])
  models.watch_foreign(ms['jax.numpy'])
  if extra:
    ms.update(extra)
  return Interp(ms)


def check(report, group, rule, construct, case, fn, interp, max_paths=2000,
          expect_exc=None, forks=True):
  """Runs fn(c) on every abstract path; records one obligation.

  fn raises Violation on definite failure, Unsupported when undecided.
  """
  steps0 = interp.steps
  try:
    fk = Forker(max_paths)
    last = [None]
    soft_ = []

    def one():
      with new_ctx() as c:
        c.forker = fk if forks else None
        try:
          fn(c)
        except PyExc as e:
          raise Violation(f'raises {e.tname()}: {str(e.exc)[:160]}', e.loc)
        finally:
          last[0] = c
          soft_.extend(c.soft)
          soft_.extend(effects(c))
    for _ in fk.run(one):
      report.paths += 1
    st, msg, loc = 'ok', '', None
  except Violation as e:
    st, msg, loc = 'violated', e.msg, e.loc
  except Unsupported as e:
    st, msg = 'undecided', str(e)
    loc = last[0].loc if last[0] else None
  except RecursionError:
    st, msg, loc = 'undecided', 'recursion limit of the analysis', None
  report.add(Obligation(group, rule, construct, case, st, msg, loc, soft_))
  return st


EVENTS = {'truth': 'trace', 'concretize': 'trace', 'array-store': 'backend',
          'backend': 'backend', 'foreign': 'backend', 'mutation': 'pure'}


def effects(c):
  """Secondary guarantees violated by the effects of one run."""
  out, seen = [], set()
  for kind, msg, loc in c.events:
    if kind in EVENTS and (kind, msg, loc) not in seen:
      seen.add((kind, msg, loc))
      out.append((EVENTS[kind], msg, loc))
  if c.changed():
    out.append(('pure', 'an array given as an argument is modified', c.loc))
  return out


def expect_raises(fn, names):
  """fn() must raise one of the named exceptions."""
  try:
    fn()
  except PyExc as e:
    if names is None or e.tname() in names:
      return
    raise Violation(f'raises {e.tname()} instead of {"/".join(names)}', e.loc)
  raise Violation('accepted silently; expected ' + '/'.join(names or ['an exception']))


# -- constructors ------------------------------------------------------------


def arr0(v):
  if not isinstance(v, (V, B)):
    v = exact(v)
  return AArray(d._obj(v))


def atoms_array(name, shape, mk=None):
  """Exact array of fresh atoms; returns (AArray, object ndarray of Rat)."""
  data = np.empty(shape, object)
  rats = np.empty(shape, object)
  for i in np.ndindex(tuple(shape)):
    nm = name + (''.join(f'_{k}' for k in i))
    a = rat(new_atom(nm)) if mk is None else mk(nm)
    rats[i] = a
    data[i] = V(a)
  arr = AArray(data)
  ctx().own(arr)
  return arr, rats


def interval_array(name, shape, ghost=None):
  """Interval whose members are described by ghost atoms.

  Returns ((lo, hi), ghosts)."""
  lo = np.empty(shape, object)
  hi = np.empty(shape, object)
  gh = np.empty(shape, object)
  for i in np.ndindex(tuple(shape)):
    nm = name + (''.join(f'_{k}' for k in i))
    g = ghost[i] if ghost is not None else rat(new_atom(nm))
    gh[i] = g
    lo[i], hi[i] = ghost_pair(nm, g)
  pair = (AArray(lo), AArray(hi))
  ctx().own(pair[0])
  ctx().own(pair[1])
  return pair, gh


def ghost_pair(nm, g):
  a = rat(new_atom('lo(' + nm + ')'))
  b = rat(new_atom('hi(' + nm + ')'))
  ctx().facts.add(b - a)
  return V(a, D=frozenset((g,))), V(b, U=frozenset((g,)))


def ghosts_of(c, what='value'):
  """Ghost expressions (object ndarray of frozenset) certified in coefficient c.

  c is an AArray (exact) or a pair of AArrays.
  """
  if isinstance(c, tuple):
    if len(c) != 2:
      raise Violation(f'{what}: interval with {len(c)} end points')
    lo, hi = d.as_arr(c[0]), d.as_arr(c[1])
    if lo.shape != hi.shape:
      raise Violation(f'{what}: end points of shapes {lo.shape} and {hi.shape}')
    out = np.empty(lo.shape, object)
    for i in np.ndindex(lo.shape):
      out[i] = pair_ghosts(d.to_v(lo.data[i]), d.to_v(hi.data[i]))
    return out
  a = d.as_arr(c)
  out = np.empty(a.shape, object)
  for i in np.ndindex(a.shape):
    v = d.to_v(a.data[i])
    out[i] = frozenset((v.ex,)) if v.is_exact() and not (v.D or v.U) else frozenset()
  return out


def pair_ghosts(lo, hi):
  if lo.is_inf() or hi.is_inf():
    return frozenset()
  dl = lo.D or lo.dset()
  uh = hi.U or hi.uset()
  s = dl & uh
  if s:
    return s
  return lo.dset() & hi.uset()


def ghost_array(c):
  """One ghost per element (object ndarray of Rat) or None."""
  g = ghosts_of(c)
  out = np.empty(g.shape, object)
  for i in np.ndindex(g.shape):
    if not g[i]:
      return None
    s = g[i]
    if len(s) > 1:
      # a member that varies over the region is the informative one
      zs = ctx().hooks.get('z_atoms', ())
      s = [r for r in s if any(a in zs for a in r.atoms())] or s
      s = sorted(s, key=repr)
    out[i] = next(iter(s))
  return out


def rats_to_arr(r):
  out = np.empty(r.shape, object)
  for i in np.ndindex(r.shape):
    out[i] = V(r[i])
  return AArray(out)


def arr_to_rats(a):
  out = np.empty(a.shape, object)
  for i in np.ndindex(a.shape):
    v = d.to_v(a.data[i])
    out[i] = v.ex if v.is_exact() else None
  return out


def outer_power_rats(z, n):
  """z^{(x) n} as an object ndarray of Rat."""
  out = np.empty((), object)
  out[()] = rat(1)
  for _ in range(n):
    out = np.multiply.outer(out, z)
  if not isinstance(out, np.ndarray):
    w = np.empty((), object)
    w[()] = out
    out = w
  return out


def contract(coef, z, n):
  """<coef, z^n> over the last n*z.ndim axes (object arrays of Rat)."""
  k = n * z.ndim
  if coef.ndim < k:
    raise Violation(f'coefficient {n} has rank {coef.ndim} < {k}')
  zz = outer_power_rats(z, n)
  if k and coef.shape[coef.ndim - k:] != zz.shape:
    raise Violation(f'coefficient {n} has trailing shape '
                    f'{coef.shape[coef.ndim - k:]}, expected {zz.shape}')
  lead = coef.shape[:coef.ndim - k]
  out = np.empty(lead, object)
  flat = zz.reshape(-1)
  for i in np.ndindex(lead):
    s = rat(0)
    sub = coef[i].reshape(-1) if isinstance(coef[i], np.ndarray) else np.array([coef[i]], object)
    if k == 0:
      s = sub[0] * flat[0]
    else:
      for a, b in zip(sub, flat):
        s = s + a * b
    out[i] = s
  return out


def eval_ghost(coefs, z):
  """Sum_k <c_k, z^k>, broadcasting leading shapes."""
  tot = None
  for k, c in enumerate(coefs):
    t = contract(c, z, k)
    tot = t if tot is None else _badd(tot, t)
  return tot


def _badd(a, b):
  x, y = np.broadcast_arrays(a, b)
  out = np.empty(x.shape, object)
  for i in np.ndindex(x.shape):
    out[i] = x[i] + y[i]
  return out


def enclosure_ghost(e, z, what):
  """Ghost polynomial in z certified to lie in TaylorEnclosure e."""
  if not isinstance(e, tuple):
    raise Violation(f'{what}: result is {type(e).__name__}, not a tuple')
  coefs = []
  for k, c in enumerate(e):
    coefs.append(need_ghosts(c, f'{what}: coefficient {k}'))
  return eval_ghost(coefs, z)


def need_ghosts(c, what):
  """One certified member per element of coefficient c.

  Without a certificate: a definite failure if end points are on the wrong side
  or were combined by a non-monotone operation, otherwise undecided.
  """
  g = ghost_array(c)
  if g is not None:
    return g
  if isinstance(c, tuple):
    for v in np.asarray(d.as_arr(c[0]).data).reshape(-1):
      v = d.to_v(v)
      if v.U and not v.D and v.alts is None:
        raise Violation(f'{what}: the lower end point is an upper bound', v.loc)
      if v.ex in ('inf', 'nan'):
        raise Violation(f'{what}: the lower end point is {v.ex}', v.loc)
    for v in np.asarray(d.as_arr(c[1]).data).reshape(-1):
      v = d.to_v(v)
      if v.D and not v.U and v.alts is None:
        raise Violation(f'{what}: the upper end point is a lower bound', v.loc)
      if v.ex in ('-inf', 'nan'):
        raise Violation(f'{what}: the upper end point is {v.ex}', v.loc)
    for lo, hi in zip(d.as_arr(c[0]).data.reshape(-1), d.as_arr(c[1]).data.reshape(-1)):
      lo, hi = d.to_v(lo), d.to_v(hi)
      if lo.D and hi.U and not (lo.D & hi.U):
        raise Violation(f'{what}: end points bound different quantities: '
                        f'{_short(next(iter(lo.D)))} and {_short(next(iter(hi.U)))}',
                        lo.loc)
  else:
    for v in d.as_arr(c).data.reshape(-1):
      v = d.to_v(v)
      if (v.D or v.U) and v.alts is None:
        raise Violation(f'{what}: an interval end point is used as an exact value',
                        v.loc)
  for kind, msg, loc in ctx().events:
    if kind == 'lossy':
      raise Violation(f'{what}: {msg}', loc)
  raise Unsupported(f'{what}: cannot follow how it was computed ({c!r})')


def _loc_of(c):
  a = c[0] if isinstance(c, tuple) else c
  if isinstance(a, AArray) and a.size:
    v = a.data.reshape(-1)[0]
    return getattr(v, 'loc', None)
  return None


def same_rats(got, want, what, loc=None):
  if got.shape != want.shape:
    raise Violation(f'{what}: shape {got.shape}, expected {want.shape}', loc)
  for i in np.ndindex(want.shape):
    if not got[i] == want[i]:
      raise Violation(
          f'{what}: element {i} is {_short(got[i])}; expected {_short(want[i])}', loc)


def _short(r):
  s = repr(r)
  return s if len(s) < 220 else s[:220] + '...'


# -- witnesses for range cells -------------------------------------------------


def sample_atom(a, rnd):
  lo = a.lo if a.lo != float('-inf') else -7
  hi = a.hi if a.hi != float('inf') else max(lo, 0) + 7
  lo, hi = Fraction(lo), Fraction(hi)
  t = Fraction(rnd.randint(1, 15), 16)
  return lo + (hi - lo) * t


def find_witness(pred_rats, n=60):
  """Looks for a point of the cell where every rational in pred_rats is < 0."""
  atoms = set()
  for r in pred_rats:
    atoms |= r.atoms()
  if any(a.meta for a in atoms):
    return None
  rnd = random.Random(1)
  for _ in range(n):
    env = {a: rat(sample_atom(a, rnd)) for a in sorted(atoms, key=lambda a: a.id)}
    try:
      vals = [r.subs(env).const_value() for r in pred_rats]
    except ZeroDivisionError:
      continue
    if all(v < 0 for v in vals):
      return {a.name: env[a].const_value() for a in env}
  return None


def require_le(v, g, what):
  """v must be <= g on the whole cell (v: V, g: Rat)."""
  v = d.to_v(v)
  if v.bounds_below(g):
    return
  if v.ex == 'nan' or v.ex == 'inf':
    raise Violation(f'{what}: lower bound is {v.ex}', v.loc)
  al = v.aset()
  if al is None:
    raise Unsupported(f'{what}: lower bound {v!r} not comparable')
  if all(rat_sign(g - a, ctx().facts) <= {-1, 0} for a in al):
    raise Violation(f'{what}: lower bound {v!r} exceeds attained value {_short(g)}', v.loc)
  w = find_witness([g - a for a in al])
  if w is not None:
    raise Violation(f'{what}: lower bound {v!r} can exceed attained value '
                    f'{_short(g)} e.g. at {_fmt_w(w)}', v.loc)
  raise Unsupported(f'{what}: cannot order {v!r} and {_short(g)}')


def require_ge(v, g, what):
  v = d.to_v(v)
  if v.bounds_above(g):
    return
  if v.ex == 'nan' or v.ex == '-inf':
    raise Violation(f'{what}: upper bound is {v.ex}', v.loc)
  al = v.aset()
  if al is None:
    raise Unsupported(f'{what}: upper bound {v!r} not comparable')
  if all(rat_sign(a - g, ctx().facts) <= {-1, 0} for a in al):
    raise Violation(f'{what}: upper bound {v!r} is below attained value {_short(g)}', v.loc)
  w = find_witness([a - g for a in al])
  if w is not None:
    raise Violation(f'{what}: upper bound {v!r} can be below attained value '
                    f'{_short(g)} e.g. at {_fmt_w(w)}', v.loc)
  raise Unsupported(f'{what}: cannot order {v!r} and {_short(g)}')


def _fmt_w(w):
  return ', '.join(f'{k}={v}' for k, v in w.items())


def require_attained(v, attained, what):
  """Every value v may take is one of the attained expressions (sharpness)."""
  v = d.to_v(v)
  al = v.aset()
  if al is None:
    raise Unsupported(f'{what}: not an exact set')
  for a in al:
    if not any(a == t for t in attained):
      soft('sharp', f'{what}: bound {_short(a)} is not an attained value', v.loc)


# -- sign cells for interval end points ---------------------------------------

KINDS = ('pos', 'zpos', 'mixed', 'zneg', 'neg')


def iv_cell(kind, nm):
  """(lo, hi) of an interval in a sign class; widths may be zero."""
  p = rat(new_atom(nm + 'p', 0, lo_open=True))
  q = rat(new_atom(nm + 'q', 0, lo_open=True))
  w = rat(new_atom(nm + 'w', 0))
  z = rat(0)
  return {'pos': (p, p + w), 'zpos': (z, w), 'mixed': (-p, q),
          'zneg': (-w, z), 'neg': (-(p + w), -p)}[kind]


def pt_cell(kind, nm):
  p = rat(new_atom(nm + 'p', 0, lo_open=True))
  return {'pos': p, 'zero': rat(0), 'neg': -p}[kind]
