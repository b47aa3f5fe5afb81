"""Relational summaries of the interval layer, used above it.

In relational mode an interval is known only through one symbolic member per
element (its ghost); the summaries say that the result of an interval
operation contains the operation applied to the members.  They are justified
by the obligations of groups/interval.py, and their own preconditions (the
callable handed to arbitrary_bilinear really is bilinear, is a plain product
when assume_product is set, and has nonnegative structure constants otherwise)
are checked at every call site.
"""

import numpy as np

from . import domain as d
from .core import (Violation, arr_to_rats, atoms_array, need_ghosts)
from .domain import AArray, Unsupported, V, ctx
from .interp import PyExc
from .poly import Rat, new_atom, rat

IA = 'autobound.interval_arithmetic.IntervalArithmetic.'


def pair_of(gh):
  lo = np.empty(gh.shape, object)
  hi = np.empty(gh.shape, object)
  for i in np.ndindex(gh.shape):
    s = frozenset((gh[i],))
    lo[i] = V(None, D=s)
    hi[i] = V(None, U=s)
  return AArray(lo), AArray(hi)


def operand(x, what):
  """(shape, ghost array) of an exact or interval operand."""
  g = need_ghosts(x, what)
  return g


def params(ip, f, args, kw):
  b = ip.bind(f, args, kw)
  a = f.node.args
  names = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args] + [
      x.arg for x in a.kwonlyargs]
  return [b[n] for n in names]


def _bilinear(ip, f, args, kw):
  ps = params(ip, f, args, kw)
  if len(ps) < 5:
    return NotImplemented
  _, a, b, bl, prod = ps[:5]
  if not isinstance(a, tuple) and not isinstance(b, tuple):
    return NotImplemented
  prod = ip.truth(prod)
  loc = ctx().loc
  ga, gb = operand(a, 'first operand'), operand(b, 'second operand')
  pa, ra = atoms_array('u', ga.shape)
  pb, rb = atoms_array('v', gb.shape)
  out = d.as_arr(ip.call(bl, [pa, pb], {}))
  sub = {}
  side = {}
  for arr, g, s in ((ra, ga, 0), (rb, gb, 1)):
    for i in np.ndindex(arr.shape):
      at = next(iter(arr[i].atoms()))
      sub[at] = g[i]
      side[at] = s
  gh = np.empty(out.shape, object)
  for i in np.ndindex(out.shape):
    v = d.to_v(out.data[i])
    if not v.is_exact():
      raise Unsupported('bilinear callable gives a non-exact value')
    if not v.ex.is_poly():
      raise Violation('the callable given to arbitrary_bilinear is not bilinear', loc)
    t = rat(0)
    if prod and len(v.ex.num.t) > 1:
      raise Violation('arbitrary_bilinear is told that every output element is a '
                      'single product (assume_product), but the callable sums '
                      'several products', loc)
    for mono, co in v.ex.num.t.items():
      sides = sorted((side.get(a_, 2), e) for a_, e in mono)
      if sides != [(0, 1), (1, 1)]:
        raise Violation('the callable given to arbitrary_bilinear is not bilinear',
                        loc)
      if co < 0 and not prod:
        raise Violation('the callable given to arbitrary_bilinear has a negative '
                        'structure constant', loc)
      m = rat(co)
      for a_, e in mono:
        m = m * sub[a_]
      t = t + m
    gh[i] = t
  return pair_of(gh)


def _int(x):
  if isinstance(x, bool):
    return int(x)
  if isinstance(x, int):
    return x
  try:
    if x == int(x):
      return int(x)
  except (TypeError, ValueError):
    pass
  return None


def _power(ip, f, args, kw):
  ps = params(ip, f, args, kw)
  _, a, n = ps[:3]
  n = _int(n)
  if not isinstance(a, tuple) or n is None or n < 1:
    return NotImplemented
  g = operand(a, 'operand')
  out = np.empty(g.shape, object)
  for i in np.ndindex(g.shape):
    out[i] = g[i].pow(n)
  return pair_of(out)


def _outer_power(ip, f, args, kw):
  ps = params(ip, f, args, kw)
  _, a, n, bd = (ps + [0])[:4]
  n = _int(n)
  if not isinstance(a, tuple) or n is None or n < 1 or not isinstance(bd, int):
    return NotImplemented
  g = operand(a, 'operand')
  if bd > g.ndim or bd < 0:
    return NotImplemented
  w = g.ndim - bd
  shape = g.shape[:bd] + g.shape[bd:] * n
  out = np.empty(shape, object)
  for i in np.ndindex(shape):
    t = rat(1)
    for k in range(n):
      t = t * g[i[:bd] + i[bd + w * k:bd + w * (k + 1)]]
    out[i] = t
  return pair_of(out)


def install(ip):
  ip.summaries[IA + 'arbitrary_bilinear'] = _bilinear
  ip.summaries[IA + 'power'] = _power
  ip.summaries[IA + 'outer_power'] = _outer_power


# -- unspecified smooth functions ----------------------------------------------


def fn_coef(key, x0, i):
  """i-th Taylor coefficient at x0 of the unspecified function `key`."""
  c = ctx()
  k = ('fn', key, x0, i)
  if k not in c.misc_atoms:
    c.misc_atoms[k] = new_atom(f'{key}[{i}]({x0!r})', meta=('fn', key, x0, i))
  return rat(c.misc_atoms[k])


def fn_M():
  """Degree M of the runs in which f(y) = sum_{i<M} f_i(c)(y-c)^i + R (y-c)^M."""
  return ctx().hooks.get('fn_M')


def fn_taylor(key, c, i):
  """i-th Taylor coefficient at c, using the relations between functions."""
  if key == 'swish':
    s = c * fn_coef('sigmoid', c, i)
    return s + fn_coef('sigmoid', c, i - 1) if i else s
  return fn_coef(key, c, i)


def fn_rem(key, c, y, M):
  """R with f(y) = sum_{i<M} f_i(c)(y-c)^i + R (y-c)^M."""
  if key == 'swish':
    r = fn_rem('sigmoid', c, y, M) * y
    return r + fn_coef('sigmoid', c, M - 1) if M else r
  ctxt = ctx()
  k = ('fnrem', key, y, M) if M == 0 else ('fnrem', key, c, y, M)
  if k not in ctxt.misc_atoms:
    ctxt.misc_atoms[k] = new_atom(f'{key}.rem[{M}]({c!r};{y!r})', meta=k)
    if M == 0 and any(a in ctxt.hooks.get('z_atoms', ()) for a in y.atoms()):
      ctxt.hooks['z_atoms'] = set(ctxt.hooks['z_atoms']) | {ctxt.misc_atoms[k]}
  return rat(ctxt.misc_atoms[k])


def fn_at(key, x0, y, order, start=0):
  """Sum_{i=start}^{order} f_i(x0) (y-x0)^(i-start)."""
  s = rat(0)
  M = fn_M()
  if M is not None:
    dlt = y - x0
    if start > M:
      raise Unsupported('elementwise enclosure of a degree above the maximum')
    for i in range(start, M):
      s = s + fn_taylor(key, x0, i) * dlt.pow(i - start)
    return s + fn_rem(key, x0, y, M) * dlt.pow(M - start)
  dlt = y - x0
  p = rat(1)
  for i in range(start, order + 1):
    s = s + fn_coef(key, x0, i) * p
    p = p * dlt
  return s


ORDER = 4


def at_zero(r):
  """r with every trust-region atom set to 0."""
  zs = ctx().hooks.get('z_atoms', ())
  m = {a: rat(0) for a in zs}
  return r.subs(m) if any(a in m for a in r.atoms()) else r


def contract_enclosure(key, x0, region, degree):
  """What a valid elementwise enclosure generator may be assumed to return."""
  loc = ctx().loc
  deg = _int(degree)
  if deg is None or deg < 0:
    raise Unsupported('degree of an elementwise enclosure')
  if not isinstance(region, tuple) or len(region) != 2:
    raise Violation('the trust region handed to the enclosure generator is not '
                    'an interval', loc)
  gy = need_ghosts(region, 'trust region handed to the enclosure generator')
  if isinstance(x0, tuple):
    raise Violation('the expansion point handed to the enclosure generator is an '
                    'interval', loc)
  x0 = d.as_arr(x0)
  try:
    bx, by = np.broadcast_arrays(x0.data, gy)
  except ValueError:
    raise Violation(f'expansion point of shape {x0.shape} and trust region of '
                    f'shape {gy.shape}', loc)
  coefs = []
  for i in range(deg + 1):
    coefs.append(np.empty(bx.shape, object))
  for i in np.ndindex(bx.shape):
    y = by[i]
    c = at_zero(y)
    if deg >= 1:
      v = d.to_v(bx[i])
      if not v.is_exact() or v.D or v.U or v.ex != c:
        raise Violation('the expansion point handed to the enclosure generator '
                        f'({v!r}) is not the value at the reference point '
                        f'({c!r}) of what the trust region encloses', loc)
    for k in range(deg):
      coefs[k][i] = V(fn_coef(key, c, k) if fn_M() is None else
                      fn_taylor(key, c, k))
    coefs[deg][i] = fn_at(key, c, y, ORDER + deg, deg)
  out = [AArray(c) for c in coefs[:-1]]
  out.append(pair_of(coefs[-1]))
  ctx().hooks.setdefault('contract_calls', []).append((key, deg))
  return tuple(out)


def fn_value(key, y, m):
  """Expected value of the unspecified function at y, for degree m contracts."""
  return fn_at(key, at_zero(y), y, ORDER + m)
