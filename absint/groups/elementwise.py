"""Obligations about autobound.elementwise_functions and primitive_enclosures."""

import contextlib
import itertools
import math
from fractions import Fraction

import numpy as np

from .. import domain as d
from .. import oracle as orc
from ..core import (Violation, arr0, check, core_interp, expect_raises, new_ctx, rat,
                    require_ge, require_le, soft)
from ..domain import AArray, B, Unsupported, V, ctx
from ..interp import IInst, Native, PyExc
from ..poly import Poly, Rat, new_atom, rat_sign

EF = 'autobound.elementwise_functions'
PE = 'autobound.primitive_enclosures'
NAMES = ('abs', 'exp', 'log', 'sigmoid', 'softplus', 'swish')
INF = math.inf


def frac(x):
  return Fraction(x) if x not in (INF, -INF) else x


# -- exact differentiation in (x, exp x) ---------------------------------------


def ddx_poly(p, x, e):
  out = Rat.const(0)
  for mono, c in p.t.items():
    for i, (a, n) in enumerate(mono):
      rest = rat(c) * rat(n)
      for j, (b, m) in enumerate(mono):
        k = m - 1 if j == i else m
        if k:
          rest = rest * Rat.atom(b).pow(k)
      if a is x:
        out = out + rest
      elif a is e:
        out = out + rest * Rat.atom(e)
      else:
        raise Unsupported('derivative of an unexpected symbol')
  return out


def ddx(r, x, e):
  n, dn = ddx_poly(r.num, x, e), ddx_poly(r.den, x, e)
  return (n * Rat(r.den) - Rat(r.num) * dn) / (Rat(r.den) * Rat(r.den))


def true_derivs(name, k, xa):
  """Exact expression of f^(k) at the atom xa (Rat), k >= 0."""
  x = rat(xa)
  if name == 'exp':
    return d.v_exp(V(x)).ex
  if name == 'log':
    if k == 0:
      return d.v_log(V(x)).ex
    return rat((-1) ** (k - 1) * math.factorial(k - 1)) / x.pow(k)
  if name == 'abs':
    s = rat_sign(x, ctx().facts)
    sg = rat(1 if s == {1} else -1)
    return x * sg if k == 0 else sg
  E = d.v_exp(V(x)).ex
  ea = next(iter(E.num.atoms()))
  sig = E / (rat(1) + E)
  if name == 'softplus':
    if k == 0:
      return d.v_log(V(rat(1) + E)).ex
    f, n = sig, k - 1
  elif name == 'sigmoid':
    f, n = sig, k
  else:
    f, n = x * sig, k
  for _ in range(n):
    f = ddx(f, xa, ea)
  return f


MAXORD = {'abs': 1, 'exp': 9, 'log': 9, 'sigmoid': 4, 'softplus': 5, 'swish': 4}


class EL:
  def __init__(self, report):
    self.ip = core_interp()
    report.interps.append(self.ip)
    self.np = self.ip.models['backend']

  def ef(self, name):
    return self.ip.mod_attr(EF, name)

  def pe(self, name):
    return self.ip.mod_attr(PE, name)

  def call(self, f, *a, **k):
    return self.ip.call(f, list(a), k)

  def fid(self, name, order=0):
    f = self.ef(name.upper())
    if order:
      f = self.call(self.ip.getattr(f, 'derivative_id'), order)
    return f


def scalar(v):
  a = d.as_arr(v)
  if a.size != 1:
    raise Violation(f'result has shape {a.shape}, expected a scalar')
  return a.data.reshape(-1)[0]


def run_derivs(report):
  G = 'el.derivs'
  el = EL(report)
  ip = el.ip
  for name in NAMES:
    for cell in ('pos', 'neg', 'zero'):
      if name == 'log' and cell != 'pos':
        continue
      for k in range(0, MAXORD[name] + 1):
        def go(c, name=name, cell=cell, k=k):
          if cell == 'zero':
            x = V(rat(0))
            if name == 'abs':
              want = rat(0)
            else:
              xa = new_atom('x', -INF, 0)
              w = true_derivs(name, k, xa)
              ea = [a for a in w.atoms() if a.meta and a.meta[0] == 'exp']
              want = w
              if name == 'softplus' and k == 0:
                want = d.v_log(V(rat(2))).ex
              else:
                want = w.subs({xa: rat(0), **{a: rat(1) for a in ea}})
          else:
            xa = new_atom('x', *((0, INF, True) if cell == 'pos' else
                                 (-INF, 0, False, True)))
            x = V(rat(xa))
            want = true_derivs(name, k, xa)
          f = el.call(el.ef('get_function'), el.fid(name, k), el.np)
          got = scalar(el.call(f, arr0(x)))
          got = d.to_v(got)
          if got.is_inf():
            raise Violation(f'derivative {k} of {name} evaluates to {got!r}', got.loc)
          if not got.is_exact():
            raise Unsupported(f'derivative {k} of {name} is not followed')
          if got.ex != want:
            if {a.meta[0] if a.meta else '' for a in got.ex.atoms() | want.atoms()} & {
                'log', 'pow'} and cell != 'pos' and name in ('softplus',):
              # logs of different arguments need not share a normal form
              raise Unsupported('logarithms are not comparable')
            raise Violation(f'derivative {k} of {name} on {cell} x is {got!r}, '
                            f'expected {want!r}', got.loc)
        check(report, G, 'F-derivative', f'get_function({name}, {k})', cell, go, ip)
  for name in NAMES:
    for deg in range(0, MAXORD[name] + 1):
      def go(c, name=name, deg=deg):
        cells = ('pos', 'pos') if name == 'log' else ('pos', 'neg')
        at = [new_atom(f'x{i}', *((0, INF, True) if q == 'pos' else
                                  (-INF, 0, False, True))) for i, q in enumerate(cells)]
        data = np.empty((2,), object)
        for i in range(2):
          data[i] = V(rat(at[i]))
        r = list(el.call(el.ef('get_taylor_polynomial_coefficients'), el.fid(name),
                         deg, AArray(data), el.np))
        if len(r) != deg + 1:
          raise Violation(f'{len(r)} coefficients for degree {deg}')
        for k in range(deg + 1):
          a = d.as_arr(r[k])
          if a.shape != (2,):
            raise Violation(f'coefficient {k} has shape {a.shape}')
          for i in range(2):
            got = d.to_v(a.data[i])
            want = true_derivs(name, k, at[i]) / rat(math.factorial(k))
            if not got.is_exact():
              raise Unsupported('coefficient not followed')
            if got.ex != want:
              raise Violation(f'Taylor coefficient {k} of {name} is {got!r}, '
                              f'expected {want!r}', got.loc)
      check(report, G, 'F-coefficients', f'get_taylor_polynomial_coefficients({name})',
            f'degree {deg}', go, ip)
  for name, k in (('abs', 2), ('sigmoid', 5), ('softplus', 6), ('swish', 5)):
    def go(c, name=name, k=k):
      x = rat(new_atom('x', 0, INF, True))
      try:
        f = el.call(el.ef('get_function'), el.fid(name, k), el.np)
        got = d.to_v(scalar(el.call(f, arr0(V(x)))))
      except PyExc as e:
        if e.tname() in ('NotImplementedError', 'ValueError', 'KeyError'):
          return
        raise
      xa = next(iter(x.atoms()))
      want = rat(0) if name == 'abs' else true_derivs(name, k, xa)
      if got.is_exact() and got.ex != want:
        raise Violation(f'derivative {k} of {name} is {got!r}, expected {want!r} or '
                        'an exception', got.loc)
    check(report, G, 'F-unsupported', f'get_function({name})', f'order {k}', go, ip)
  def go(c):
    fid = el.call(el.ef('FunctionId'), 'no-such-function')
    expect_raises(lambda: el.call(el.ef('get_function'), fid, el.np),
                  ('NotImplementedError', 'ValueError', 'KeyError'))
    expect_raises(lambda: el.call(el.ef('get_function_data'), fid),
                  ('NotImplementedError', 'ValueError', 'KeyError'))
  check(report, G, 'F-unsupported', 'get_function', 'unknown name', go, ip)


def run_overflow(report):
  """No NaN and no spurious infinity where exp overflows or underflows."""
  G = 'el.overflow'
  el = EL(report)
  for name in ('sigmoid', 'softplus', 'swish'):
    for sgn in (1, -1):
      for k in range(0, MAXORD[name] + 1):
        def go(c, name=name, sgn=sgn, k=k):
          c.overflow_mode = True
          x = rat(new_atom('BIG', 2000, INF)) * rat(sgn)
          f = el.call(el.ef('get_function'), el.fid(name, k), el.np)
          got = d.to_v(scalar(el.call(f, arr0(V(x)))))
          if got.is_inf():
            raise Violation(f'{name}^({k}) at a large {"positive" if sgn > 0 else "negative"}'
                            f' argument evaluates to {got!r}', got.loc)
          if not got.is_exact():
            raise Unsupported('not followed')
          lim = {('sigmoid', 0): (rat(0), rat(1)), ('softplus', 0): (rat(0), x),
                 ('softplus', 1): (rat(0), rat(1)), ('swish', 0): (rat(0), x),
                 ('swish', 1): (rat(0), rat(1))}.get((name, k), (rat(0), rat(0)))
          if got.ex != lim[sgn > 0]:
            raise Violation(f'{name}^({k}) at a large argument tends to {got!r}, '
                            f'expected {lim[sgn > 0]!r}', got.loc)
        check(report, G, 'F-overflow', f'get_function({name}, {k})',
              f'large {"+" if sgn > 0 else "-"}', go, el.ip)


# -- table of extrema ------------------------------------------------------------


def table_of(el, fd):
  g = lambda n: el.ip.getattr(fd, n)
  mins = [frac(v) for v in g('local_minima')]
  maxs = [frac(v) for v in g('local_maxima')]
  return mins, maxs, g('monotonically_decreasing'), g('monotonically_increasing'), g(
      'even_symmetric')


TABLE = [(n, k) for n, top in (('abs', 1), ('exp', 6), ('log', 6), ('sigmoid', 4),
                               ('softplus', 5), ('swish', 5)) for k in range(top + 1)]
TOL = 1e-7


def run_table(report):
  G = 'el.table'
  el = EL(report)
  for name, k in TABLE:
    def go(c, name=name, k=k):
      try:
        fd = el.call(el.ef('get_function_data'), el.fid(name, k))
      except PyExc as e:
        if e.tname() in ('NotImplementedError', 'KeyError') and k > 4:
          return
        raise
      mins, maxs, dec, inc, ev = table_of(el, fd)
      tm, tx = orc.extrema(name, k)
      for what, got, want in (('minima', mins, tm), ('maxima', maxs, tx)):
        if list(got) != sorted(got):
          raise Violation(f'local {what} of {name}^({k}) are not in ascending order')
        if len(got) != len(want) or any(
            abs(float(a) - b) > TOL for a, b in zip(sorted(got), sorted(want))):
          raise Violation(
              f'local {what} of {name}^({k}) are listed as '
              f'{[round(float(v), 9) for v in got]}; the {k + 1}-th derivative '
              f'changes sign at {[round(v, 9) + 0.0 for v in want]}')
      mono = orc.monotone(name, k)
      if ctx_truth(inc) and mono != 1 or ctx_truth(dec) and mono != -1:
        raise Violation(f'{name}^({k}) is flagged monotone '
                        f'({"in" if ctx_truth(inc) else "de"}creasing) but is not')
      if mono and not (ctx_truth(inc) or ctx_truth(dec)):
        if not mins and not maxs:
          raise Violation(f'{name}^({k}) is monotone but not flagged')
      if ctx_truth(ev) and not orc.even(name, k):
        raise Violation(f'{name}^({k}) is flagged even-symmetric but is not')
    check(report, G, 'F-table', f'get_function_data({name}, {k})', '', go, el.ip)


def ctx_truth(v):
  if isinstance(v, (AArray, B, V)):
    raise Unsupported('flag is an array')
  return bool(v)


def pos_cells(ext, lo=-INF, margin=0):
  """Position cells relative to sorted numbers: ('open', l, h) and ('pt', e)."""
  pts = [lo] + list(ext) + [INF]
  out = []
  for i in range(len(pts) - 1):
    out.append(('open', pts[i], pts[i + 1]))
    if i < len(ext):
      out.append(('pt', ext[i], ext[i]))
  return out


def cell_atom(cell, nm):
  kind, l, h = cell
  if kind == 'pt':
    return rat(frac(l))
  return rat(new_atom(nm, frac(l), frac(h), l != -INF or True, True))


SYN = [((0,), ()), ((), (0,)), ((-1,), (2,)), ((2,), (-1,)), ((-3, 1), (-1,)),
       ((0,), (-2, 2)), ((-2, 1), (-1, 3))]
SYN += [(tuple(range(s, n, 2)), tuple(range(1 - s, n, 2)))
        for n in (4, 5, 6, 7) for s in (0, 1)]


def truth_of(b, what):
  v = d.to_b(scalar(b)).val
  if v is None:
    raise Unsupported(f'{what}: undecided')
  return v


def run_monotone(report):
  G = 'el.monotone'
  el = EL(report)
  mk = el.ef('FunctionData')
  for mins, maxs in SYN:
    ext = sorted(mins + maxs)
    cells = pos_cells(ext)
    for i, ca in enumerate(cells):
      for j in range(i, len(cells)):
        cb = cells[j]
        if ca[0] == 'pt' and i == j:
          continue        # a single point: any answer is right
        def go(c, mins=mins, maxs=maxs, ext=ext, ca=ca, cb=cb, i=i, j=j):
          fm = lambda t: tuple(Fraction(v) for v in t)
          fd = el.call(mk, fm(mins), fm(maxs))
          a, b = cell_atom(ca, 'a'), cell_atom(cb, 'b')
          r = el.call(el.ip.getattr(fd, 'monotone_over'),
                      (arr0(V(a)), arr0(V(b))), el.np)
          dec, inc = truth_of(r[0], 'decreasing'), truth_of(r[1], 'increasing')
          # open segment indices covered by [a, b]
          segs = set(range((i + 1) // 2, j // 2 + 1))
          kinds = set()
          for s in segs:
            # segment s lies left of ext[s] (if any)
            if s < len(ext):
              kinds.add('dec' if ext[s] in mins else 'inc')
            else:
              kinds.add('inc' if ext[-1] in mins else 'dec')
          want_dec, want_inc = kinds == {'dec'}, kinds == {'inc'}
          for nm, got, want in (('decreasing', dec, want_dec),
                                ('increasing', inc, want_inc)):
            if got and not want:
              raise Violation(f'claims {nm} over a region that contains a turning point')
            if want and not got:
              raise Violation(f'misses that the function is {nm} over the region')
        check(report, G, 'F-monotone-over', 'FunctionData.monotone_over',
              f'min{mins} max{maxs} region cells {i},{j}', go, el.ip)
  # narrow and distant regions around each turning point
  for mins, maxs in SYN:
    ext = sorted(mins + maxs)
    for pos, e in enumerate(ext):
      for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12):
        dl = Fraction(1, 10 ** k)
        for lo, hi in ((e - dl, e), (e, e + dl), (e - dl, e + dl), (e - dl * dl, e + dl),
                       (e - dl, e + dl * dl), (e - Fraction(1, 2), e + dl),
                       (e - dl, e + Fraction(1, 2)), (e - Fraction(1, 2), e - dl),
                       (e + dl, e + Fraction(1, 2)), (e + dl, e + 2 * dl),
                       (Fraction(10 ** k), Fraction(10 ** k + 1)),
                       (-Fraction(10 ** k + 1), -Fraction(10 ** k))):
          def go(c, mins=mins, maxs=maxs, ext=ext, lo=lo, hi=hi):
            fm = lambda t: tuple(Fraction(v) for v in t)
            fd = el.call(mk, fm(mins), fm(maxs))
            r = el.call(el.ip.getattr(fd, 'monotone_over'),
                        (arr0(V(rat(lo))), arr0(V(rat(hi)))), el.np)
            inside = any(lo < x < hi for x in ext)
            below = [x for x in ext if x <= lo]
            after = [x for x in ext if x >= hi]
            up = below[-1] in mins if below else bool(after) and after[0] in maxs
            for nm, got, want in (
                ('decreasing', truth_of(r[0], 'decreasing'), not inside and not up),
                ('increasing', truth_of(r[1], 'increasing'), not inside and up)):
              if got and not want:
                raise Violation(f'claims {nm} over [{float(lo)}, {float(hi)}], where '
                                'the function is not')
              if want and not got:
                raise Violation(f'misses that the function is {nm} over '
                                f'[{float(lo)}, {float(hi)}]')
          check(report, G, 'F-monotone-over', 'FunctionData.monotone_over',
                f'min{mins} max{maxs} over [{float(lo)}, {float(hi)}]', go, el.ip)
  for inc in (True, False):
    def go(c, inc=inc):
      fd = el.call(mk, (), (), **{'monotonically_increasing' if inc else
                                  'monotonically_decreasing': True})
      a = rat(new_atom('a'))
      data = (AArray(np.array([V(a), V(a)], object)),
              AArray(np.array([V(a + rat(1)), V(a)], object)))
      r = el.call(el.ip.getattr(fd, 'monotone_over'), data, el.np)
      for arr, want in ((r[0], not inc), (r[1], inc)):
        arr = d.as_arr(arr)
        if arr.shape != (2,):
          raise Violation(f'shape {arr.shape}, expected (2,)')
        if [d.to_b(v).val for v in arr.data] != [want] * 2:
          raise Violation('monotone flag is not honoured')
    check(report, G, 'F-monotone-over', 'FunctionData.monotone_over',
          f'no extrema, increasing={inc}', go, el.ip)
  def go(c):
    fd = el.call(mk, (Fraction(0),), ())
    a = (AArray(np.array([V(rat(-3)), V(rat(1)), V(rat(-1))], object)),
         AArray(np.array([V(rat(-1)), V(rat(2)), V(rat(1))], object)))
    r = el.call(el.ip.getattr(fd, 'monotone_over'), a, el.np)
    if [d.to_b(v).val for v in d.as_arr(r[0]).data] != [True, False, False] or [
        d.to_b(v).val for v in d.as_arr(r[1]).data] != [False, True, False]:
      raise Violation('elementwise answer is wrong')
  check(report, G, 'F-monotone-over', 'FunctionData.monotone_over', 'vector', go, el.ip)


# -- opaque functions with the shape of the real ones -----------------------------


def value_range(name, k, cell):
  """Numeric range of f^(k) over the closure of a position cell."""
  kind, l, h = cell
  mi, ma = orc.extrema(name, k)
  lim = orc.limits(name, k)
  pts = [p for p in mi + ma if l < p < h]
  vals = [orc.value(name, k, p) for p in pts]
  dlo = orc.domain_lo(name)
  vals.append(lim[0] if l == -INF or (l == dlo and name == 'log') else orc.value(name, k, l))
  vals.append(lim[1] if h == INF else orc.value(name, k, h))
  lo, hi = min(vals), max(vals)
  eps = lambda v: 0 if v in (INF, -INF) else 1e-13 * (1 + abs(v))
  return lo - eps(lo), hi + eps(hi)


def opaque(name, k, where):
  """Native f^(k): exact argument expression -> symbol with the true range.

  where: dict argument expression -> cell."""
  def f(x):
    x = d.as_arr(x)
    def one(v):
      v = d.to_v(v)
      if not v.is_exact():
        raise Unsupported('function of a non-exact value')
      key = ('op', name, k, v.ex)
      c = ctx()
      if key not in c.misc_atoms:
        cell = where.get(v.ex)
        if cell is None and v.ex.is_const():
          p = float(v.ex.const_value())
          cell = ('pt', p, p)
        lo, hi = value_range(name, k, cell) if cell else (-INF, INF)
        c.misc_atoms[key] = new_atom(f'{name}^({k})({v.ex!r})', frac(lo), frac(hi),
                                     meta=('op', name, k, v.ex))
      return V(rat(c.misc_atoms[key]))
    return d.ew(one, x, dtype='f')
  return f


def op_val(f, r):
  return scalar(f(arr0(V(r)))).ex


def known_only(v):
  """True when every expression describing v uses symbols of the harness."""
  al = v.aset()
  return al is not None


class Cert:
  """What may be a valid bound: a set of sufficient sets of expressions."""

  def __init__(self, lower, upper):
    self.lower, self.upper = lower, upper   # lists of alternatives (sets)

  def judge(self, lo, hi, what):
    lo, hi = d.to_v(lo), d.to_v(hi)
    for side, v, alts, fn in (('lower', lo, self.lower, V.bounds_below),
                              ('upper', hi, self.upper, V.bounds_above)):
      if v.ex == ('-inf' if side == 'lower' else 'inf'):
        continue
      if v.is_inf():
        raise Violation(f'{what}: the {side} end point is {v.ex}', v.loc)
      if any(all(fn(v, g) for g in alt) for alt in alts):
        continue
      if not known_only(v):
        raise Unsupported(f'{what}: the {side} end point is not followed')
      raise Violation(f'{what}: the {side} end point {v!r} is not a valid bound here',
                      v.loc)


def snapped_extrema(el, name, k):
  """Extrema from the oracle, moved onto the table's entry where it has one."""
  mi, ma = orc.extrema(name, k)
  if el is None:
    return mi, ma
  try:
    with new_ctx():
      tab = table_of(el, el.call(el.ef('get_function_data'), el.fid(name, k)))
  except (PyExc, Unsupported):
    return mi, ma
  def snap(ps, tb):
    out = []
    for p in ps:
      near = [q for q in tb if abs(float(q) - p) < TOL]
      out.append(near[0] if near else Fraction(p))
    return out
  return snap(mi, tab[0]), snap(ma, tab[1])


def region_cells(name, k, el=None):
  mi, ma = snapped_extrema(el, name, k)
  ext = sorted(set(mi) | set(ma))
  return ext, pos_cells(ext, lo=orc.domain_lo(name))


def num_range(cell):
  kind, l, h = cell
  if l == -INF and h == INF:
    return -3.0, 3.0
  if l == -INF:
    return h - 3.0, h
  if h == INF:
    return l, l + 3.0
  return l, h


def shrink(cell, f0, f1):
  """Sub-range of an open cell, away from its ends."""
  l, h = num_range(cell)
  return l + (h - l) * f0, l + (h - l) * f1


def triples(cells, tier):
  """(cell_a, cell_b, ranges for a, x0, b) with separated a < x0 < b."""
  for i, ca in enumerate(cells):
    for j in range(i, len(cells)):
      cb = cells[j]
      if ca[0] == 'pt' and i == j:
        continue
      if i == j:
        yield i, j, shrink(ca, .02, .3), shrink(ca, .45, .55), shrink(ca, .7, .98)
        continue
      ra = (ca[1], ca[1]) if ca[0] == 'pt' else shrink(ca, .02, .6)
      rb = (cb[1], cb[1]) if cb[0] == 'pt' else shrink(cb, .4, .98)
      mids = []
      if ca[0] == 'open':
        mids.append(shrink(ca, .8, .97))
      if cb[0] == 'open':
        mids.append(shrink(cb, .03, .2))
      for t in range(i + 1, j):
        if cells[t][0] == 'open':
          mids.append(shrink(cells[t], .3, .6))
      if tier == 'quick':
        mids = mids[:1] + mids[-1:] if len(mids) > 1 else mids
      for m in mids:
        yield i, j, ra, m, rb


def edge_triples(cells, jobs, mirror=False):
  """Expansion points at an end of the region, at both, or at a turning point."""
  seen = set()
  for i, j, ra, rx, rb, _ in jobs:
    if (i, j) in seen:
      continue
    seen.add((i, j))
    if mirror and ra[0] < -rb[0] <= ra[1] + TOL:
      # decide the position of the mirror image of x0
      yield i, j, ra, rx, (-ra[0] + .1, -ra[0] + 1), 'left'
      yield i, j, (-rb[1] - 1, -rb[1] - .1), rx, rb, 'right'
      m = (ra[0] + ra[1]) / 2
      yield i, j, (ra[0], m - .1), rx, (rb[0], -m), 'left'
      yield i, j, (m, ra[1]), rx, (-m + .1, rb[1]), 'right'
    else:
      yield i, j, ra, rx, rb, 'left'
      yield i, j, ra, rx, rb, 'right'
    for t in range(i + 1, j):
      if cells[t][0] == 'pt':
        yield i, j, ra, (cells[t][1],) * 2, rb, None
    if i == j or j == i + 1:
      yield i, i, ra, rx, rb, 'both'


def mk_pt(rng, nm):
  l, h = rng
  if l == h:
    return rat(Fraction(l))
  return rat(new_atom(nm, Fraction(l), Fraction(h)))


def ratio_expr(sig, coefs, x0, x, k):
  """(sigma(x) - sum_{i<k} c_i (x-x0)^i) / (x-x0)^k."""
  h = x - x0
  s = sig
  for i in range(k):
    s = s - coefs[i] * (h.pow(i) if i else rat(1))
  return s / h.pow(k) if k else s


def run_range(report):
  """minimum_value, maximum_value and get_range on opaque functions."""
  G = 'el.range'
  el = EL(report)
  jobs = [('softplus', 2), ('softplus', 3), ('softplus', 5), ('swish', 0), ('swish', 2),
          ('swish', 3), ('swish', 4), ('abs', 0), ('sigmoid', 4), ('exp', 0), ('log', 1),
          ('sigmoid', 0)]
  for name, k in jobs + [('swish', 5)]:
    ext, cells = region_cells(name, k)
    for i, ca in enumerate(cells):
      for j in range(i, len(cells)):
        cb = cells[j]
        def go(c, name=name, k=k, ca=ca, cb=cb, i=i, j=j, cells=cells, which='all'):
          mi, ma = orc.extrema(name, k)
          a, b = cell_atom(ca, 'a'), cell_atom(cb, 'b')
          if i == j and ca[0] == 'pt':
            b = a
          where = {a: ca, b: cb}
          op = opaque(name, k, where)
          fm = lambda t: tuple(Fraction(v) for v in t)
          lomin, lomax = fm(mi), fm(ma)
          fa, fb = op_val(op, a), op_val(op, b)
          inside = lambda p: (ca[1] <= p <= cb[2]) and (
              ca[0] == 'pt' or p > ca[1]) and (cb[0] == 'pt' or p < cb[2])
          vmin = [fa, fb] + [op_val(op, rat(p)) for p in lomin if inside(p)]
          vmax = [fa, fb] + [op_val(op, rat(p)) for p in lomax if inside(p)]
          A, Bv = arr0(V(a)), arr0(V(b))
          nf = Native(op)
          lo = scalar(el.call(el.ef('minimum_value'), nf, A, Bv, lomin, el.np))
          for g in vmin:
            require_le2(lo, g, f'minimum_value of {name}^({k})')
          hi = scalar(el.call(el.ef('maximum_value'), nf, A, Bv, lomax, el.np))
          for g in vmax:
            require_ge2(hi, g, f'maximum_value of {name}^({k})')
          for v, att, nm in ((lo, vmin, 'minimum_value'), (hi, vmax, 'maximum_value')):
            al = d.to_v(v).aset()
            if al is None:
              raise Unsupported('not followed')
            for t in al:
              if t not in att:
                soft('sharp', f'{nm} of {name}^({k}): {t!r} is not a value taken at '
                     'an end point or at an extremum inside the region', d.to_v(v).loc)
        check(report, G, 'F-range', 'minimum_value/maximum_value',
              f'{name}^({k}) region cells {i},{j}', go, el.ip)
  # get_range ties the right function, table and end points together
  for name, k in jobs:
    ext, cells = region_cells(name, k, el)
    for i, ca in enumerate(cells):
      for j in range(i, len(cells)):
        cb = cells[j]
        if ca[0] == 'pt' or cb[0] == 'pt':
          continue
        def go(c, name=name, k=k, ca=ca, cb=cb):
          ra, rb = shrink(ca, .02, .4), shrink(cb, .6, .98)
          a, b = mk_pt(ra, 'a'), mk_pt(rb, 'b')
          where = {a: ('open',) + ra, b: ('open',) + rb}
          with opaque_functions(el, where):
            lo, hi = el.call(el.ef('get_range'), el.fid(name, k),
                             (arr0(V(a)), arr0(V(b))), el.np)
          lo, hi = scalar(lo), scalar(hi)
          op = opaque(name, k, where)
          mi, ma = snapped_extrema(el, name, k)
          vals_lo = [op_val(op, a), op_val(op, b)] + [
              op_val(op, rat(frac(p))) for p in mi if ra[1] < p < rb[0]]
          vals_hi = [op_val(op, a), op_val(op, b)] + [
              op_val(op, rat(frac(p))) for p in ma if ra[1] < p < rb[0]]
          for g in vals_lo:
            require_le2(lo, g, f'get_range of {name}^({k})')
          for g in vals_hi:
            require_ge2(hi, g, f'get_range of {name}^({k})')
        check(report, G, 'F-range', 'get_range', f'{name}^({k}) {ca[1:]} {cb[1:]}', go,
              el.ip)
  # the range computation must not inspect array values in Python
  def go(c):
    f = Native(lambda x: d.ew(lambda v: V(), x, dtype='f'))
    A, Bv = (arr0(V(rat(new_atom(n)))) for n in 'ab')
    for nm in ('minimum_value', 'maximum_value'):
      n0 = len(ctx().events)
      el.call(el.ef(nm), f, A, Bv, (Fraction(-1), Fraction(2)), el.np)
      for kind, msg, loc in ctx().events[n0:]:
        if kind in ('truth', 'concretize'):
          raise Violation(f'{nm}: {msg} (fails under tracing)', loc)
  check(report, G, 'X-traceable', 'minimum_value/maximum_value', 'opaque values', go,
        el.ip)


def require_le2(v, g, what):
  v = d.to_v(v)
  if v.bounds_below(g):
    return
  if v.is_inf():
    raise Violation(f'{what}: lower bound is {v.ex}', v.loc)
  if v.aset() is None:
    raise Unsupported(f'{what}: not followed')
  raise Violation(f'{what}: the lower bound {v!r} need not be below the attained '
                  f'value {g!r}', v.loc)


def require_ge2(v, g, what):
  v = d.to_v(v)
  if v.bounds_above(g):
    return
  if v.is_inf():
    raise Violation(f'{what}: upper bound is {v.ex}', v.loc)
  if v.aset() is None:
    raise Unsupported(f'{what}: not followed')
  raise Violation(f'{what}: the upper bound {v!r} need not be above the attained '
                  f'value {g!r}', v.loc)


class opaque_functions:
  """Within: get_function returns opaque functions of the right shape."""

  def __init__(self, el, where, rename=None):
    self.el, self.where = el, where

  def __enter__(self):
    ip = self.el.ip
    def gf(ip_, f, args, kw):
      fid = args[0] if args else kw.get('function_id')
      if fid is None or not isinstance(fid, IInst):
        return NotImplemented
      name = ip.getattr(fid, 'name')
      k = ip.getattr(fid, 'derivative_order')
      if name not in NAMES or k > MAXORD[name] + 1:
        return NotImplemented
      if name == 'abs' and k > 1:
        return NotImplemented
      return Native(opaque(name, k, self.where))
    self.old = dict(ip.summaries)
    ip.summaries[EF + '.get_function'] = gf

  def __exit__(self, *a):
    self.el.ip.summaries.clear()
    self.el.ip.summaries.update(self.old)


def run_blocks(report):
  """Building blocks of the enclosure generators on opaque functions."""
  G = 'el.blocks'
  el = EL(report)
  ip = el.ip
  def sigma(x):
    return d.ew(lambda v: V(sig_at(d.to_v(v))), x, dtype='f')
  def sig_at(v):
    if not v.is_exact():
      raise Unsupported('function of a non-exact value')
    key = ('sig', v.ex)
    c = ctx()
    if key not in c.misc_atoms:
      c.misc_atoms[key] = new_atom(f'sigma({v.ex!r})')
    return rat(c.misc_atoms[key])
  ns = Native(sigma)
  top = 4 if report.tier == 'quick' else 6
  def setup(k, n=None):
    x0 = rat(new_atom('x0'))
    cs = [rat(new_atom(f'c{i}')) for i in range((k + 1) if n is None else n)]
    return x0, cs
  def farther(x0, sg, nm='h'):
    return x0 + rat(sg) * (rat(1) + rat(new_atom(nm, 0)))
  for k in range(0, top + 1):
    for sg in (1, -1, 0):
      def go(c, k=k, sg=sg):
        x0, cs = setup(k)
        x = farther(x0, sg) if sg else x0
        r = d.to_v(scalar(el.call(el.pe('taylor_remainder_ratio'), arr0(V(x0)), k, ns,
                                  [arr0(V(v)) for v in cs], arr0(V(x)), el.np)))
        if sg or k == 0:
          want = ratio_expr(sig_at(V(x)), cs, x0, x, k)
        else:
          # the k-th coefficient is the limit; r_k = sigma(x0) - c_0 vanishes
          want = cs[k]
          if r.is_exact():
            s0 = next(iter(sig_at(V(x0)).atoms()))
            r = V(r.ex.subs({s0: cs[0]}))
        if r.is_inf():
          raise Violation(f'ratio is {r.ex}', r.loc)
        if not r.is_exact():
          raise Unsupported('ratio not followed')
        if r.ex != want:
          raise Violation(f'ratio is {r!r}, expected {want!r}', r.loc)
      check(report, G, 'F-ratio', 'taylor_remainder_ratio',
            f'degree {k}, x-x0 sign {sg}', go, ip)
    def go(c, k=k):
      x0, cs = setup(k, k + 2)
      for n in (k, k + 2):
        expect_raises(lambda: el.call(
            el.pe('taylor_remainder_ratio'), arr0(V(x0)), k, ns,
            [arr0(V(v)) for v in cs[:n]], arr0(V(x0)), el.np), None)
    check(report, G, 'F-ratio-reject', 'taylor_remainder_ratio',
          f'degree {k}, wrong number of coefficients', go, ip)
    for inc in (True, False):
      for ea, eb in ((1, 1), (1, 0), (0, 1)):
        def go(c, k=k, inc=inc, ea=ea, eb=eb):
          x0, cs = setup(k)
          a = farther(x0, -1, 'ha') if ea else x0
          b = farther(x0, 1, 'hb') if eb else x0
          r = el.call(el.pe('sharp_enclosure_monotonic_derivative'), arr0(V(x0)), k,
                      (arr0(V(a)), arr0(V(b))), ns, [arr0(V(v)) for v in cs], inc, el.np)
          lo, hi = check_shape(r, cs, k)
          s0 = {next(iter(sig_at(V(x0)).atoms())): cs[0]}
          ra = ratio_expr(sig_at(V(a)), cs, x0, a, k) if ea or k == 0 else cs[k]
          rb = ratio_expr(sig_at(V(b)), cs, x0, b, k) if eb or k == 0 else cs[k]
          want = (ra, rb) if inc else (rb, ra)
          for v, w, nm in ((lo, want[0], 'lower'), (hi, want[1], 'upper')):
            if not v.is_exact():
              raise Unsupported('not followed')
            if v.ex.subs(s0) != w.subs(s0):
              raise Violation(f'{nm} end point is {v!r}, expected {w!r}', v.loc)
        check(report, G, 'F-sharp', 'sharp_enclosure_monotonic_derivative',
              f'degree {k} increasing={inc} ends {ea}{eb}', go, ip)
    def go(c, k=k):
      x0, cs = setup(k, k + 2)
      l, h = rat(new_atom('dl')), rat(new_atom('dh'))
      r = el.call(el.pe('bounded_derivative_enclosure'), k,
                  [arr0(V(v)) for v in cs[:k]], (arr0(V(l)), arr0(V(h))))
      lo, hi = check_shape(r, cs, k)
      fk = rat(math.factorial(k))
      if not (lo.is_exact() and hi.is_exact()):
        raise Unsupported('not followed')
      if lo.ex != l / fk or hi.ex != h / fk:
        raise Violation(f'final interval is [{lo!r}, {hi!r}], expected the derivative '
                        f'range divided by {math.factorial(k)}', lo.loc)
      for n in (k + 1, k + 2):
        expect_raises(lambda: el.call(
            el.pe('bounded_derivative_enclosure'), k, [arr0(V(v)) for v in cs[:n]],
            (arr0(V(l)), arr0(V(h)))), None)
    check(report, G, 'F-bounded', 'bounded_derivative_enclosure', f'degree {k}', go, ip)
  def go(c):
    x0, cs = setup(1)
    expect_raises(lambda: el.call(
        el.pe('sharp_enclosure_monotonic_derivative'), arr0(V(x0)), -1,
        (arr0(V(x0)), arr0(V(x0))), ns, [], True, el.np), None)
  check(report, G, 'F-sharp', 'sharp_enclosure_monotonic_derivative', 'degree -1', go, ip)
  # even-symmetric Hessian: -x0 left of, inside, or right of the region
  cases = {'left': ((-5, -4), (4, 5), (-3, -2), (6, 7)),
           }
  for nm, (rx0, ra, rb) in {
      'inside': ((1, 2), (-6, -4), (4, 6)),
      'inside (negative x0)': ((-2, -1), (-6, -4), (4, 6)),
      'left of region': ((5, 6), (2, 3), (8, 9)),
      'right of region': ((-6, -5), (-9, -8), (-3, -2)),
      'x0 = 0': ((0, 0), (-6, -4), (4, 6)),
  }.items():
    def go(c, rx0=rx0, ra=ra, rb=rb, nm=nm):
      x0, a, b = mk_pt(rx0, 'x0'), mk_pt(ra, 'a'), mk_pt(rb, 'b')
      cs = [rat(new_atom(f'c{i}')) for i in range(3)]
      r = el.call(el.pe('sharp_quadratic_enclosure_even_symmetric_hessian'), arr0(V(x0)),
                  (arr0(V(a)), arr0(V(b))), ns, [arr0(V(v)) for v in cs], el.np)
      lo, hi = check_shape(r, cs, 2)
      rr = lambda x: ratio_expr(sig_at(V(x)), cs, x0, x, 2)
      p = {'left of region': a, 'right of region': b}.get(nm, -x0)
      top_ = cs[2] if nm == 'x0 = 0' else rr(p)
      s0 = {next(iter(sig_at(V(x0)).atoms())): cs[0]}
      if not hi.is_exact():
        raise Unsupported('not followed')
      if hi.ex.subs(s0) != top_.subs(s0):
        raise Violation(f'upper end point {hi!r} is not the ratio at the point of the '
                        'region closest to -x0', hi.loc)
      for g in (rr(a), rr(b)):
        require_le2(lo, g, 'lower end point')
      if lo.aset() is None or any(t not in (rr(a), rr(b)) for t in lo.aset()):
        soft('sharp', 'lower end point is not the smaller end-point ratio', lo.loc)
    check(report, G, 'F-even', 'sharp_quadratic_enclosure_even_symmetric_hessian', nm,
          go, ip)


def check_shape(r, cs, k):
  if not isinstance(r, tuple) or len(r) != k + 1:
    raise Violation(f'{len(r) if hasattr(r, "__len__") else "no"} coefficients for '
                    f'degree {k}')
  for i in range(k):
    v = r[i]
    if isinstance(v, tuple):
      raise Violation(f'coefficient {i} is an interval')
    v = d.to_v(scalar(v))
    if v.is_inf():
      raise Violation(f'coefficient {i} is {v.ex}, expected {cs[i]!r}', v.loc)
    if not v.is_exact():
      raise Unsupported('coefficient not followed')
    if v.ex != cs[i]:
      raise Violation(f'coefficient {i} is {v!r}, expected {cs[i]!r}', v.loc)
  if not isinstance(r[k], tuple) or len(r[k]) != 2:
    raise Violation(f'coefficient {k} is not an interval')
  return d.to_v(scalar(r[k][0])), d.to_v(scalar(r[k][1]))


def unimodal_even(name, k):
  """f^(k) even and decreasing on [0, inf)."""
  mi, ma = orc.extrema(name, k)
  return orc.even(name, k) and not mi and len(ma) == 1 and abs(ma[0]) < TOL


def run_generator(report):
  """get_elementwise_taylor_enclosure for every function, degree, region cell."""
  G = 'el.generator'
  el = EL(report)
  ip = el.ip
  tops = {'abs': 1, 'exp': 8, 'log': 8, 'sigmoid': 4, 'softplus': 5, 'swish': 4}
  wrap = {n: n + '_enclosure' for n in NAMES}
  for name in NAMES:
    for k in range(0, tops[name] + 1):
      ext, cells = region_cells(name, k, el)
      jobs = list(triples(cells, report.tier))
      if name == 'abs' and k == 1:
        # the derivative jumps at 0
        jobs = [(0, 0, (-3., -2.), (-1.5, -1.), (-.5, -.1)),
                (0, 0, (.1, .5), (1., 1.5), (2., 3.)),
                (0, 0, (-3., -2.), (-1., -.5), (1., 2.)),
                (0, 0, (-3., -2.), (.5, 1.), (2., 3.))]
      jobs = [j + (None,) for j in jobs]
      if name != 'abs' or k == 0:
        jobs += list(edge_triples(cells, jobs, k == 2 and unimodal_even(name, k)))
      for i, j, ra, rx, rb, edge in jobs:
        if name == 'log' and ra[0] <= 0:
          ra = (.05, ra[1])
        def go(c, name=name, k=k, ra=ra, rx=rx, rb=rb, ext=ext, edge=edge):
          a, x0, b = mk_pt(ra, 'a'), mk_pt(rx, 'x0'), mk_pt(rb, 'b')
          if edge in ('left', 'both'):
            x0, rx = a, ra
          elif edge == 'right':
            x0, rx = b, rb
          if edge == 'both':
            b, rb = a, ra
          where = {p: ('open' if r_[0] != r_[1] else 'pt',) + tuple(r_)
                   for p, r_ in ((a, ra), (x0, rx), (b, rb))}
          fn = el.pe('get_elementwise_taylor_enclosure')
          with opaque_functions(el, where):
            r = el.call(fn, el.fid(name), arr0(V(x0)), (arr0(V(a)), arr0(V(b))), k, el.np)
          fk = [opaque(name, q, where) for q in range(k + 1)]
          cs = [op_val(fk[q], x0) / rat(math.factorial(q)) for q in range(k + 1)]
          lo, hi = check_shape(r, cs, k)
          s = op_val(fk[0], a), op_val(fk[0], b)
          # the ratio tends to the last coefficient at x0 itself
          rA, rB = (cs[k] if p == x0 and k else ratio_expr(q, cs, x0, p, k)
                    for p, q in ((a, s[0]), (b, s[1])))
          kf = rat(math.factorial(k))
          # turning points of f^(k) inside the region
          inner = [p for p in ext if ra[1] < p < rb[0]]
          mi, ma = snapped_extrema(el, name, k)
          tabpt = lambda p: rat(frac(p))
          dv = lambda r_: op_val(fk[k], r_) / kf
          ends = [dv(a), dv(b)]
          dlo = set(ends + [dv(tabpt(p)) for p in inner if p in mi])
          dhi = set(ends + [dv(tabpt(p)) for p in inner if p in ma])
          low, upp = [dlo], [dhi]
          sharp = None
          if not inner:
            mono = orc.monotone(name, k) or seg_direction(name, k, ra, rb)
            if mono > 0:
              low.append({rA}); upp.append({rB}); sharp = (rA, rB)
            else:
              low.append({rB}); upp.append({rA}); sharp = (rB, rA)
          elif k == 2 and unimodal_even(name, k):
            low.append({rA, rB})
            m = -x0
            # -x0 relative to the region, decided by the ranges
            if m == x0:
              upp.append({cs[k]})
            elif m == a or m == b:
              upp.append({rA if m == a else rB})
            elif -rx[1] > ra[1] and -rx[0] < rb[0]:
              where[m] = ('open', -rx[1], -rx[0])
              upp.append({ratio_expr(op_val(fk[0], m), cs, x0, m, k)})
            elif -rx[0] < ra[0]:
              upp.append({rA})
            elif -rx[1] > rb[1]:
              upp.append({rB})
            else:
              upp = upp + [None]
          if k == 0:
            # degree 0: the range of the function itself
            low, upp = [dlo], [dhi]
            sharp = None
          if None in upp:
            upp = [u for u in upp if u is not None]
            try:
              Cert(low, upp).judge(lo, hi, f'{name} degree {k}')
            except Violation as e:
              raise Unsupported('position of -x0 not decided')
            return
          Cert(low, upp).judge(lo, hi, f'{name} degree {k}')
          if sharp is not None and k:
            # a valid end point that is a ratio attained in the region is sharp
            for v, w in ((lo, sharp[0]), (hi, sharp[1])):
              if known_only(v) and not all(t in sharp for t in v.aset()):
                soft('sharp', f'{name} degree {k}: end point {v!r} is valid but not '
                     'the sharp one although the derivative is monotone over the region',
                     v.loc)
        check(report, G, 'F-generator', f'get_elementwise_taylor_enclosure({name}, {k})',
              f'a {_f(ra)} x0 {_f(rx)} b {_f(rb)}' + (f' x0 {edge}' if edge else ''),
              go, ip)
  # the named wrappers hand over the right function
  for name in NAMES:
    for k in (0, 1):
      def go(c, name=name, k=k):
        ra, rx, rb = (.5, 1.), (1.5, 2.), (2.5, 3.)
        a, x0, b = mk_pt(ra, 'a'), mk_pt(rx, 'x0'), mk_pt(rb, 'b')
        where = {a: ('open',) + ra, x0: ('open',) + rx, b: ('open',) + rb}
        with opaque_functions(el, where):
          r = el.call(el.pe(wrap[name]), arr0(V(x0)), (arr0(V(a)), arr0(V(b))), k, el.np)
        fk = [opaque(name, q, where) for q in range(k + 1)]
        cs = [op_val(fk[q], x0) / rat(math.factorial(q)) for q in range(k + 1)]
        lo, hi = check_shape(r, cs, k)
      check(report, G, 'F-generator', f'{name}_enclosure', f'degree {k}', go, ip)
  # arrays: every element is judged by its own region
  for name in NAMES:
    for k in range(0, tops[name] + 1):
      for shape in ((4,), (2, 2), (2, 1, 2), (1, 1, 1, 3), (0,), (2, 0)):
        if len(shape) > 1 and k > 3:
          continue
        def go(c, name=name, k=k, shape=shape):
          ext, cells = region_cells(name, k, el)
          js = list(triples(cells, 'quick'))
          n = int(np.prod(shape))
          js = js[::max(1, len(js) // n)][:n] if n else []
          js = (js * n)[:n]
          cols = [[], [], []]
          where = {}
          for t, (_, _, ra, rx, rb) in enumerate(js):
            if name == 'log' and ra[0] <= 0:
              ra = (.05, ra[1])
            for col, rg, nm in zip(cols, (ra, rx, rb), ('a', 'x', 'b')):
              p = mk_pt(rg, f'{nm}{t}')
              where[p] = ('open' if rg[0] != rg[1] else 'pt',) + tuple(rg)
              col.append(p)
          elementwise_agree(
              f'{name} degree {k}', shape, cols, k,
              lambda x, a, b: el.call(el.pe('get_elementwise_taylor_enclosure'),
                                      el.fid(name), x, (a, b), k, el.np),
              lambda: opaque_functions(el, where))
        check(report, G, 'F-generator', f'get_elementwise_taylor_enclosure({name}, {k})',
              f'array {shape}', go, ip)
  for name, k in (('abs', 2), ('softplus', 7), ('sigmoid', 6), ('swish', 7)):
    def go(c, name=name, k=k):
      x0 = rat(new_atom('x0', 1, 2))
      expect_raises(lambda: el.call(
          el.pe('get_elementwise_taylor_enclosure'), el.fid(name), arr0(V(x0)),
          (arr0(V(x0 - rat(1))), arr0(V(x0 + rat(1)))), k, el.np),
          ('NotImplementedError', 'KeyError', 'ValueError'))
    check(report, G, 'F-unsupported', f'get_elementwise_taylor_enclosure({name})',
          f'degree {k}', go, ip)


def _f(r):
  return f'[{r[0]:.3g},{r[1]:.3g}]'


def seg_direction(name, k, ra, rb):
  x, y = (ra[0] + ra[1]) / 2, (rb[0] + rb[1]) / 2
  return 1 if orc.value(name, k, y) > orc.value(name, k, x) else -1


# -- powers ----------------------------------------------------------------------


def falling(p, k):
  c = Fraction(1)
  for i in range(k):
    c *= p - i
  return c


def dsign(p, k, side):
  """Sign of the k-th derivative of x^p for x on the given side."""
  c = falling(p, k)
  s = (c > 0) - (c < 0)
  if side < 0:
    s *= 1 if (p - k) % 2 == 0 else -1
  return s


POW_REGIONS = {
    'pos': ((Fraction(1, 4), 1), (2, 3), (4, 9)),
    'pos, x0=a': ('x0', (2, 3), (4, 9)),
    'pos, x0=b': ((Fraction(1, 4), 1), (2, 3), 'x0'),
    'zpos': ((0, 0), (Fraction(1, 2), 1), (2, 9)),
    'mixed, x0>0': ((-9, -2), (Fraction(1, 2), 1), (2, 9)),
    'mixed, x0<0': ((-9, -2), (-1, Fraction(-1, 2)), (2, 9)),
    'mixed, x0=0': ((-9, -2), (0, 0), (2, 9)),
    'zpos, x0=0': ((0, 0), (0, 0), (2, 9)),
    'zneg, x0=0': ((-9, -2), (0, 0), (0, 0)),
    'zneg': ((-9, -2), (-1, Fraction(-1, 2)), (0, 0)),
    'neg': ((-9, -5), (-3, -2), (-1, Fraction(-1, 4))),
    'pos, point': ('x0', (2, 3), 'x0'),
    'neg, x0=a': ('x0', (-3, -2), (-1, Fraction(-1, 4))),
    'neg, x0=b': ((-9, -5), (-3, -2), 'x0'),
    'neg, point': ('x0', (-3, -2), 'x0'),
    'mixed, x0<0=a': ('x0', (-3, -2), (1, 9)),
    'mixed, x0>0=b': ((-9, -2), (Fraction(1, 2), 3), 'x0'),
}


def run_pow(report):
  G = 'el.pow'
  el = EL(report)
  ip = el.ip
  H = Fraction(1, 2)
  exps = [-3, -2, -1, 0, 1, 2, 3, 4, 5, H, -H, 3 * H, 5 * H, Fraction(-7, 4)]
  exps += [6, 7, -4, Fraction(1, 3), Fraction(7, 2), Fraction(-5, 2)]
  near = [n + e for n in (-2, -1, 0, 1, 2, 3)
          for e in (Fraction(1, 10**4), Fraction(-1, 10**4))]
  near += [Fraction(2) + Fraction(1, 10**9), Fraction(1, 1000) - 1]
  exps += near
  top = 5 if report.tier == 'quick' else 8
  more = [8, 9, 10, 11, 12, 13, -5, -6, -7, -8, Fraction(9, 2), Fraction(-1, 3),
          Fraction(11, 3), Fraction(1, 100), Fraction(99, 100), Fraction(101, 100)]
  far = [15, 16, 17, 20, 21, 32, 33, -9, -16, Fraction(21, 2), Fraction(-31, 3)]
  if report.tier != 'quick':
    exps, more = exps + more, []
    far += [50, 51, 64, 99, 100, -33, Fraction(100, 3)]
  # high degrees
  deep = {9: 10, -1: 9, H: 9, 3: 8, Fraction(7, 2): 9}
  for p in exps + more + far:
    integral = Fraction(p).denominator == 1
    for k in range(0, max(3 if p in more else 2 if p in far else top,
                          deep.get(p, 0)) + 1):
      for nm, (ra, rx, rb) in POW_REGIONS.items():
        if k > 5 and p in deep:
          # separated points: the guard against tiny denominators is decided
          if nm not in ('pos', 'neg'):
            continue
          ra, rx, rb = ((1, 1), (4, 4), (9, 9)) if nm == 'pos' else (
              (-9, -9), (-4, -4), (-1, -1))
          nm += ', points'
        if not integral and nm.startswith(('neg', 'zneg', 'mixed, x0<0', 'mixed, x0=0')):
          continue
        if rx == (0, 0) and (p < 0 or not integral):
          continue
        def go(c, p=p, k=k, nm=nm, ra=ra, rx=rx, rb=rb, integral=integral):
          x0 = mk_pt(rx, 'x0')
          a = x0 if ra == 'x0' else mk_pt(ra, 'a')
          b = x0 if rb == 'x0' else mk_pt(rb, 'b')
          r = el.call(el.pe('pow_enclosure'), p, arr0(V(x0)), (arr0(V(a)), arr0(V(b))), k,
                      el.np)
          def xp(x, e):
            return d.v_pow(V(x), e)
          cs = []
          for i in range(k + 1):
            f = falling(p, i)
            cs.append(rat(0) if f == 0 else rat(f / math.factorial(i)) * xp(x0, p - i).ex)
          lo, hi = check_shape(r, cs, k)
          sg = 1 if nm.startswith(('pos', 'zpos')) else (-1 if nm.startswith(
              ('neg', 'zneg')) else 0)
          def ratio(x, is_x0):
            if is_x0 and k > 0:
              return cs[k]
            v = xp(x, p)
            if v.is_inf():
              return None
            return ratio_expr(v.ex, cs, x0, x, k)
          ra_, rb_ = ratio(a, a == x0), ratio(b, b == x0)
          zero = '0' in str(nm) and False
          touches0 = ra == (0, 0) or rb == (0, 0) or sg == 0
          if p < 0 and touches0:
            # infinities the remainder ratio tends to at 0
            infs = set()
            for side in ((1, -1) if sg == 0 else (sg,)):
              s = 1 if side > 0 or p % 2 == 0 else -1
              q = rat_sign(-x0, ctx().facts)
              qs = next(iter(q)) ** k if k else 1
              infs.add(s * qs)
            if -1 in infs and lo.ex != '-inf':
              raise Violation(f'x^{p}, degree {k}: the lower end point {lo!r} is finite or '
                              'wrong although the ratio is unbounded below near 0', lo.loc)
            if 1 in infs and hi.ex != 'inf':
              raise Violation(f'x^{p}, degree {k}: the upper end point {hi!r} is finite or '
                              'wrong although the ratio is unbounded above near 0', hi.loc)
            other = [t for t in (ra_, rb_) if t is not None]
            for v, badinf, s in ((lo, 'inf', -1), (hi, '-inf', 1)):
              if v.is_inf():
                if v.ex in (badinf, 'nan'):
                  raise Violation(f'x^{p}, degree {k}: end point is {v.ex}', v.loc)
                continue
              if sg == 0:
                raise Unsupported('finite bound next to a pole')
              if v.ex not in other:
                if known_only(v):
                  raise Violation(f'x^{p}, degree {k}: end point {v!r} is not the ratio at '
                                  'the far end', v.loc)
                raise Unsupported('not followed')
            return
          if not integral and sg == 0:
            if lo.ex != '-inf' or hi.ex != 'inf':
              raise Violation(f'x^{p} over a region with negative points must be unbounded,'
                              f' got [{lo!r}, {hi!r}]', lo.loc)
            return
          kf = rat(math.factorial(k))
          def dk(x):
            f = falling(p, k)
            if f == 0:
              return rat(0)
            v = xp(x, p - k)
            return None if v.is_inf() else rat(f) * v.ex / kf
          dvals = [dk(x) for x in (a, b)] + ([rat(0) if falling(p, k) == 0 or p != k
                                              else rat(falling(p, k)) / kf]
                                             if sg == 0 else [])
          low, upp = [], []
          if None not in dvals:
            low.append(set(dvals)); upp.append(set(dvals))
          sides = {dsign(p, k + 1, s) for s in ((1, -1) if sg == 0 else (sg,))}
          sharp = None
          if not (1 in sides and -1 in sides):
            if -1 in sides:
              low.append({rb_}); upp.append({ra_}); sharp = (rb_, ra_)
            else:
              low.append({ra_}); upp.append({rb_}); sharp = (ra_, rb_)
          else:
            # |x|^(even)-shaped derivative: convex ratio, least derivative 0
            upp.append({ra_, rb_})
          Cert(low, upp).judge(lo, hi, f'x^{p} degree {k}')
          if sharp is not None and sg:
            for v, w in zip((lo, hi), sharp):
              if w is not None and (not v.is_exact() or v.ex != w):
                if v.is_inf() or known_only(v):
                  soft('sharp', f'x^{p} degree {k}: end point {v!r} is not the sharp one',
                       v.loc)
        check(report, G, 'F-pow', 'pow_enclosure', f'x^{p} degree {k} {nm}', go, ip)
  # arrays
  for p in (0, 1, 2, 3, 4, -1, -2, H, Fraction(7, 2), -H):
    integral = Fraction(p).denominator == 1
    for k in (0, 1, 2, 3):
      for shape in ((3,), (2, 2), (2, 1, 2), (0,)):
        def go(c, p=p, k=k, shape=shape, integral=integral):
          nms = ('pos', 'mixed, x0>0', 'neg', 'mixed, x0<0') if integral else ('pos',) * 4
          n = int(np.prod(shape))
          rs = [POW_REGIONS[nms[t % 4]] for t in range(n)]
          cols = [[mk_pt(rs[t][q], f'{"axb"[q]}{t}') for t in range(n)] for q in range(3)]
          elementwise_agree(
              f'x^{p} degree {k}', shape, cols, k,
              lambda x, a, b: el.call(el.pe('pow_enclosure'), p, x, (a, b), k, el.np))
        check(report, G, 'F-pow', 'pow_enclosure', f'x^{p} degree {k} array {shape}', go, ip)


def elementwise_agree(what, shape, cols, k, call, within=contextlib.nullcontext):
  """The result for an array is, element by element, the result for the element."""
  n = len(cols[0])
  arr = lambda col: AArray(np.array([V(p) for p in col] + [None], object)[:-1].reshape(shape))
  with within():
    r = call(arr(cols[1]), arr(cols[0]), arr(cols[2]))
    ends = []
    for q in range(k + 1):
      for u in (r[q] if q == k else (r[q],)):
        u = d.as_arr(u)
        if u.shape != shape and not (q and u.shape == ()):
          raise Violation(f'{what}: coefficient {q} has shape {u.shape}, expected {shape}')
        ends.append((q, np.broadcast_to(u.data, shape).reshape(-1)))
    for t in range(n):
      one = call(*(arr0(V(cols[q][t])) for q in (1, 0, 2)))
      ws = [w for q in range(k + 1) for w in (one[q] if q == k else (one[q],))]
      for (q, u), w in zip(ends, ws):
        u, w = d.to_v(u[t]), d.to_v(scalar(w))
        if u.is_inf() and w.is_inf() and u.ex == w.ex:
          continue
        if u.aset() is None or w.aset() is None:
          raise Unsupported('not followed')
        if u.aset() != w.aset():
          raise Violation(f'{what}: element {t} of an array of shape {shape} gives {u!r} '
                          f'in coefficient {q}, alone it gives {w!r}', u.loc)


GROUPS = {'el.derivs': run_derivs, 'el.overflow': run_overflow, 'el.table': run_table,
          'el.monotone': run_monotone, 'el.range': run_range, 'el.blocks': run_blocks,
          'el.generator': run_generator, 'el.pow': run_pow}
