"""Obligations about autobound.interval_arithmetic (sign-cell abstraction).

Every end point is abstracted by its sign class (five classes per interval,
three per exact value); inside a class the end points stay symbolic.  A
multi-affine expression over a box attains its extrema at vertices, and a
monomial additionally at 0 in coordinates whose interval straddles 0, so an
interval result is valid iff it bounds the finitely many expressions listed by
`attained`, and it is tight iff every value it can take is among them.
"""

import itertools
from fractions import Fraction

import numpy as np

from .. import domain as d
from ..core import (KINDS, Violation, arr0, check, core_interp, expect_raises,
                    iv_cell, pt_cell, rat, require_attained, require_ge, soft,
                    require_le)
from ..domain import AArray, V

MOD = 'autobound.interval_arithmetic'
PT = ('pos', 'zero', 'neg')


def arr_of(rats):
  if not isinstance(rats, np.ndarray):
    return arr0(V(rats))
  out = np.empty(rats.shape, object)
  for i in np.ndindex(rats.shape):
    out[i] = V(rats[i])
  return AArray(out)


class Operand:
  """An abstract operand: per element, the tuple of vertex expressions."""

  def __init__(self, kinds, nm, interval):
    kinds = np.asarray(kinds, dtype=object)
    self.kinds, self.interval, self.shape = kinds, interval, kinds.shape
    self.verts = np.empty(kinds.shape, object)
    lo = np.empty(kinds.shape, object)
    hi = np.empty(kinds.shape, object)
    for i in np.ndindex(kinds.shape):
      n = nm + ''.join(map(str, i))
      if interval:
        a, b = iv_cell(kinds[i], n)
        lo[i], hi[i] = V(a), V(b)
        self.verts[i] = (a, b)
      else:
        a = pt_cell(kinds[i], n)
        lo[i] = V(a)
        self.verts[i] = (a,)
    self.value = (AArray(lo), AArray(hi)) if interval else AArray(lo)

  def __repr__(self):
    k = ','.join(map(str, self.kinds.reshape(-1)))
    return ('interval[' if self.interval else 'exact[') + k + ']'


def degenerate(kinds, nm):
  """An interval operand both of whose end points are one object."""
  o = Operand(kinds, nm, False)
  o.interval, o.value = True, (o.value, o.value)
  return o


def need_pair(res, what):
  if not (isinstance(res, tuple) and len(res) == 2):
    raise Violation(f'{what}: result is not an interval (pair of end points)')
  return d.as_arr(res[0]), d.as_arr(res[1])


def judge(res, attained, what, sharp=True, both_exact=False):
  """attained: object ndarray (or scalar list) of lists of expressions."""
  if both_exact:
    if isinstance(res, tuple):
      soft('form', f'{what}: exact operands give an interval')
      res = res[0]
    a = d.as_arr(res)
    if a.shape != attained.shape:
      raise Violation(f'{what}: shape {a.shape}, expected {attained.shape}')
    for i in np.ndindex(a.shape):
      v = d.to_v(a.data[i])
      if not v.is_exact():
        raise d.Unsupported(f'{what}: not exact')
      if v.ex != attained[i][0]:
        raise Violation(f'{what}: element {i} is {v!r}, expected '
                        f'{attained[i][0]!r}', v.loc)
    return
  lo, hi = need_pair(res, what)
  if lo.shape != attained.shape or hi.shape != attained.shape:
    raise Violation(f'{what}: shapes {lo.shape},{hi.shape}, expected '
                    f'{attained.shape}')
  for i in np.ndindex(attained.shape):
    for g in attained[i]:
      require_le(lo.data[i], g, f'{what}{list(i) or ""}')
      require_ge(hi.data[i], g, f'{what}{list(i) or ""}')
    if sharp:
      require_attained(lo.data[i], attained[i], f'{what}: lower end point')
      require_attained(hi.data[i], attained[i], f'{what}: upper end point')


def elementwise(f, a, b):
  """attained sets of a multi-affine elementwise f(x, y)."""
  va, vb = np.broadcast_arrays(a.verts, b.verts)
  out = np.empty(va.shape, object)
  for i in np.ndindex(va.shape):
    out[i] = [f(x, y) for x in va[i] for y in vb[i]]
  return out


def monomial_attained(op, idx):
  """Attained values of prod_{i in idx} x_i, x in the box of op."""
  uniq = sorted(set(idx))
  choices = []
  for u in uniq:
    c = list(op.verts[u])
    if op.interval and op.kinds[u] == 'mixed':
      c.append(rat(0))
    choices.append(c)
  out = []
  for pick in itertools.product(*choices):
    env = dict(zip(uniq, pick))
    t = rat(1)
    for i in idx:
      t = t * env[i]
    out.append(t)
  return out


def _ia(ip):
  return ip.call(ip.mod_attr(MOD, 'IntervalArithmetic'), [ip.models['backend']], {})


def _m(ip, ia, name, *args, **kw):
  return ip.call(ip.getattr(ia, name), list(args), kw)


def combos(report, a_kinds, b_kinds):
  for ai, bi in ((True, True), (True, False), (False, True), (False, False)):
    for ka in (a_kinds if ai else PT):
      for kb in (b_kinds if bi else PT):
        yield ai, bi, ka, kb


SHAPES = (
    ((3, 2), (2,)), ((2, 2, 2), (2, 2)), ((2, 1, 3), (2, 3)), ((2, 1, 1, 2), (2, 1)),
    ((1,) * 6, ()), ((2,) + (1,) * 7, (2,)), ((1,) * 12, (1,) * 12), ((17,), (17,)),
    ((9, 5), (9, 1)), ((0,), (0,)), ((2, 0), (1,)), ((0, 3), (3,)))


def cycled(shape, nm, interval, shift=0):
  """An operand of the given shape whose elements run through all kinds."""
  kinds = KINDS if interval else PT
  k = np.empty(shape, object)
  for n, i in enumerate(np.ndindex(shape)):
    k[i] = kinds[(n * (1 + shift) + shift) % len(kinds)]
  return Operand(k, nm, interval)


def run_basic(report):
  G = 'iv.basic'
  ip = core_interp()
  report.interps.append(ip)
  ia = _ia(ip)
  ops = {'add': lambda x, y: x + y, 'subtract': lambda x, y: x - y,
         'multiply': lambda x, y: x * y}
  for name, f in ops.items():
    kinds = KINDS if name == 'multiply' else ('mixed', 'pos')
    for ai, bi, ka, kb in combos(report, kinds, kinds):
      def go(c, name=name, f=f, ai=ai, bi=bi, ka=ka, kb=kb):
        a, b = Operand(ka, 'a', ai), Operand(kb, 'b', bi)
        judge(_m(ip, ia, name, a.value, b.value), elementwise(f, a, b), name,
              both_exact=not (ai or bi))
      check(report, G, 'I-' + name, f'IntervalArithmetic.{name}',
            f'{"iv" if ai else "pt"}:{ka} x {"iv" if bi else "pt"}:{kb}', go, ip)
    # broadcasting
    for (sa, sb) in (((2,), ()), ((), (2,)), ((2, 1), (2,)), ((1, 2), (2, 2))):
      for ai, bi in ((True, True), (True, False), (False, True), (False, False)):
        def go(c, name=name, f=f, sa=sa, sb=sb, ai=ai, bi=bi):
          a = Operand(np.full(sa, 'mixed' if ai else 'neg', object), 'a', ai)
          b = Operand(np.full(sb, 'mixed' if bi else 'pos', object), 'b', bi)
          judge(_m(ip, ia, name, a.value, b.value), elementwise(f, a, b), name,
                both_exact=not (ai or bi))
        check(report, G, 'I-' + name, f'IntervalArithmetic.{name}',
              f'broadcast {sa}x{sb} {ai}{bi}', go, ip)
    for ai, bi in ((True, True), (True, False), (False, True), (False, False)):
      ka, kb = (KINDS if ai else PT), (KINDS if bi else PT)
      na, nb = len(ka), len(kb)
      rows, cols = np.array(ka, object), np.array(kb, object)
      cases = [(rows.reshape(na, 1), cols), (rows, cols.reshape(nb, 1)),
               (np.repeat(rows, nb), np.tile(cols, na))]
      cases += [(rows, np.array(k, object)) for k in kb]
      cases += [(np.array(k, object), cols) for k in ka]
      cases += [(np.array([k], object), np.array(m_, object)) for k in ka for m_ in kb]
      cases += [(np.array(k, object), np.array([m_], object)) for k in ka for m_ in kb]
      cases += [(np.array([k], object), np.array([m_], object)) for k in ka for m_ in kb]
      cases += [(np.array([[k, ka[0]]], object), np.array([m_, kb[-1]], object))
                for k in ka for m_ in kb]
      for x, y in cases:
        def go(c, name=name, f=f, ai=ai, bi=bi, x=x, y=y):
          a, b = Operand(x, 'a', ai), Operand(y, 'b', bi)
          judge(_m(ip, ia, name, a.value, b.value), elementwise(f, a, b), name,
                both_exact=not (ai or bi))
        check(report, G, 'I-' + name, f'IntervalArithmetic.{name}',
              f'{ai}{bi} {x.tolist()} x {y.tolist()}', go, ip)
    # one object as both operands (two independent members)
    for interval in (True, False):
      for k in (KINDS if interval else PT):
        def go(c, name=name, f=f, interval=interval, k=k):
          a = Operand(k, 'a', interval)
          judge(_m(ip, ia, name, a.value, a.value), elementwise(f, a, a), name,
                both_exact=not interval)
        check(report, G, 'I-' + name, f'IntervalArithmetic.{name}',
              f'the same operand twice {interval} {k}', go, ip)
    # intervals both of whose end points are one object
    for k, kb in itertools.product(PT, KINDS):
      for sh in ((), (2,)):
        for other in (True, False, None):
          if other is not True and kb not in PT:
            continue
          for first in (True, False):
            def go(c, name=name, f=f, k=k, kb=kb, sh=sh, other=other, first=first):
              a = degenerate(np.full(sh, k, object), 'a')
              kk = np.full(sh, kb, object)
              b = degenerate(kk, 'b') if other is None else Operand(kk, 'b', other)
              if not first:
                a, b = b, a
              judge(_m(ip, ia, name, a.value, b.value), elementwise(f, a, b), name)
            check(report, G, 'I-' + name, f'IntervalArithmetic.{name}',
                  f'degenerate {k} {kb} {sh} {other} {first}', go, ip)
    # arrays with many axes and many elements
    for ai, bi in ((True, True), (True, False), (False, True), (False, False)):
      for sa, sb in SHAPES:
        def go(c, name=name, f=f, sa=sa, sb=sb, ai=ai, bi=bi):
          a, b = cycled(sa, 'a', ai), cycled(sb, 'b', bi, 2)
          judge(_m(ip, ia, name, a.value, b.value), elementwise(f, a, b), name,
                both_exact=not (ai or bi))
        check(report, G, 'I-' + name, f'IntervalArithmetic.{name}',
              f'{ai}{bi} shapes {sa} x {sb}', go, ip)
    # Python numbers as operands
    for av, bv in (((-2, 3), 4), ((-2, 3), -4), (-2, (1, 5)), ((-2, 3), (-1, 7)),
                   (3, -4), ((Fraction(-1, 2), Fraction(3, 2)), Fraction(-5, 4))):
      def go(c, name=name, f=f, av=av, bv=bv):
        va = av if isinstance(av, tuple) else (av,)
        vb = bv if isinstance(bv, tuple) else (bv,)
        att = np.empty((), object)
        att[()] = [f(rat(x), rat(y)) for x in va for y in vb]
        judge(_m(ip, ia, name, av, bv), att, name,
              both_exact=not (isinstance(av, tuple) or isinstance(bv, tuple)))
      check(report, G, 'I-' + name, f'IntervalArithmetic.{name}',
            f'python numbers {av} {bv}', go, ip)
  for interval in (True, False):
    for shape, k in (*[(s, k) for s in ((), (2,)) for k in (KINDS if interval else PT)],
                     *[(s, None) for s, _ in SHAPES]):
        def go(c, interval=interval, shape=shape, k=k):
          a = (cycled(shape, 'a', interval) if k is None else
               Operand(np.full(shape, k, object), 'a', interval))
          att = np.empty(shape, object)
          for i in np.ndindex(shape):
            att[i] = [-x for x in a.verts[i]]
          judge(_m(ip, ia, 'negative', a.value), att, 'negative',
                both_exact=not interval)
        check(report, G, 'I-negative', 'IntervalArithmetic.negative',
              f'{interval} {shape} {k}', go, ip)
  for shape in ((), (2,), (2, 3), *[s for s, _ in SHAPES]):
    for interval in (True, False):
      def go(c, shape=shape, interval=interval):
        a = Operand(np.full(shape, 'pos', object), 'a', interval)
        if _m(ip, ia, 'ndim', a.value) != len(shape):
          raise Violation('wrong number of dimensions')
        if tuple(_m(ip, ia, 'shape', a.value)) != shape:
          raise Violation('wrong shape')
        for nm in ('as_interval_or_ndarray',) + (('as_interval',) if interval else ()):
          r = _m(ip, ia, nm, a.value)
          if interval:
            lo, hi = need_pair(r, nm)
            ok = d.arr_equal(lo, a.value[0]) and d.arr_equal(hi, a.value[1])
          else:
            ok = not isinstance(r, tuple) and d.arr_equal(r, a.value)
          if not ok:
            raise Violation(f'{nm} changes its argument')
      check(report, G, 'I-shape', 'IntervalArithmetic.shape', f'{shape} {interval}',
            go, ip)


def run_power(report):
  G = 'iv.power'
  ip = core_interp()
  report.interps.append(ip)
  ia = _ia(ip)
  big = (31, 32, 33, 63, 64)
  exps = (*range(0, 21), *big) if report.tier == 'quick' else (*range(0, 41), *big, 127, 128)
  for n in exps:
    for interval in (True, False):
      for k in (KINDS if interval else PT):
        def go(c, n=n, interval=interval, k=k):
          a = Operand(k, 'a', interval)
          att = np.empty((), object)
          att[()] = monomial_attained(a, [()] * n)
          r = _m(ip, ia, 'power', a.value, n)
          judge(_deg0(r, att) if interval else r, att, f'power {n}',
                both_exact=not interval)
        check(report, G, 'I-power', 'IntervalArithmetic.power', f'{n} {interval} {k}',
              go, ip)
    for k in PT:
      def go(c, n=n, k=k):
        a = degenerate(np.array([k], object), 'a')
        att = np.empty((1,), object)
        att[0] = monomial_attained(a, [(0,)] * n)
        judge(_deg0(_m(ip, ia, 'power', a.value, n), att), att, f'power {n}')
      check(report, G, 'I-power', 'IntervalArithmetic.power', f'{n} degenerate {k}', go, ip)
    def go(c, n=n):
      a = Operand(np.array(['mixed', 'neg'], object), 'a', True)
      att = np.empty((2,), object)
      for i in range(2):
        att[i] = monomial_attained(a, [(i,)] * n)
      judge(_deg0(_m(ip, ia, 'power', a.value, n), att), att, f'power {n}')
    check(report, G, 'I-power', 'IntervalArithmetic.power', f'{n} vector', go, ip)
    for interval in (True, False):
      for shape, _ in (SHAPES if n <= 3 else ()):
        def go(c, n=n, interval=interval, shape=shape):
          a = cycled(shape, 'a', interval)
          att = np.empty(shape, object)
          for i in np.ndindex(shape):
            att[i] = monomial_attained(a, [i] * n)
          r = _m(ip, ia, 'power', a.value, n)
          judge(_deg0(r, att) if interval else r, att, f'power {n}',
                both_exact=not interval)
        check(report, G, 'I-power', 'IntervalArithmetic.power',
              f'{n} {interval} shape {shape}', go, ip)
  for n in (Fraction(1, 2), Fraction(3, 2), Fraction(1, 4), Fraction(5, 2), Fraction(7, 2),
            Fraction(13, 4), Fraction(21, 2), Fraction(129, 2)):
    for k in ('pos', 'zpos'):
      for shape in ((), (2,), (2, 1, 1)):
        def go(c, n=n, k=k, shape=shape):
          a = Operand(np.full(shape, k, object), 'a', True)
          att = np.empty(shape, object)
          for i in np.ndindex(shape):
            att[i] = [d.v_pow(V(x), n).ex for x in a.verts[i]]
          judge(_m(ip, ia, 'power', a.value, n), att, f'power {n}')
        check(report, G, 'I-power', 'IntervalArithmetic.power', f'{n} {k} {shape}', go, ip)
    for k in ('pos', 'zero'):
      def go(c, n=n, k=k):
        a = Operand(k, 'a', False)
        att = np.empty((), object)
        att[()] = [d.v_pow(V(x), n).ex for x in a.verts[()]]
        judge(_m(ip, ia, 'power', a.value, n), att, f'power {n}', both_exact=True)
      check(report, G, 'I-power', 'IntervalArithmetic.power', f'{n} exact {k}', go, ip)
  for k in ('pos', 'neg', 'mixed'):
    def go(c, k=k):
      a = Operand(k, 'a', True)
      try:
        r = _m(ip, ia, 'power', a.value, -1)
      except d.Unsupported:
        raise
      except Exception as e:  # rejecting is fine
        if type(e).__name__ == 'PyExc' and e.tname() in (
            'NotImplementedError', 'ValueError'):
          return
        raise
      if k == 'mixed':
        lo, hi = need_pair(r, 'power')
        for v in (lo.data[()], hi.data[()]):
          if not d.to_v(v).is_inf() or d.to_v(v).ex == 'nan':
            raise Violation('negative power of an interval containing 0 is finite')
      else:
        att = np.empty((), object)
        att[()] = [x.inv() for x in a.verts[()]]
        judge(r, att, 'power -1', sharp=False)
    check(report, G, 'I-power', 'IntervalArithmetic.power', f'-1 {k}', go, ip)


def _deg0(r, att):
  """An exact result for an exponent of 0 counts as a degenerate interval."""
  if not isinstance(r, tuple) and all(
      all(x == att[i][0] for x in att[i]) for i in np.ndindex(att.shape)):
    return (r, r)
  return r


def bilinear_attained(table, a, b):
  """table: object ndarray of lists of (coef, ia, ib): sum coef*a[ia]*b[ib]."""
  out = np.empty(table.shape, object)
  for o in np.ndindex(table.shape):
    va = sorted({t[1] for t in table[o]})
    vb = sorted({t[2] for t in table[o]})
    vals = []
    for pa in itertools.product(*[a.verts[i] for i in va]):
      ea = dict(zip(va, pa))
      for pb in itertools.product(*[b.verts[i] for i in vb]):
        eb = dict(zip(vb, pb))
        s = rat(0)
        for co, i, j in table[o]:
          s = s + rat(co) * ea[i] * eb[j]
        vals.append(s)
    out[o] = vals
  return out


def _table(shape, fn):
  t = np.empty(shape, object)
  for i in np.ndindex(shape):
    t[i] = fn(i)
  return t


TENSORDOTS = (
    (1, (2,), (2, 1)), (1, (1, 2), (2,)), (1, (3, 2), (2, 1)), (1, (1,), (1,)),
    (1, (2, 1), (1, 3)), (1, (2, 1), (1,)), (1, (1,), (1, 2)), (1, (2, 2), (2, 3)),
    (1, (1, 1, 1, 2), (2, 1, 1)), (1, (2, 1, 1, 1, 2), (2,)), (1, (4,), (4,)),
    (2, (2, 2), (2, 2, 1)), (2, (3, 1, 2), (1, 2)), (3, (1, 2, 1), (1, 2, 1)),
    (0, (2, 1, 2), (1, 3)), (0, (1,) * 5, (2,) + (1,) * 5), (0, (2, 2), (2, 2)),
    (((0,), (0,)), (2,), (2,)), (((0, 1), (1, 0)), (2, 3), (3, 2)),
    (([1], [1]), (2, 2), (1, 2)), (((), ()), (2,), (2, 1)), (([-1], [-2]), (2, 2), (2, 1)),
    (([0, 2], [1, 0]), (2, 2, 1), (1, 2, 2)), ((0, 0), (2, 2), (2,)),
    (1, (0,), (0,)), (1, (2, 0), (0, 3)))


def tensordot_table(sa, sb, axes):
  if isinstance(axes, int):
    ca, cb = tuple(range(len(sa) - axes, len(sa))), tuple(range(axes))
  else:
    ca, cb = ((x,) if isinstance(x, int) else tuple(x) for x in axes)
  ca, cb = tuple(x % len(sa) for x in ca), tuple(x % len(sb) for x in cb)
  fa = [i for i in range(len(sa)) if i not in ca]
  fb = [i for i in range(len(sb)) if i not in cb]
  def fn(o):
    rows = []
    for c in np.ndindex(tuple(sa[i] for i in ca)):
      ia, ib = [None] * len(sa), [None] * len(sb)
      for i, v in zip(fa, o):
        ia[i] = v
      for i, v in zip(fb, o[len(fa):]):
        ib[i] = v
      for i, v in zip(ca, c):
        ia[i] = v
      for i, v in zip(cb, c):
        ib[i] = v
      rows.append((1, tuple(ia), tuple(ib)))
    return rows
  return _table(tuple(sa[i] for i in fa) + tuple(sb[i] for i in fb), fn)


def ops_mul(x, y):
  return x * y


def run_bilinear(report):
  G = 'iv.bilinear'
  ip = core_interp()
  report.interps.append(ip)
  ia = _ia(ip)
  npm = ip.models['backend'].attrs
  from ..interp import Native
  mul = npm['multiply']
  mul2 = Native(lambda x, y: d.a_mul(d.a_mul(2, x), y))
  dot = Native(lambda x, y: d.a_tensordot(x, y, 1))
  rows = []
  t0 = _table((), lambda i: [(1, (), ())])
  for prod in (True, False):
    for bl, co, nm in ((mul, 1, 'x*y'), (mul2, 2, '2*x*y')):
      for ai, bi, ka, kb in combos(report, KINDS, KINDS):
        def go(c, prod=prod, bl=bl, co=co, ai=ai, bi=bi, ka=ka, kb=kb):
          a, b = Operand(ka, 'a', ai), Operand(kb, 'b', bi)
          att = bilinear_attained(_table((), lambda i: [(co, (), ())]), a, b)
          kw = {'assume_product': prod} if prod else {}
          judge(_m(ip, ia, 'arbitrary_bilinear', a.value, b.value, bl, **kw), att,
                'bilinear', sharp=prod or not (ai and bi),
                both_exact=not (ai or bi))
        check(report, G, 'I-bilinear', 'IntervalArithmetic.arbitrary_bilinear',
              f'{nm} assume_product={prod} {ai}{bi} {ka} {kb}', go, ip)
  # inner products of two-vectors
  kk = ('pos', 'mixed', 'neg') if report.tier == 'quick' else KINDS
  td = _table((), lambda i: [(1, (0,), (0,)), (1, (1,), (1,))])
  def inner(fn, construct, label, kinds_a, kinds_b, ai, bi):
    def go(c):
      a = Operand(np.array(kinds_a, object), 'a', ai)
      b = Operand(np.array(kinds_b, object), 'b', bi)
      judge(fn(a.value, b.value), bilinear_attained(td, a, b), label, sharp=False,
            both_exact=not (ai or bi))
    check(report, G, 'I-bilinear', construct,
          f'{label} {kinds_a}{kinds_b} {ai}{bi}', go, ip)
  f1 = lambda x, y: _m(ip, ia, 'arbitrary_bilinear', x, y, dot)
  # one object as both operands (two independent members)
  for k in KINDS:
    for nm, bl in (('multiply', mul), ('dot', dot)):
      def go(c, k=k, bl=bl, nm=nm):
        a = Operand(k if nm == 'multiply' else np.array([k, 'mixed'], object), 'a', True)
        judge(_m(ip, ia, 'arbitrary_bilinear', a.value, a.value, bl),
              bilinear_attained(t0 if nm == 'multiply' else td, a, a), 'bilinear',
              sharp=False)
      check(report, G, 'I-bilinear', 'IntervalArithmetic.arbitrary_bilinear',
            f'{nm} the same operand twice {k}', go, ip)
  f2 = lambda x, y: _m(ip, ia, 'tensordot', x, y, 1)
  for k in itertools.product(kk, repeat=4):
    inner(f1, 'IntervalArithmetic.arbitrary_bilinear', 'dot', k[:2], k[2:], True, True)
  for k in itertools.product(kk, PT, repeat=2):
    inner(f1, 'IntervalArithmetic.arbitrary_bilinear', 'dot', k[::2], k[1::2], True, False)
    inner(f1, 'IntervalArithmetic.arbitrary_bilinear', 'dot', k[1::2], k[::2], False, True)
  for ka, kb, ai, bi in (
      (('mixed', 'neg'), ('pos', 'mixed'), True, True),
      (('mixed', 'mixed'), ('mixed', 'mixed'), True, True),
      (('neg', 'pos'), ('mixed', 'mixed'), True, True),
      (('mixed', 'neg'), ('pos', 'neg'), True, False),
      (('neg', 'pos'), ('mixed', 'neg'), False, True),
      (('neg', 'pos'), ('neg', 'pos'), False, False)):
    inner(f2, 'IntervalArithmetic.tensordot', 'tensordot 1', ka, kb, ai, bi)
  # intervals both of whose end points are one object
  for k, kb in itertools.product(PT, KINDS):
    for other in (True, False, None):
      if other is not True and kb not in PT:
        continue
      for first in (True, False):
        for bl, nm in ((mul, 'multiply'), (dot, 'dot')):
          def go(c, k=k, kb=kb, other=other, first=first, bl=bl, nm=nm):
            sh = () if nm == 'multiply' else (2,)
            a = degenerate(np.full(sh, k, object), 'a')
            kk = np.full(sh, kb, object)
            b = degenerate(kk, 'b') if other is None else Operand(kk, 'b', other)
            if not first:
              a, b = b, a
            judge(_m(ip, ia, 'arbitrary_bilinear', a.value, b.value, bl),
                  bilinear_attained(t0 if nm == 'multiply' else td, a, b), 'bilinear',
                  sharp=False)
          check(report, G, 'I-bilinear', 'IntervalArithmetic.arbitrary_bilinear',
                f'degenerate {nm} {k} {kb} {other} {first}', go, ip)
  # arrays with many axes and many elements, inner sums over several axes
  for ai, bi in ((True, True), (True, False), (False, True), (False, False)):
    for sa, sb in SHAPES:
      def go(c, sa=sa, sb=sb, ai=ai, bi=bi):
        a, b = cycled(sa, 'a', ai), cycled(sb, 'b', bi, 2)
        judge(_m(ip, ia, 'arbitrary_bilinear', a.value, b.value, mul),
              elementwise(ops_mul, a, b), 'bilinear', sharp=False,
              both_exact=not (ai or bi))
      check(report, G, 'I-bilinear', 'IntervalArithmetic.arbitrary_bilinear',
            f'{ai}{bi} shapes {sa} x {sb}', go, ip)
    for axes, sa, sb in TENSORDOTS:
      for shift in (0, 1, 2):
        def go(c, axes=axes, sa=sa, sb=sb, ai=ai, bi=bi, shift=shift):
          a, b = cycled(sa, 'a', ai, shift), cycled(sb, 'b', bi, 2 + shift)
          judge(_m(ip, ia, 'tensordot', a.value, b.value, axes),
                bilinear_attained(tensordot_table(sa, sb, axes), a, b), 'tensordot',
                sharp=(axes == 0), both_exact=not (ai or bi))
        check(report, G, 'I-tensordot', 'IntervalArithmetic.tensordot',
              f'axes={axes} {sa}{sb} {ai}{bi} shift {shift}', go, ip)
  # tensordot: shapes and axes
  cases = [
      (0, (2,), (2,), (2, 2), lambda i: [(1, (i[0],), (i[1],))]),
      (0, (), (2,), (2,), lambda i: [(1, (), (i[0],))]),
      (0, (2,), (), (2,), lambda i: [(1, (i[0],), ())]),
      (([0], [0]), (2, 1), (2, 2), (1, 2),
       lambda i: [(1, (k, i[0]), (k, i[1])) for k in range(2)]),
      (([1], [0]), (1, 2), (2, 1), (1, 1),
       lambda i: [(1, (i[0], k), (k, i[1])) for k in range(2)]),
      (2, (1, 2), (1, 2), (), lambda i: [(1, (0, k), (0, k)) for k in range(2)]),
  ]
  # axes=0 is a product: tight for every pair of kinds
  for sa, sb in (((), ()), ((1,), ()), ((1,), (1,))):
    for ai, bi, ka, kb in combos(report, KINDS, KINDS):
      def go(c, sa=sa, sb=sb, ai=ai, bi=bi, ka=ka, kb=kb):
        a = Operand(np.full(sa, ka, object), 'a', ai)
        b = Operand(np.full(sb, kb, object), 'b', bi)
        judge(_m(ip, ia, 'tensordot', a.value, b.value, 0),
              bilinear_attained(_table(sa + sb, lambda i: [(1, i[:len(sa)], i[len(sa):])]),
                                a, b), 'tensordot', both_exact=not (ai or bi))
      check(report, G, 'I-tensordot', 'IntervalArithmetic.tensordot',
            f'axes=0 {sa}{sb} {ai}{bi} {ka} {kb}', go, ip)
  for axes, sa, sb, so, fn in cases:
    for ai, bi in ((True, True), (True, False), (False, True), (False, False)):
      def go(c, axes=axes, sa=sa, sb=sb, so=so, fn=fn, ai=ai, bi=bi):
        pat = lambda s, iv, off: np.array(
            [(('mixed', 'neg', 'pos') if iv else ('neg', 'pos'))[(k + off) % (3 if iv else 2)]
             for k in range(int(np.prod(s, dtype=int)))], object).reshape(s)
        a, b = Operand(pat(sa, ai, 0), 'a', ai), Operand(pat(sb, bi, 1), 'b', bi)
        judge(_m(ip, ia, 'tensordot', a.value, b.value, axes),
              bilinear_attained(_table(so, fn), a, b), 'tensordot',
              sharp=(axes == 0), both_exact=not (ai or bi))
      check(report, G, 'I-tensordot', 'IntervalArithmetic.tensordot',
            f'axes={axes} {sa}{sb} {ai}{bi}', go, ip)


def run_outer(report):
  G = 'iv.outer'
  ip = core_interp()
  report.interps.append(ip)
  ia = _ia(ip)
  cases = [((), (), 0), ((2,), (), 0), ((), (2,), 0), ((2,), (2,), 0),
           ((2, 1), (2,), 0), ((2,), (2,), 1), ((2, 2), (2,), 1),
           ((2,), (2, 2), 1), ((1, 2), (1, 3), 1), ((2, 1, 2), (2, 1), 2),
           ((2, 2), (2, 2), 2), ((3, 2), (3, 4), 1), ((3,), (4,), 0),
           ((2, 2, 2), (2, 2), 1), ((2, 2, 3), (2, 4), 1), ((2, 1, 2, 2), (2, 1, 3), 2),
           ((2, 2), (3,), 0), ((2, 3, 2), (2, 3), 0), ((2,), (2, 3, 2), 0),
           ((1,) * 9 + (2,), (1,) * 4 + (2, 3), 0),
           ((2,) + (1,) * 8 + (3,), (2,) + (1,) * 9 + (2,), 1),
           ((1, 2) + (1,) * 10, (1, 2) + (1,) * 10 + (2, 1), 2)]
  for sa, sb, bd in cases:
    for ai, bi in ((True, True), (True, False), (False, True), (False, False)):
      def go(c, sa=sa, sb=sb, bd=bd, ai=ai, bi=bi):
        def pat(s, iv, off):
          ks = ('mixed', 'neg', 'pos', 'zpos') if iv else ('neg', 'pos', 'zero')
          n = int(np.prod(s, dtype=int))
          return np.array([ks[(k + off) % len(ks)] for k in range(n)],
                          object).reshape(s)
        a, b = Operand(pat(sa, ai, 0), 'a', ai), Operand(pat(sb, bi, 1), 'b', bi)
        so = sa + sb[bd:]
        def fn(i):
          return [(1, i[:len(sa)], i[:bd] + i[len(sa):])]
        kw = {'batch_dims': bd} if bd else {}
        judge(_m(ip, ia, 'outer_product', a.value, b.value, **kw),
              bilinear_attained(_table(so, fn), a, b), 'outer product',
              both_exact=not (ai or bi))
      check(report, G, 'I-outer-product', 'IntervalArithmetic.outer_product',
            f'{sa}x{sb} batch={bd} {ai}{bi}', go, ip)
  for ka in KINDS:
    for kb in KINDS:
      def go(c, ka=ka, kb=kb):
        a = Operand(np.array([ka, kb], object), 'a', True)
        b = Operand(np.array([kb, ka], object), 'b', True)
        judge(_m(ip, ia, 'outer_product', a.value, b.value),
              bilinear_attained(_table((2, 2), lambda i: [(1, i[:1], i[1:])]), a, b),
              'outer product')
      check(report, G, 'I-outer-product', 'IntervalArithmetic.outer_product',
            f'kinds {ka} {kb}', go, ip)
  for ka in KINDS:
    def go(c, ka=ka):
      a = Operand(np.array([ka, 'mixed'], object), 'a', True)
      judge(_m(ip, ia, 'outer_product', a.value, a.value),
            bilinear_attained(_table((2, 2), lambda i: [(1, i[:1], i[1:])]), a, a),
            'outer product')
    check(report, G, 'I-outer-product', 'IntervalArithmetic.outer_product',
          f'the same operand twice {ka}', go, ip)
  for ka, kb in itertools.product(PT, KINDS):
    def go(c, ka=ka, kb=kb):
      a, b = degenerate(np.array([ka, 'neg'], object), 'a'), Operand([kb, 'mixed'], 'b', True)
      for x, y in ((a, b), (b, a)):
        judge(_m(ip, ia, 'outer_product', x.value, y.value),
              bilinear_attained(_table((2, 2), lambda i: [(1, i[:1], i[1:])]), x, y),
              'outer product')
    check(report, G, 'I-outer-product', 'IntervalArithmetic.outer_product',
          f'degenerate {ka} {kb}', go, ip)
  for sa, sb, bd in (((), (2,), 1), ((2,), (), 1), ((2,), (2,), 2)):
    def go(c, sa=sa, sb=sb, bd=bd):
      a = Operand(np.full(sa, 'pos', object), 'a', True)
      b = Operand(np.full(sb, 'pos', object), 'b', True)
      expect_raises(lambda: _m(ip, ia, 'outer_product', a.value, b.value,
                               batch_dims=bd), None)
    check(report, G, 'I-outer-reject', 'IntervalArithmetic.outer_product',
          f'{sa}x{sb} batch={bd}', go, ip)
  # outer powers
  top = 12 if report.tier == 'quick' else 20
  for n in (*range(0, top + 1), 31, 32, 33):
    for interval in (True, False):
      for k in (KINDS if interval else PT):
        def go(c, n=n, interval=interval, k=k):
          a = Operand(k, 'a', interval)
          att = np.empty((), object)
          att[()] = monomial_attained(a, [()] * n)
          judge(_deg0(_m(ip, ia, 'outer_power', a.value, n), att)
                if interval else _m(ip, ia, 'outer_power', a.value, n), att,
                'outer power', both_exact=not interval)
        check(report, G, 'I-outer-power', 'IntervalArithmetic.outer_power',
              f'scalar {n} {interval} {k}', go, ip)
  for n in (1, 2, 3, 4) if report.tier == 'quick' else (1, 2, 3, 4, 5):
    for interval in (True, False):
      for k in itertools.product(KINDS if interval else PT, repeat=2):
        def go(c, n=n, interval=interval, k=k):
          a = Operand(np.array(k, object), 'a', interval)
          att = np.empty((2,) * n, object)
          for i in np.ndindex(att.shape):
            att[i] = monomial_attained(a, [(j,) for j in i])
          judge(_m(ip, ia, 'outer_power', a.value, n), att, 'outer power',
                sharp=n <= 2, both_exact=not interval)
        check(report, G, 'I-outer-power', 'IntervalArithmetic.outer_power',
              f'vector {n} {interval} {k}', go, ip)
  for n in (1, 2, 3, 4, 5):
    for bd in (0, 1):
      for interval in (True, False, None):
        for k in (KINDS if interval else PT):
          def go(c, n=n, bd=bd, interval=interval, k=k):
            ks = np.array([k], object)
            a = degenerate(ks, 'a') if interval is None else Operand(ks, 'a', interval)
            att = np.empty((1,) if bd else (1,) * n, object)
            for i in np.ndindex(att.shape):
              att[i] = monomial_attained(a, [(0,)] * n)
            kw = {'batch_dims': bd} if bd else {}
            judge(_m(ip, ia, 'outer_power', a.value, n, **kw), att, 'outer power',
                  sharp=n <= 2 and not bd, both_exact=interval is False)
          check(report, G, 'I-outer-power', 'IntervalArithmetic.outer_power',
                f'one element {n} batch={bd} {interval} {k}', go, ip)
  for shape, n, bd in (((2, 2), 2, 0), ((2, 2), 2, 1), ((2, 1), 3, 1), ((2,), 2, 1),
                       ((2,), 3, 1), ((1, 2, 1), 2, 2), ((3,), 2, 0), ((3,), 3, 0),
                       ((2,), 5, 0), ((3, 2), 2, 1), ((1, 1), 6, 0),
                       ((2, 1, 1), 5, 1), ((4,), 2, 0), ((5,), 2, 0), ((7,), 2, 0),
                       ((4,), 3, 0), ((2, 3, 2), 2, 2), ((3, 2), 3, 1)):
    for interval in (True, False):
      def go(c, shape=shape, n=n, bd=bd, interval=interval):
        ks = KINDS if interval else PT
        m = int(np.prod(shape, dtype=int))
        a = Operand(np.array([ks[(2 * i + 2) % len(ks)] for i in range(m)],
                             object).reshape(shape), 'a', interval)
        so = shape[:bd] + shape[bd:] * n
        att = np.empty(so, object)
        w = len(shape) - bd
        for i in np.ndindex(so):
          att[i] = monomial_attained(
              a, [i[:bd] + i[bd + w * t:bd + w * (t + 1)] for t in range(n)])
        kw = {'batch_dims': bd} if bd else {}
        judge(_m(ip, ia, 'outer_power', a.value, n, **kw), att, 'outer power',
              sharp=len(shape) == 1 and n <= 2 and not bd, both_exact=not interval)
      check(report, G, 'I-outer-power', 'IntervalArithmetic.outer_power',
            f'{shape} {n} batch={bd} {interval}', go, ip)
  def go(c):
    a = Operand(np.array(['pos', 'mixed'], object), 'a', True)
    expect_raises(lambda: _m(ip, ia, 'outer_power', a.value, -1), None)
  check(report, G, 'I-outer-reject', 'IntervalArithmetic.outer_power', '-1', go, ip)


GROUPS = {'iv.basic': run_basic, 'iv.power': run_power,
          'iv.bilinear': run_bilinear, 'iv.outer': run_outer}
