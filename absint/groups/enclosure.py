"""Obligations about autobound.enclosure_arithmetic (relational abstraction).

Operands are Taylor enclosures with symbolic coefficients: exact coefficients
are free symbols, interval coefficients are known through one symbolic member.
An operation is valid iff the member polynomial certified in its result equals,
identically in all symbols, the operation applied to the operands' member
polynomials.
"""

import itertools
from fractions import Fraction

import numpy as np

from .. import domain as d
from .. import ghosts as gm
from ..core import (KINDS, pt_cell, Violation, arr0, arr_to_rats, atoms_array, check, core_interp,
                    enclosure_ghost, eval_ghost, expect_raises, interval_array,
                    need_ghosts, outer_power_rats, rat, require_ge, require_le,
                    same_rats, soft)
from ..domain import AArray, Unsupported, V, ctx
from ..interp import Native, PyExc
from ..poly import new_atom, rat_sign

MOD = 'autobound.enclosure_arithmetic'


class World:
  """Symbolic trust region and arithmetic object."""

  def __init__(self, ip, c, max_degree, x_shape):
    self.ip, self.x_shape, self.max_degree = ip, tuple(x_shape), max_degree
    (self.tr, self.z) = interval_array('z', x_shape)
    c.hooks['z_atoms'] = {next(iter(r.atoms())) for r in self.z.reshape(-1)}
    self.np = ip.models['backend']
    cls = ip.mod_attr(MOD, 'TaylorEnclosureArithmetic')
    self.ar = ip.call(cls, [max_degree, self.tr, self.np], {})

  def m(self, name, *args, **kw):
    return self.ip.call(self.ip.getattr(self.ar, name), list(args), kw)

  def f(self, name, *args, **kw):
    return self.ip.call(self.ip.mod_attr(MOD, name), list(args), kw)

  def operand(self, nm, batch, degree, style):
    """style: 'exact', 'last' or 'all' (which coefficients are intervals)."""
    coefs, gh = [], []
    for k in range(degree + 1):
      shape = tuple(batch) + self.x_shape * k
      if style == 'all' or (style == 'last' and k == degree):
        p, g = interval_array(f'{nm}{k}', shape)
        coefs.append(p)
      else:
        p, g = atoms_array(f'{nm}{k}', shape)
        coefs.append(p)
      gh.append(g)
    return tuple(coefs), eval_ghost(gh, self.z)

  def judge(self, res, want, what, exact_below=None, degree=None):
    got = enclosure_ghost(res, self.z, what)
    same_rats(*np.broadcast_arrays(got, want), what=what) if got.shape == want.shape \
        else _bad_shape(got, want, what)
    deg = self.max_degree if degree is None else degree
    if len(res) - 1 > deg:
      soft('form', f'{what}: degree {len(res) - 1} exceeds the maximum {deg}')
    if exact_below is not None:
      for k, cf in enumerate(res[:exact_below]):
        if isinstance(cf, tuple):
          soft('form', f'{what}: coefficient {k} is an interval although all '
               'operands are exact up to that order')


def _bad_shape(got, want, what):
  raise Violation(f'{what}: value has shape {got.shape}, expected {want.shape}')


def emap(fn, *arrs):
  bc = np.broadcast_arrays(*arrs)
  out = np.empty(bc[0].shape, object)
  for i in np.ndindex(out.shape):
    out[i] = fn(*[b[i] for b in bc])
  return out


def contract_summary(keyfn):
  def s(ip, f, args, kw):
    return keyfn(ip, gm.params(ip, f, args, kw))
  return s


def make_interp(report):
  ip = core_interp()
  gm.install(ip)
  def pow_enc(ip_, f, args, kw):
    ps = gm.params(ip_, f, args, kw)
    if len(ps) < 5:
      return NotImplemented
    e, x0, region, deg, npl = ps[:5]
    return gm.contract_enclosure(f'pow({gm._int(e) if gm._int(e) is not None else Fraction(e)})',
                                 x0, region, deg)
  ip.summaries['autobound.primitive_enclosures.pow_enclosure'] = pow_enc
  report.interps.append(ip)
  return ip


def styles(deg):
  return ('exact', 'last') if deg else ('exact', 'last')


def low_exact(sa, da, m):
  """Coefficients certainly exact given one operand's style/degree."""
  if sa == 'exact':
    return m + 1 if False else 10**6
  if sa == 'last':
    return da
  return 0


XS = ((), (2,))


def run_linear(report):
  G = 'te.linear'
  ip = make_interp(report)
  thorough = report.tier != 'quick'
  degs = range(0, 4) if not thorough else range(0, 5)
  xs = XS + (((1, 2), (1,)) if thorough else ((1, 2),))
  for name, fn in (('add', lambda x, y: x + y), ('subtract', lambda x, y: x - y)):
    for xsh in xs:
      for m in (0, 1, 2, 3):
        for da in degs:
          for db in degs:
            if len(xsh) == 2 and max(da, db, m) > 2:
              continue
            if da + db > 5 and not thorough:
              continue
            for sa, sb in (('last', 'last'), ('exact', 'last'), ('last', 'exact'),
                           ('exact', 'exact'), ('all', 'last')):
              def go(c, name=name, fn=fn, xsh=xsh, m=m, da=da, db=db, sa=sa, sb=sb):
                w = World(ip, c, m, xsh)
                a, ga = w.operand('a', (2,) if xsh == () else (), da, sa)
                b, gb = w.operand('b', (2,) if xsh == () else (), db, sb)
                low = min(low_exact(sa, da, m), low_exact(sb, db, m), m)
                if max(da, db) <= m:
                  low = min(low_exact(sa, da, m), low_exact(sb, db, m))
                w.judge(w.m(name, a, b), emap(fn, ga, gb), name, exact_below=low)
              check(report, G, 'T-' + name, f'TaylorEnclosureArithmetic.{name}',
                    f'x{xsh} max={m} deg {da},{db} {sa},{sb}', go, ip)
  for xsh in xs:
    for m in (0, 1, 2, 3):
      for da in degs:
        if len(xsh) == 2 and max(da, m) > 2:
          continue
        for sa in ('exact', 'last', 'all'):
          def go(c, xsh=xsh, m=m, da=da, sa=sa):
            w = World(ip, c, m, xsh)
            a, ga = w.operand('a', (2,), da, sa)
            low = min(low_exact(sa, da, m), m) if da > m else low_exact(sa, da, m)
            w.judge(w.m('negative', a), emap(lambda x: -x, ga), 'negative',
                    exact_below=low)
          check(report, G, 'T-negative', 'TaylorEnclosureArithmetic.negative',
                f'x{xsh} max={m} deg {da} {sa}', go, ip)
          def go2(c, xsh=xsh, m=m, da=da, sa=sa):
            w = World(ip, c, m, xsh)
            a, ga = w.operand('a', (2,), da, sa)
            low = min(low_exact(sa, da, m), m) if da > m else low_exact(sa, da, m)
            r = w.f('enclose_enclosure', a, w.tr, m, w.np)
            w.judge(r, ga, 'enclose_enclosure', exact_below=low)
            if da <= m and len(r) != len(a):
              soft('form', 'degree changed without need')
          check(report, G, 'T-truncate', 'enclose_enclosure',
                f'x{xsh} max={m} deg {da} {sa}', go2, ip)
  # many degrees above the maximum, sizes other than two, no elements
  for xsh, batch, cases in (
      ((), (2,), [(m, da) for m in range(0, 5) for da in range(4, 9)]),
      ((1,), (2,), [(m, da) for m in (0, 1, 2) for da in (1, 2, 3, 4)]),
      ((3,), (), [(m, da) for m in (0, 1, 2) for da in (1, 2, 3)]),
      ((2,), (1, 2), [(m, da) for m in (0, 1) for da in (1, 2)]),
      ((2, 1), (), [(m, da) for m in (0, 1) for da in (1, 2)])):
    for m, da in cases:
      for sa in ('exact', 'last', 'all'):
        def go(c, xsh=xsh, batch=batch, m=m, da=da, sa=sa):
          w = World(ip, c, m, xsh)
          a, ga = w.operand('a', batch, da, sa)
          low = min(low_exact(sa, da, m), m) if da > m else low_exact(sa, da, m)
          w.judge(w.f('enclose_enclosure', a, w.tr, m, w.np), ga, 'enclose_enclosure',
                  exact_below=low)
          w.judge(w.m('negative', a), emap(lambda x: -x, ga), 'negative',
                  exact_below=low)
          b, gb = w.operand('b', batch, 1, 'last')
          w.judge(w.m('add', a, b), emap(lambda x, y: x + y, ga, gb), 'add',
                  exact_below=min(low, 1))
          w.judge(w.m('subtract', b, a), emap(lambda x, y: y - x, ga, gb), 'subtract',
                  exact_below=min(low, 1))
        check(report, G, 'T-truncate', 'enclose_enclosure',
              f'x{xsh} batch{batch} max={m} deg {da} {sa}', go, ip)
  # one object as both operands: it encloses two different functions
  for xsh in XS:
    for deg in (0, 1, 2):
      for name in ('add', 'subtract'):
        def go(c, xsh=xsh, deg=deg, name=name):
          w = World(ip, c, 2, xsh)
          a, _ = w.operand('a', (), deg, 'last')
          r = w.m(name, a, a)
          if not isinstance(r, tuple) or len(r) != len(a):
            if not isinstance(r, tuple):
              raise Violation(f'{name}: result is not a tuple')
            last = (arr0(V(rat(0))),) * 2
          else:
            last = r[deg] if isinstance(r[deg], tuple) else (r[deg],) * 2
          lo, hi = (arr_to_rats(d.as_arr(v)) for v in last)
          alo, ahi = (arr_to_rats(v) for v in a[deg])
          for i in np.ndindex(alo.shape):
            u, v = alo[i], ahi[i]
            least, most = (u + u, v + v) if name == 'add' else (u - v, v - u)
            try:
              l, h = lo[i], hi[i]
            except IndexError:
              l, h = lo[()], hi[()]
            for got, diff, nm in ((l, None if l is None else l - least, 'lower'),
                                  (h, None if h is None else most - h, 'upper')):
              if diff is None:
                raise Unsupported(f'{name}: end point is not exact')
              s_ = d.rat_sign(diff, c.facts)
              if s_ <= {-1, 0}:
                continue
              if s_ <= {0, 1}:
                raise Violation(f'{name}: the same enclosure stands for two functions, '
                                f'but the {nm} end point of coefficient {deg} is '
                                f'{got!r}')
              raise Unsupported(f'{name}: end points not ordered')
        check(report, G, 'T-' + name, f'TaylorEnclosureArithmetic.{name}',
              f'the same operand twice x{xsh} deg {deg}', go, ip)
  # broadcasting between operands of different ranks (scalar x)
  for name, fn in (('add', lambda x, y: x + y), ('subtract', lambda x, y: x - y),
                   ('multiply', lambda x, y: x * y)):
    for ba, bb in (((), (2,)), ((2,), ()), ((1, 2), (2, 1)), ((2,), (2, 2))):
      def go(c, name=name, fn=fn, ba=ba, bb=bb):
        w = World(ip, c, 2, ())
        a, ga = w.operand('a', ba, 2, 'last')
        b, gb = w.operand('b', bb, 2, 'last')
        w.judge(w.m(name, a, b), emap(fn, ga, gb), name)
      check(report, G, 'T-' + name, f'TaylorEnclosureArithmetic.{name}',
            f'broadcast {ba} {bb}', go, ip)
  # broadcasting between operands of different ranks (vector x)
  for name, fn in (('add', lambda x, y: x + y), ('subtract', lambda x, y: x - y),
                   ('multiply', lambda x, y: x * y)):
    for xsh in ((2,), (3,), (1,)):
      for ba, bb in (((), (2,)), ((2,), ()), ((1, 2), (2, 1)), ((2,), (3, 2)),
                     ((2, 1), (1,)), ((3, 1), (3, 2))):
        for da, db in ((0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (0, 2)):
          if xsh == (3,) and (da + db > 2 or 3 in ba + bb):
            continue
          def go(c, name=name, fn=fn, xsh=xsh, ba=ba, bb=bb, da=da, db=db):
            w = World(ip, c, 2, xsh)
            a, ga = w.operand('a', ba, da, 'last')
            b, gb = w.operand('b', bb, db, 'last')
            w.judge(w.m(name, a, b), emap(fn, ga, gb), name)
          check(report, G, 'T-' + name, f'TaylorEnclosureArithmetic.{name}',
                f'vector x{xsh} broadcast {ba} {bb} deg {da},{db}', go, ip)
  # plain numbers in place of arrays
  def go(c):
    w = World(ip, c, 2, ())
    got = w.m('add', (1, 2), ((3, 4),))
    z = w.z[()]
    g0 = need_ghosts_range(got[0], 4, 5)
    if isinstance(got[1], tuple) or not d.arr_equal(got[1], d.as_arr(2)):
      raise Violation('add: exact coefficient lost')
  check(report, G, 'T-add', 'TaylorEnclosureArithmetic.add', 'numbers', go, ip)
  for bad in ((2.5, 'degree'),):
    def go(c):
      cls = ip.mod_attr(MOD, 'TaylorEnclosureArithmetic')
      tr, _ = interval_array('z', (2,))
      expect_raises(lambda: ip.call(cls, [Fraction(5, 2), tr, ip.models['backend']], {}),
                    ('ValueError',))
      tr2, _ = interval_array('y', (3,))
      expect_raises(lambda: ip.call(cls, [2, (tr[0], tr2[1]), ip.models['backend']], {}),
                    ('ValueError',))
    check(report, G, 'T-init', 'TaylorEnclosureArithmetic.__init__', 'bad arguments',
          go, ip)


def need_ghosts_range(c, lo, hi):
  if not isinstance(c, tuple):
    raise Violation('interval coefficient became exact')
  for v, want in zip(c, (lo, hi)):
    if not d.arr_equal(v, d.as_arr(want)):
      raise Violation(f'end point {v!r}, expected {want}')


def run_multiply(report):
  G = 'te.multiply'
  ip = make_interp(report)
  thorough = report.tier != 'quick'
  for xsh in XS + ((1, 2),):
    for m in (0, 1, 2, 3):
      for da in range(0, 4):
        for db in range(0, 4):
          if len(xsh) and da + db > 3 and not thorough:
            continue
          if len(xsh) == 2 and (da + db > 2 or m > 2):
            continue
          for sa, sb in (('last', 'last'), ('exact', 'last'), ('last', 'exact'),
                         ('exact', 'exact'), ('all', 'all')):
            def go(c, xsh=xsh, m=m, da=da, db=db, sa=sa, sb=sb):
              w = World(ip, c, m, xsh)
              batch = () if len(xsh) == 2 else (2,)
              a, ga = w.operand('a', batch, da, sa)
              b, gb = w.operand('b', batch, db, sb)
              low = min(low_exact(sa, da, m), low_exact(sb, db, m))
              if da + db > m:
                low = min(low, m)
              w.judge(w.m('multiply', a, b), emap(lambda x, y: x * y, ga, gb),
                      'multiply', exact_below=low)
            check(report, G, 'T-multiply', 'TaylorEnclosureArithmetic.multiply',
                  f'x{xsh} max={m} deg {da},{db} {sa},{sb}', go, ip)
  # mixed batch ranks with vector x
  for ba, bb in (((2,), (2,)), ((2, 1), (2,)), ((), (2,)), ((2,), ())):
    for da, db in ((1, 1), (0, 1), (1, 0), (2, 0)):
      def go(c, ba=ba, bb=bb, da=da, db=db):
        w = World(ip, c, 2, (2,))
        a, ga = w.operand('a', ba, da, 'last')
        b, gb = w.operand('b', bb, db, 'last')
        w.judge(w.m('multiply', a, b), emap(lambda x, y: x * y, ga, gb), 'multiply')
      check(report, G, 'T-multiply', 'TaylorEnclosureArithmetic.multiply',
            f'vector x, batch {ba} {bb} deg {da},{db}', go, ip)
  for xsh, batch, cases in (
      ((), (2,), [(m, da, db) for m in (1, 2, 4) for da in (0, 1, 4, 5)
                  for db in (1, 4)]),
      ((1,), (1, 2), [(m, da, db) for m in (1, 2) for da in (1, 2) for db in (0, 2)]),
      ((3,), (), [(m, da, db) for m in (1, 2) for da in (0, 1) for db in (1, 2)])):
    for m, da, db in cases:
      for sa, sb in (('last', 'last'), ('exact', 'last'), ('exact', 'exact')):
        def go(c, xsh=xsh, batch=batch, m=m, da=da, db=db, sa=sa, sb=sb):
          w = World(ip, c, m, xsh)
          a, ga = w.operand('a', batch, da, sa)
          b, gb = w.operand('b', batch, db, sb)
          low = min(low_exact(sa, da, m), low_exact(sb, db, m))
          if da + db > m:
            low = min(low, m)
          w.judge(w.m('multiply', a, b), emap(lambda x, y: x * y, ga, gb),
                  'multiply', exact_below=low)
        check(report, G, 'T-multiply', 'TaylorEnclosureArithmetic.multiply',
              f'x{xsh} batch{batch} max={m} deg {da},{db} {sa},{sb}', go, ip)
  def go(c):
    w = World(ip, c, 2, (2,))
    tr3 = World(ip, c, 2, (3,))
    a, _ = w.operand('a', (), 1, 'last')
    b, _ = tr3.operand('b', (), 1, 'last')
    for fn in (lambda: w.m('multiply', a, b), lambda: w.m('multiply', b, a),
               lambda: w.m('power', b, 2)):
      expect_raises(fn, None)
  check(report, G, 'T-validate', 'TaylorEnclosureArithmetic.multiply',
        'coefficient shapes that do not fit x', go, ip)


  # one enclosure object as both operands (two independent members)
  ip2 = core_interp()
  report.interps.append(ip2)
  from .interval import Operand, bilinear_attained, elementwise, judge, PT
  ops = {'multiply': lambda x, y: x * y, 'add': lambda x, y: x + y,
         'subtract': lambda x, y: x - y}
  for name, f in ops.items():
    for k in KINDS:
      for deg, m in ((0, 0), (0, 1), (0, 2), (1, 2), (2, 4)):
        for shape in ((), (2,)):
          def go(c, name=name, f=f, k=k, deg=deg, m=m, shape=shape):
            w = World(ip2, c, m, ())
            low = [atoms_array(f'c{i}', shape)[0] for i in range(deg)]
            a = Operand(np.full(shape, k, object), 'a', True)
            enc = tuple(low) + (a.value,)
            res = w.m(name, enc, enc)
            want = 2 * deg if name == 'multiply' else deg
            if not isinstance(res, tuple) or len(res) != want + 1:
              raise Violation(f'{name}: the result has not {want + 1} coefficients')
            judge(res[want], elementwise(f, a, a), f'{name}: last coefficient',
                  sharp=False)
          check(report, G, 'T-' + name, f'TaylorEnclosureArithmetic.{name}',
                f'the same enclosure twice {k} deg {deg} max={m} batch{shape}', go, ip2)


def run_power(report):
  G = 'te.power'
  ip = make_interp(report)
  thorough = report.tier != 'quick'
  top = 5 if thorough else 4
  for xsh in XS:
    for m in (0, 1, 2, 3):
      for da in range(0, 4):
        for n in range(0, top + 1):
          size = da * n
          if xsh and size > 4 and not (thorough and size <= 6):
            continue
          if not xsh and size > 9 and not thorough:
            continue
          for sa in ('exact', 'last', 'all'):
            def go(c, xsh=xsh, m=m, da=da, n=n, sa=sa):
              w = World(ip, c, m, xsh)
              a, ga = w.operand('a', (2,) if not xsh else (), da, sa)
              low = low_exact(sa, da, m)
              if da * n > m:
                low = min(low, m)
              w.judge(w.m('power', a, n), emap(lambda x: x.pow(n), ga), f'power {n}',
                      exact_below=low if n else 1)
            check(report, G, 'T-power', 'TaylorEnclosureArithmetic.power',
                  f'x{xsh} max={m} deg {da} ^{n} {sa}', go, ip)
  for da, n in ((1, 2), (1, 3), (2, 2)):
    def go(c, da=da, n=n):
      w = World(ip, c, 2, (2,))
      a, ga = w.operand('a', (2,), da, 'last')
      w.judge(w.m('power', a, n), emap(lambda x: x.pow(n), ga), f'power {n}')
    check(report, G, 'T-power', 'TaylorEnclosureArithmetic.power',
          f'batch and vector x deg {da} ^{n}', go, ip)
  # several batch dimensions
  for xsh in ((), (2,)):
    for batch in ((2, 2), (2, 1, 2), (1, 2, 1), (1, 1, 1, 2), (3,), (5, 1)):
      for m, da, n in ((2, 1, 1), (2, 1, 2), (2, 1, 3), (1, 2, 2), (0, 1, 2), (3, 0, 4)):
        if xsh and n > 2 or batch[0] == 5 and da * n > 2:
          continue
        for sa in ('exact', 'last'):
          def go(c, xsh=xsh, m=m, da=da, n=n, sa=sa, batch=batch):
            w = World(ip, c, m, xsh)
            a, ga = w.operand('a', batch, da, sa)
            w.judge(w.m('power', a, n), emap(lambda x: x.pow(n), ga), f'power {n}')
          check(report, G, 'T-power', 'TaylorEnclosureArithmetic.power',
                f'batch {batch} x{xsh} max={m} deg {da} ^{n} {sa}', go, ip)
  # high exponents, integers given as floating point numbers
  for da, n, m in ([(0, n, m) for n in (5, 6, 7, 8, 11) for m in (0, 1, 2)] +
                   [(1, n, m) for n in (5, 6, 7, 8) for m in (1, 2, 4)] +
                   [(2, n, m) for n in (5, 6) for m in (1, 2)] +
                   [(4, n, m) for n in (1, 2) for m in (1, 2, 4)] +
                   [(6, 1, m) for m in (0, 1, 3)]):
    for sa in ('exact', 'last'):
      for as_float in (False, True):
        if as_float and (da != 1 or n > 6):
          continue
        def go(c, da=da, n=n, m=m, sa=sa, as_float=as_float):
          w = World(ip, c, m, ())
          a, ga = w.operand('a', (), da, sa)
          low = low_exact(sa, da, m)
          if da * n > m:
            low = min(low, m)
          w.judge(w.m('power', a, Fraction(n) if as_float else n),
                  emap(lambda x: x.pow(n), ga), f'power {n}', exact_below=low)
        check(report, G, 'T-power', 'TaylorEnclosureArithmetic.power',
              f'scalar x max={m} deg {da} ^{float(n) if as_float else n} {sa}', go, ip)
  # zero constant term (as used by composition)
  for xsh in XS:
    for da, n in ((1, 1), (1, 2), (2, 2), (1, 3)):
      def go(c, xsh=xsh, da=da, n=n):
        w = World(ip, c, 2, xsh)
        a, _ = w.operand('a', (), da, 'last')
        gh = [np.array(rat(0), object)] + [need_ghosts(k, 'a') for k in a[1:]]
        w.judge(w.m('power', (0,) + a[1:], n),
                emap(lambda x: x.pow(n), eval_ghost(gh, w.z)), f'power {n}')
      check(report, G, 'T-power', 'TaylorEnclosureArithmetic.power',
            f'x{xsh} zero constant deg {da} ^{n}', go, ip)
  # non-integer and negative exponents: the elementwise contract
  for xsh in XS:
    for m in (0, 1, 2):
      for da in (0, 1, 2):
        for p in (-1, -2, Fraction(1, 2), Fraction(-3, 2), Fraction(5, 2), -3, -7,
                  Fraction(1, 3), Fraction(7, 2), Fraction(20005, 10000),
                  Fraction(2999999, 1000000), Fraction(1, 10000), Fraction(-1, 10000),
                  Fraction(9999, 10000), Fraction(-20001, 10000), Fraction(201, 2)):
          if xsh and m + da > 3:
            continue
          if xsh and p not in (-1, -2, Fraction(1, 2), Fraction(20005, 10000)):
            continue
          def go(c, xsh=xsh, m=m, da=da, p=p):
            w = World(ip, c, m, xsh)
            if m == 0 and da > 0:
              a, ga = w.operand('a', (), 0, 'last')
            else:
              a, ga = w.operand('a', (), da, 'last' if da else 'exact')
            r = w.m('power', a, p)
            try:
              w.judge(r, emap(lambda y: gm.fn_value(f'pow({p})', y, m), ga), f'power {p}',
                      exact_below=min(m, da) if m else 0)
            except Violation:
              if da or isinstance(a[0], tuple):
                raise
              # the power of a constant, computed without the elementwise rule
              w.judge(r, emap(lambda y: d.v_pow(V(y), p).ex, ga), f'power {p}')
          check(report, G, 'T-real-power', 'TaylorEnclosureArithmetic.power',
                f'x{xsh} max={m} deg {da} ^{p}', go, ip)
  for xsh in XS:
    for m in (0, 1, 2):
      for da, db in ((0, 1), (1, 1), (2, 1), (1, 2)):
        if xsh and (da + db > 2):
          continue
        def go(c, xsh=xsh, m=m, da=da, db=db):
          w = World(ip, c, m, xsh)
          a, ga = w.operand('a', (), da if m else 0, 'last')
          b, gb = w.operand('b', (), db if m else 0, 'last')
          w.judge(w.m('divide', a, b),
                  emap(lambda x, y: x * gm.fn_value('pow(-1)', y, m), ga, gb), 'divide')
        check(report, G, 'T-divide', 'TaylorEnclosureArithmetic.divide',
              f'x{xsh} max={m} deg {da},{db}', go, ip)


  # exact operands, denominators of either sign
  for xsh in XS:
    for m in (0, 1, 2):
      for da in (0, 1, 2):
        for db in (0, 1):
          for sa in ('exact', 'last', 'all'):
            if xsh and da + db > 1 or da == 0 and m and sa == 'last':
              continue
            for k in ('pos', 'neg'):
              def go(c, xsh=xsh, m=m, da=da, db=db, sa=sa, k=k):
                w = World(ip, c, m, xsh)
                a, ga = w.operand('a', (), da if m else 0, sa)
                if db:
                  b, gb = w.operand('b', (), db if m else 0, 'exact')
                else:
                  p = pt_cell(k, 'b')
                  b, gb = (arr0(V(p)),), np.array(p, object)
                r = w.m('divide', a, b)
                try:
                  w.judge(r, emap(lambda x, y: x * gm.fn_value('pow(-1)', y, m), ga, gb),
                          'divide')
                except Violation:
                  # computed without the elementwise rule
                  w.judge(r, emap(lambda x, y: x * y.inv(), ga, gb), 'divide')
              check(report, G, 'T-divide', 'TaylorEnclosureArithmetic.divide',
                    f'x{xsh} max={m} deg {da},{db} {sa} over exact {k}', go, ip)


def pb_matmul(u, v, p, q):
  """pairwise batched matrix-vector product (u: [n,k]+I, v: [k]+J)."""
  u, v = d.as_arr(u), d.as_arr(v)
  r = d.a_tensordot(u, v, ([1], [0]))        # n, I, J
  return r


def pb_dot_mult(u, v, p, q):
  u, v = d.as_arr(u), d.as_arr(v)
  uu = d.a_reshape(u, u.shape + (1,) * q)
  nb = v.ndim - q
  vv = d.a_reshape(v, v.shape[:nb] + (1,) * p + v.shape[nb:])
  return d.a_mul(uu, vv)


def run_bilinear(report):
  G = 'te.bilinear'
  ip = make_interp(report)
  thorough = report.tier != 'quick'
  for opn, pb, sa_, sb_, ref in (
      ('multiply', pb_dot_mult, (2,), (2,), lambda a, b: emap(lambda x, y: x * y, a, b)),
      ('matvec', pb_matmul, (1, 2), (2,),
       lambda a, b: np.array([[a[i, 0] * b[0] + a[i, 1] * b[1]]
                              for i in range(a.shape[0])], object).reshape(a.shape[0]))):
    nat = Native(pb)
    for xsh in XS + ((1,), (1, 1), (2, 1), (1, 1, 1)):
      top = 2 if xsh in XS or len(xsh) > 2 else 3
      for m in (0, 1, 2, 3):
        for da in range(0, top + 1):
          for db in range(0, top + 1):
            if xsh in ((2,), (2, 1)) and (da + db > 3 or m > 2):
              continue
            for sa, sb in (('last', 'last'), ('exact', 'last'), ('last', 'exact'),
                           ('exact', 'exact')):
              def go(c, nat=nat, sa_=sa_, sb_=sb_, ref=ref, xsh=xsh, m=m, da=da,
                     db=db, sa=sa, sb=sb):
                w = World(ip, c, m, xsh)
                a, ga = w.operand('a', sa_, da, sa)
                b, gb = w.operand('b', sb_, db, sb)
                low = min(low_exact(sa, da, m), low_exact(sb, db, m))
                if da + db > m:
                  low = min(low, m)
                w.judge(w.m('arbitrary_bilinear', a, b, nat), ref(ga, gb),
                        'arbitrary_bilinear', exact_below=low)
              check(report, G, 'T-bilinear',
                    'TaylorEnclosureArithmetic.arbitrary_bilinear',
                    f'{opn} x{xsh} max={m} deg {da},{db} {sa},{sb}', go, ip)


def run_compose(report):
  G = 'te.compose'
  ip = make_interp(report)
  thorough = report.tier != 'quick'
  for xsh in XS:
    for m in (0, 1, 2, 3):
      for da in (0, 1, 2, 3):
        if xsh and (m > 2 or da > 2 or m * da > 2):
          continue
        for style in ('exact', 'last'):
          for batch in ((), (2,)):
            if xsh and batch and m * da > 1:
              continue
            # composition with an arbitrary elementwise enclosure
            for de in range(0, m + 1):
              def go(c, xsh=xsh, m=m, da=da, style=style, batch=batch, de=de):
                w = World(ip, c, m, xsh)
                a, ga = w.operand('a', batch, da, style)
                if da == 0 and style == 'last' and m:
                  return
                g0 = need_ghosts(a[0], 'a')
                e, ge = [], []
                for k in range(de + 1):
                  p, g = (interval_array if k == de else atoms_array)(f'e{k}', batch)
                  e.append(p)
                  ge.append(g)
                want = emap(lambda x: rat(0), ga)
                for k in range(de + 1):
                  want = emap(lambda s, q, y, y0, k=k: s + q * (y - y0).pow(k)
                              if k else s + q, want, ge[k], ga, g0)
                if style == 'last' and da == 0:
                  want = emap(lambda q: q, np.broadcast_to(ge[0], ga.shape))
                low = min(de, da if style == 'last' else 10**6)
                w.judge(w.m('compose_enclosures', tuple(e), a), want,
                        'compose_enclosures', exact_below=low)
              check(report, G, 'T-compose',
                    'TaylorEnclosureArithmetic.compose_enclosures',
                    f'x{xsh} max={m} deg {da} {style} batch{batch} elementwise {de}',
                    go, ip)
            def go2(c, xsh=xsh, m=m, da=da, style=style, batch=batch):
              w = World(ip, c, m, xsh)
              if da == 0 and style == 'last' and m:
                return
              if m == 0 and da > 0:
                return
              a, ga = w.operand('a', batch, da, style)
              calls = []
              def gen(x0, region, degree, npl):
                calls.append(1)
                if npl is not w.np:
                  raise Violation('the generator gets another back end')
                return gm.contract_enclosure('f', x0, region, degree)
              fun = w.m('get_elementwise_fun', Native(gen))
              want = emap(lambda y: gm.fn_value('f', y, m), ga)
              low = min(m, da if style == 'last' else 10**6)
              w.judge(ip.call(fun, [a], {}), want, 'get_elementwise_fun',
                      exact_below=low)
              # an explicitly supplied region
              reg = w.f('enclose_enclosure', a, w.tr, 0, w.np)[0]
              w.judge(ip.call(fun, [a, reg], {}), want,
                      'get_elementwise_fun (given region)', exact_below=low)
            check(report, G, 'T-elementwise',
                  'TaylorEnclosureArithmetic.get_elementwise_fun',
                  f'x{xsh} max={m} deg {da} {style} batch{batch}', go2, ip)
  # a batch of functions of a vector, both of the same or of different sizes
  for m, da, de, xsh, batch in ((2, 1, 2, (2,), (2,)), (2, 1, 1, (2,), (2,)),
                                (1, 1, 2, (2,), (2,)), (2, 2, 1, (2,), (2,)),
                                (2, 1, 2, (1,), (2,)), (2, 1, 2, (2,), (1,)),
                                (2, 1, 2, (1,), (1,)), (1, 1, 1, (2,), (2, 2)),
                                (1, 1, 1, (3,), (3,)), (1, 1, 1, (2,), (3,))):
    for style in ('exact', 'last'):
      def go(c, xsh=xsh, m=m, da=da, style=style, batch=batch, de=de):
        w = World(ip, c, m, xsh)
        a, ga = w.operand('a', batch, da, style)
        g0 = need_ghosts(a[0], 'a')
        e, want = [], emap(lambda x: rat(0), ga)
        for k in range(de + 1):
          p, g = (interval_array if k == de else atoms_array)(f'e{k}', batch)
          e.append(p)
          want = emap(lambda s, q, y, y0, k=k: s + q * (y - y0).pow(k) if k else s + q,
                      want, g, ga, g0)
        w.judge(w.m('compose_enclosures', tuple(e), a), want, 'compose_enclosures')
      check(report, G, 'T-compose', 'TaylorEnclosureArithmetic.compose_enclosures',
            f'x{xsh} max={m} deg {da} {style} batch{batch} elementwise {de}, sizes',
            go, ip)
  # the leading coefficient of an argument is an interval: bounded or rejected
  for xsh in ((), (2,)):
    for m in (1, 2):
      for da in (0, 1, 2):
        for region in (False, True):
          if xsh and m + da > 2:
            continue
          def go(c, xsh=xsh, m=m, da=da, region=region):
            w = World(ip, c, m, xsh)
            a, ga = w.operand('a', (), da, 'all')
            fun = w.m('get_elementwise_fun', Native(
                lambda x0, reg, degree, npl: gm.contract_enclosure('f', x0, reg, degree)))
            args = [a] + ([w.f('enclose_enclosure', a, w.tr, 0, w.np)[0]] if region else [])
            try:
              res = ip.call(fun, args, {})
            except PyExc:
              return
            w.judge(res, emap(lambda y: gm.fn_value('f', y, m), ga),
                    'get_elementwise_fun (interval leading coefficient)')
          check(report, G, 'T-elementwise',
                'TaylorEnclosureArithmetic.get_elementwise_fun',
                f'x{xsh} max={m} deg {da} all, given region {region}', go, ip)
  # elementwise enclosures of degree above the maximum
  for m in (0, 1, 2):
    for da in (0, 1, 2):
      for de in (m + 1, m + 2, m + 3, m + 4, m + 5):
        if da * de > 8:
          continue
        def go(c, m=m, da=da, de=de):
          w = World(ip, c, m, ())
          a, ga = w.operand('a', (), da, 'exact')
          g0 = need_ghosts(a[0], 'a')
          e, want = [], emap(lambda x: rat(0), ga)
          for k in range(de + 1):
            p, g = (interval_array if k == de else atoms_array)(f'e{k}', ())
            e.append(p)
            want = emap(lambda s, q, y, y0, k=k: s + q * (y - y0).pow(k), want, g,
                        ga, g0)
          w.judge(w.m('compose_enclosures', tuple(e), a), want, 'compose_enclosures')
        check(report, G, 'T-compose', 'TaylorEnclosureArithmetic.compose_enclosures',
              f'max={m} deg {da} elementwise {de} above the maximum', go, ip)
  def go(c):
    w = World(ip, c, 1, ())
    a, _ = w.operand('a', (), 1, 'exact')
    expect_raises(lambda: w.m('compose_enclosures', (), a), None)
  check(report, G, 'T-compose', 'TaylorEnclosureArithmetic.compose_enclosures',
        'empty elementwise enclosure', go, ip)


def run_eval(report):
  """Evaluating enclosures and plain polynomials."""
  G = 'poly.eval'
  ip = make_interp(report)
  P = 'autobound.polynomials'
  f = lambda name, *a, **k: ip.call(ip.mod_attr(P, name), list(a), k)
  npm = ip.models['backend']
  for xsh in XS + ((1, 2),):
    for deg in range(0, 8 if xsh == () else 6):
      if len(xsh) == 2 and deg > 2:
        continue
      for batch in ((), (2,), (2, 1)):
        if deg > 2 and batch == (2, 1) or deg > 3 and batch and xsh:
          continue
        for style in ('exact', 'last', 'all'):
          for zi in (True, False):
            def go(c, xsh=xsh, deg=deg, batch=batch, style=style, zi=zi):
              w = World(ip, c, deg, xsh)
              a, ga = w.operand('a', batch, deg, style)
              z = w.tr
              if not zi:
                z, zr = atoms_array('zz', xsh)
                sub = {next(iter(w.z[i].atoms())): zr[i] for i in np.ndindex(xsh)}
                ga = emap(lambda r: r.subs(sub), ga)
              r = f('eval_taylor_enclosure', a, z, npm)
              same_rats(need_ghosts(r, 'eval_taylor_enclosure'), ga,
                        'eval_taylor_enclosure')
              if style == 'exact' and not zi and isinstance(r, tuple):
                soft('form', 'exact enclosure at an exact point gives an interval')
            check(report, G, 'P-eval-taylor', 'eval_taylor_enclosure',
                  f'x{xsh} deg {deg} batch{batch} {style} z-interval={zi}', go, ip)
  # one object as several coefficients
  for deg in (1, 2, 3):
    for batch in ((), (2,)):
      for zi in (True, False):
        def go(c, deg=deg, batch=batch, zi=zi):
          w = World(ip, c, deg, ())
          a, _ = w.operand('a', batch, 0, 'all' if deg > 1 else 'exact')
          g = need_ghosts(a[0], 'a')
          z = w.tr if zi else atoms_array('zz', ())[0]
          zv = need_ghosts(z, 'z')
          want = emap(lambda q: q, g)
          for k in range(1, deg + 1):
            want = emap(lambda s, q, y, k=k: s + q * y.pow(k), want, g,
                        np.broadcast_to(zv, g.shape))
          for fn in ('eval_taylor_enclosure', 'eval_elementwise_taylor_enclosure'):
            same_rats(need_ghosts(f(fn, a * (deg + 1), z, npm), fn), want, fn)
        check(report, G, 'P-eval-taylor', 'eval_taylor_enclosure',
              f'deg {deg} batch{batch} z-interval={zi}, all coefficients one object', go, ip)
  for deg in range(0, 8):
    for shape in ((), (2,), (2, 1)):
      if shape == (2, 1) and deg > 2:
        continue
      for style in ('exact', 'last'):
        for zi in (True, False):
          def go(c, deg=deg, shape=shape, style=style, zi=zi):
            (z, gz) = (interval_array if zi else atoms_array)('z', shape)
            e, want = [], emap(lambda q: rat(0), gz)
            for k in range(deg + 1):
              p, g = (interval_array if k == deg and style == 'last' else
                      atoms_array)(f'e{k}', shape)
              e.append(p)
              want = emap(lambda s, q, y, k=k: s + q * y.pow(k) if k else s + q,
                          want, g, gz)
            r = f('eval_elementwise_taylor_enclosure', tuple(e), z, npm)
            same_rats(need_ghosts(r, 'eval_elementwise_taylor_enclosure'), want,
                      'eval_elementwise_taylor_enclosure')
          check(report, G, 'P-eval-elementwise', 'eval_elementwise_taylor_enclosure',
                f'deg {deg} shape{shape} {style} z-interval={zi}', go, ip)


def run_polyalg(report):
  """Polynomial algebra with its default (scalar) callables and custom ones."""
  G = 'poly.algebra'
  ip = make_interp(report)
  P = 'autobound.polynomials'
  f = lambda name, *a, **k: ip.call(ip.mod_attr(P, name), list(a), k)
  thorough = report.tier != 'quick'
  top = 5 if thorough else 4
  def coefs(nm, n):
    return [arr0(V(rat(new_atom(f'{nm}{i}')))) for i in range(n)]
  def poly_in(z, cs):
    s = rat(0)
    for k, v in enumerate(cs):
      v = d.to_v(v.data[()] if isinstance(v, AArray) else v)
      if not v.is_exact():
        raise Unsupported('coefficient is not exact')
      s = s + v.ex * z.pow(k) if k else s + v.ex
    return s
  for na in range(1, top + 1):
    for nb in range(1, top + 1):
      def go(c, na=na, nb=nb):
        z = rat(new_atom('z'))
        a, b = coefs('a', na), coefs('b', nb)
        r = f('arbitrary_bilinear', a, b)
        if len(r) != na + nb - 1:
          raise Violation(f'product of lengths {na},{nb} has length {len(r)}')
        if poly_in(z, r) != poly_in(z, a) * poly_in(z, b):
          raise Violation('product polynomial is wrong')
      check(report, G, 'P-bilinear', 'polynomials.arbitrary_bilinear', f'{na}x{nb}',
            go, ip)
  for na in range(1, top + 1):
    for n in range(0, 11):
      if (na - 1) * n > (12 if not thorough else 18):
        continue
      def go(c, na=na, n=n):
        z = rat(new_atom('z'))
        a = coefs('a', na)
        r = f('integer_power', a, n)
        if len(r) != (na - 1) * n + 1:
          raise Violation(f'power {n} of length {na} has length {len(r)}')
        want = rat(1)
        for _ in range(n):
          want = want * poly_in(z, a)
        if poly_in(z, [v if isinstance(v, V) else d.to_v(v) if not isinstance(v, AArray)
                       else v for v in r]) != want:
          raise Violation('power polynomial is wrong')
      check(report, G, 'P-power', 'polynomials.integer_power', f'len {na} ^{n}', go, ip)
  def go(c):
    expect_raises(lambda: f('integer_power', coefs('a', 2), -1), ('ValueError',))
  check(report, G, 'P-power', 'polynomials.integer_power', 'negative exponent', go, ip)
  # an operation that does not commute, with its own addition and zero
  for na in range(1, 10):
    for nb in range(1, 10):
      def go(c, na=na, nb=nb):
        def prod(x, y, i, j):
          if x != ('a', i) or y != ('b', j):
            raise Violation(f'term_product_coefficient gets {x}, {y} with degrees '
                            f'{i}, {j}')
          return frozenset([(i, j)])
        def add(x, y):
          x, y = (frozenset() if v is None else v for v in (x, y))
          if x & y:
            raise Violation('a term is added twice')
          return x | y
        r = f('arbitrary_bilinear', [('a', i) for i in range(na)],
              [('b', j) for j in range(nb)], Native(add), None, Native(prod))
        want = [frozenset((i, k - i) for i in range(na) if 0 <= k - i < nb)
                for k in range(na + nb - 1)]
        if [frozenset() if v is None else v for v in r] != want:
          raise Violation(f'terms {r}, expected {want}')
      check(report, G, 'P-bilinear', 'polynomials.arbitrary_bilinear',
            f'custom operations {na}x{nb}', go, ip)
  # the callables are really used: monoid of formal degree-tagged coefficients
  for na in range(1, 10):
    for n in range(0, 9):
      if (na - 1) * n > (9 if na < 5 else 16 if na < 8 else 24):
        continue
      def go(c, na=na, n=n):
        z = rat(new_atom('z'))
        at = [rat(new_atom(f'a{i}')) for i in range(na)]
        t = rat(new_atom('t'))   # scaling used by the custom callables
        # coefficients are (value, degree); op carries degrees along
        def add(x, y):
          if x is None:
            return y
          if x[1] != y[1]:
            raise Violation('adds coefficients of different degree')
          return (x[0] + y[0], x[1])
        def prod(x, y, i, j):
          if x[1] != i or y[1] != j:
            raise Violation('term_product_coefficient gets wrong degrees')
          return (x[0] * y[0], i + j)
        def power(x, i, e):
          if x[1] != i:
            raise Violation('term_power_coefficient gets a wrong degree')
          return (x[0].pow(e), i * e)
        def scal(k, x):
          return (rat(_as_int(k)) * x[0], x[1])
        a = [(v, i) for i, v in enumerate(at)]
        r = f('integer_power', a, n, add=Native(add), additive_identity=None,
              multiplicative_identity=(rat(1), 0), term_product_coefficient=Native(prod),
              term_power_coefficient=Native(power), scalar_product=Native(scal))
        got = rat(0)
        for k, v in enumerate(r):
          if v is None:
            continue
          if v[1] != k:
            raise Violation('coefficient has the wrong degree')
          got = got + v[0] * (z.pow(k) if k else rat(1))
        base = rat(0)
        for k, v in enumerate(at):
          base = base + v * (z.pow(k) if k else rat(1))
        want = rat(1)
        for _ in range(n):
          want = want * base
        if got != want:
          raise Violation('power polynomial is wrong')
      check(report, G, 'P-power', 'polynomials.integer_power',
            f'custom operations len {na} ^{n}', go, ip)
  # one object as several coefficients
  for n in range(2, 7):
    for same in ({0, 1}, {0, n - 1}, {1, n - 1}, set(range(n))):
      if max(same) >= n:
        continue
      def go(c, n=n, same=same):
        z = rat(new_atom('z'))
        cs = coefs('a', n)
        cs = [cs[min(same)] if k in same else cs[k] for k in range(n)]
        r = f('arbitrary_bilinear', cs, cs)
        if poly_in(z, r) != poly_in(z, cs) * poly_in(z, cs):
          raise Violation('product polynomial is wrong')
        r = f('integer_power', cs, 2)
        if poly_in(z, r) != poly_in(z, cs) * poly_in(z, cs):
          raise Violation('square polynomial is wrong')
        rs = [rat(new_atom(f'b{k}')) for k in range(n)]
        rs = [rs[min(same)] if k in same else rs[k] for k in range(n)]
        r = f('eval_polynomial', rs, z, Native(lambda x, y: x * rat(_as_r(y))),
              Native(lambda x, k: x.pow(k)),
              Native(lambda x, y: rat(_as_r(x)) + rat(_as_r(y))), rat(0), rat(1))
        want = rat(0)
        for k, v in enumerate(rs):
          want = want + (v * z.pow(k) if k else v)
        if rat(_as_r(r)) != want:
          raise Violation('polynomial value is wrong')
      check(report, G, 'P-eval', 'polynomials', f'{n} terms, {sorted(same)} are one object',
            go, ip)
  # eval_polynomial over arbitrary callables
  for n in range(0, 9):
    def go(c, n=n):
      z = rat(new_atom('z'))
      cs = [rat(new_atom(f'a{i}')) for i in range(n)]
      r = f('eval_polynomial', cs, z, Native(lambda x, y: x * rat(_as_r(y))),
            Native(lambda x, k: x.pow(k)), Native(lambda x, y: rat(_as_r(x)) + rat(_as_r(y))),
            rat(0), rat(1))
      want = rat(0)
      for k, v in enumerate(cs):
        want = want + (v * z.pow(k) if k else v)
      if rat(_as_r(r)) != want:
        raise Violation('polynomial value is wrong')
    check(report, G, 'P-eval', 'polynomials.eval_polynomial', f'{n} terms', go, ip)


def _as_int(k):
  if isinstance(k, AArray):
    k = k.data[()]
  if isinstance(k, V):
    k = k.ex.const_value()
  return int(k)


def _as_r(x):
  if isinstance(x, AArray):
    x = x.data[()]
  if isinstance(x, V):
    return x.ex
  return x


def run_helpers(report):
  G = 'te.helpers'
  ip = make_interp(report)
  f = lambda name, *a, **k: ip.call(ip.mod_attr(MOD, name), list(a), k)
  for shape in ((), (2,), (2, 3)):
    for n in (0, 1, 2):
      for axis in (None,) + tuple(range(len(shape) + 1)):
        def go(c, shape=shape, n=n, axis=axis):
          a, ra = atoms_array('a', shape)
          r = d.as_arr(f('expand_multiple_dims', a, n, *([] if axis is None else [axis])))
          k = len(shape) if axis is None else axis
          want = ra.reshape(shape[:k] + (1,) * n + shape[k:])
          if r.shape != want.shape:
            raise Violation(f'shape {r.shape}, expected {want.shape}')
          same_rats(arr_to_rats(r), want, 'expand_multiple_dims')
        check(report, G, 'T-expand', 'expand_multiple_dims', f'{shape} {n} {axis}', go, ip)
  def go(c):
    iv, g = interval_array('i', (2,))
    a, ra = atoms_array('a', (2,))
    r = f('map_over_enclosure', (a, iv), Native(lambda t: d.a_mul(t, 2)))
    if len(r) != 2 or isinstance(r[0], tuple) or not isinstance(r[1], tuple):
      raise Violation('map_over_enclosure changes the structure')
    same_rats(need_ghosts(r[0], 'c0'), emap(lambda x: x * rat(2), ra), 'map')
    same_rats(need_ghosts(r[1], 'c1'), emap(lambda x: x * rat(2), g), 'map')
    r = f('as_taylor_enclosure', (a, iv), ip.models['backend'])
    same_rats(need_ghosts(r[0], 'c0'), ra, 'as_taylor_enclosure')
    same_rats(need_ghosts(r[1], 'c1'), g, 'as_taylor_enclosure')
  check(report, G, 'T-map', 'map_over_enclosure', 'structure', go, ip)


def _value_at(res, zv, what):
  """Bounds of a returned enclosure (batch shape ()) at a vertex of the region."""
  lo, hi = V(rat(0)), V(rat(0))
  for k, cf in enumerate(res):
    pair = cf if isinstance(cf, tuple) else (cf, cf)
    if len(pair) != 2:
      raise Violation(f'{what}: coefficient {k} is not an interval')
    cl, cu = d.as_arr(pair[0]), d.as_arr(pair[1])
    shape = zv.shape * k
    if cl.shape != shape or cu.shape != shape:
      raise Violation(f'{what}: coefficient {k} has shape {cl.shape}, expected {shape}')
    for j in np.ndindex(shape):
      f = rat(1)
      for e in range(k):
        f = f * zv[j[e * zv.ndim:(e + 1) * zv.ndim]]
      sg = rat_sign(f, ctx().facts)
      if sg <= {0}:
        continue
      l, u = d.to_v(cl.data[j]), d.to_v(cu.data[j])
      if not sg <= {0, 1}:
        if not sg <= {0, -1}:
          raise Unsupported('sign of a power of x-x0')
        l, u = u, l
      lo = d.v_add(lo, d.v_mul(l, V(f)))
      hi = d.v_add(hi, d.v_mul(u, V(f)))
  return lo, hi


def run_cells(report):
  """Without summaries: every operand in sign cells, both layers analysed."""
  G = 'te.cells'
  from .interval import Operand
  thorough = report.tier != 'quick'
  ip = core_interp()
  report.interps.append(ip)
  cls = ip.mod_attr(MOD, 'TaylorEnclosureArithmetic')
  npm = ip.models['backend']

  def enclosure(nm, kinds, xsh):
    """kinds: per coefficient (kind, is interval)."""
    ops = [Operand(np.full(xsh * i, k, object), f'{nm}{i}', iv)
           for i, (k, iv) in enumerate(kinds)]
    return tuple(o.value for o in ops), ops

  def values(ops, zv):
    """All attained values of the enclosed polynomials at the vertex zv."""
    terms = [(rat(1), o.verts[i + ()], i, k) for k, o in enumerate(ops)
             for i in np.ndindex(o.shape)]
    out = []
    for pick in itertools.product(*[t[1] for t in terms]):
      s = rat(0)
      for (_, _, i, k), v in zip(terms, pick):
        for e in range(k):
          v = v * zv[i[e * zv.ndim:(e + 1) * zv.ndim]]
        s = s + v
      out.append(s)
    return out

  def vertices(region):
    choices = [region.verts[i] + ((rat(0),) if region.kinds[i] == 'mixed' else ())
               for i in np.ndindex(region.shape)]
    for pick in itertools.product(*choices):
      z = np.empty(region.shape, object)
      z.reshape(-1)[:] = pick
      yield z

  def case(rule, construct, label, region_kinds, encs, m, call, ref):
    def go(c):
      region = Operand(region_kinds, 'z', True)
      built = [enclosure(nm, kinds, region.shape) for nm, kinds in zip('ab', encs)]
      ar = ip.call(cls, [m, region.value, npm], {})
      res = call(ar, *[b[0] for b in built])
      if not isinstance(res, tuple):
        raise Violation(f'{construct}: the result is not an enclosure')
      if len(res) > m + 1:
        soft('form', f'{construct}: degree {len(res) - 1} exceeds the maximum {m}')
      for zv in vertices(region):
        lo, hi = _value_at(res, zv, construct)
        for pick in itertools.product(*[values(b[1], zv) for b in built]):
          g = ref(*pick)
          require_le(lo, g, construct)
          require_ge(hi, g, construct)
    check(report, G, rule, construct, label, go, ip)

  meth = lambda nm: (lambda ar, *a: ip.call(ip.getattr(ar, nm), list(a), {}))
  trunc = lambda m: (lambda ar, a: ip.call(
      ip.mod_attr(MOD, 'enclose_enclosure'), [a, ip.getattr(ar, 'trust_region'), m, npm], {}))
  pt = lambda *ks: [(k, False) for k in ks]
  some = ('pos', 'mixed', 'neg')
  for rk in KINDS:
    for m in (0, 1):
      for deg in (1, 2, 3):
        if deg <= m:
          continue
        for last in some:
          low = pt(*('neg', 'pos', 'neg')[:deg])
          case('T-truncate', 'enclose_enclosure', f'x-x0 {rk} max={m} deg {deg} {last}',
               rk, [low + [(last, True)]], m, trunc(m), lambda a: a)
        case('T-truncate', 'enclose_enclosure', f'x-x0 {rk} max={m} deg {deg} exact',
             rk, [pt(*('pos', 'neg', 'pos', 'neg')[:deg + 1])], m, trunc(m), lambda a: a)
    for name, f in (('multiply', lambda a, b: a * b), ('add', lambda a, b: a + b),
                    ('subtract', lambda a, b: a - b)):
      for m, da, db in ((0, 1, 0), (0, 1, 1), (1, 1, 1), (1, 2, 0), (0, 0, 0)):
        for la, lb in itertools.product(some, repeat=2) if name == 'multiply' else (
            ('mixed', 'pos'), ('neg', 'mixed')):
          for ea in (False, True):
            if ea and la == 'mixed':
              continue
            both = m == 0 and da + db > 1
            if both and not (ea and lb != 'mixed' and rk != 'mixed'):
              continue
            a = pt(*('pos', 'neg')[:da]) + [(la, not ea)]
            b = pt(*('neg', 'pos')[:db]) + [(lb, not both)]
            case('T-' + name, f'TaylorEnclosureArithmetic.{name}',
                 f'x-x0 {rk} max={m} deg {da},{db} {"exact" if ea else ""} {la} {lb}',
                 rk, [a, b], m, meth(name), f)
    for n, m, da in ((2, 0, 1), (2, 1, 1), (3, 1, 1), (3, 0, 0), (2, 0, 0), (2, 2, 1)):
      for la in some:
        if rk == la == 'mixed' and m == 0 and da:
          continue
        case('T-power', 'TaylorEnclosureArithmetic.power',
             f'x-x0 {rk} max={m} deg {da} {la} ^{n}', rk,
             [pt(*('pos', 'neg')[:da]) + [(la, True)]], m,
             lambda ar, a, n=n: ip.call(ip.getattr(ar, 'power'), [a, n], {}),
             lambda a, n=n: a.pow(n))
  for rk in itertools.product(some, repeat=2):
    for m, deg in ((0, 1), (0, 2), (1, 2)):
      for last in some:
        if deg == 2 and rk == ('mixed', 'mixed'):
          continue
        low = pt(*('neg', 'pos')[:deg])
        case('T-truncate', 'enclose_enclosure', f'x-x0 {rk} max={m} deg {deg} {last}',
             np.array(rk, object), [low + [(last, deg < 2 or last == 'mixed')]]
             if last != 'mixed' or deg < 2 else [low + [('pos', True)]],
             m, trunc(m), lambda a: a)


GROUPS = {'te.linear': run_linear, 'te.cells': run_cells, 'te.multiply': run_multiply,
          'te.power': run_power, 'te.bilinear': run_bilinear,
          'te.compose': run_compose, 'te.helpers': run_helpers,
          'poly.eval': run_eval, 'poly.algebra': run_polyalg}
