"""Exact rational functions over interned atoms.

The abstract domains of this analysis value-number array elements by rational
functions with rational coefficients.  An atom stands for a run-time quantity
the analysis does not know (an input element, an interval end point, the value
of a transcendental function ...).  Atoms carry a numeric range, which is the
only thing ever used to decide the sign of an expression.
"""

from fractions import Fraction
import math

_INF = math.inf
_P = (1 << 61) - 1  # modulus used only for hash buckets; equality is exact.


class Atom:
  __slots__ = ('id', 'name', 'lo', 'hi', 'lo_open', 'hi_open', 'meta', 'fp')
  _next = [0]

  def __init__(self, name, lo=-_INF, hi=_INF, lo_open=False, hi_open=False,
               meta=None):
    self.id = Atom._next[0]
    Atom._next[0] += 1
    self.name = name
    self.lo, self.hi = lo, hi
    self.lo_open, self.hi_open = lo_open, hi_open
    self.meta = meta
    # deterministic pseudo random bucket value
    self.fp = (pow(1103515245, self.id + 7, _P) * 12345 + 99991 * (self.id + 1)
               ) % _P

  def __repr__(self):
    return self.name


def new_atom(name, lo=-_INF, hi=_INF, lo_open=False, hi_open=False, meta=None):
  return Atom(name, lo, hi, lo_open, hi_open, meta)


def _num(c):
  if isinstance(c, (int, Fraction)):
    return c
  raise TypeError(c)


class Poly:
  """Sparse polynomial: dict monomial -> coefficient.

  A monomial is a tuple of (atom, exponent) sorted by atom id; exponents are
  ints or Fractions (possibly negative only inside Rat normalisation).
  """
  __slots__ = ('t', '_h')

  def __init__(self, t):
    self.t = t
    self._h = None

  @staticmethod
  def const(c):
    return Poly({(): c} if c != 0 else {})

  @staticmethod
  def atom(a):
    return Poly({((a, 1),): 1})

  def is_const(self):
    return not self.t or (len(self.t) == 1 and () in self.t)

  def const_value(self):
    return self.t.get((), 0)

  def __add__(self, o):
    if not o.t:
      return self
    if not self.t:
      return o
    r = dict(self.t)
    for m, c in o.t.items():
      s = r.get(m, 0) + c
      if s == 0:
        r.pop(m, None)
      else:
        r[m] = s
    return Poly(r)

  def __neg__(self):
    return Poly({m: -c for m, c in self.t.items()})

  def __sub__(self, o):
    return self + (-o)

  def scale(self, c):
    if c == 0:
      return ZERO
    if c == 1:
      return self
    return Poly({m: v * c for m, v in self.t.items()})

  def __mul__(self, o):
    if not self.t or not o.t:
      return ZERO
    if o.is_const():
      return self.scale(o.const_value())
    if self.is_const():
      return o.scale(self.const_value())
    r = {}
    for m1, c1 in self.t.items():
      for m2, c2 in o.t.items():
        m = mono_mul(m1, m2)
        s = r.get(m, 0) + c1 * c2
        if s == 0:
          r.pop(m, None)
        else:
          r[m] = s
    return Poly(r)

  def __eq__(self, o):
    return isinstance(o, Poly) and self.t == o.t

  def __hash__(self):
    if self._h is None:
      self._h = hash(frozenset(self.t.items()))
    return self._h

  def atoms(self):
    s = set()
    for m in self.t:
      for a, _ in m:
        s.add(a)
    return s

  def fp(self):
    """Fingerprint modulo a prime (hash bucket only); None if fractional exps."""
    tot = 0
    for m, c in self.t.items():
      v = (c.numerator * pow(c.denominator, _P - 2, _P)
           if isinstance(c, Fraction) else c) % _P
      for a, e in m:
        if isinstance(e, Fraction):
          if e.denominator != 1:
            # treat a**(1/d) as an independent quantity
            base = (a.fp * 31 + e.denominator * 1000003) % _P
            e = e.numerator
            v = v * pow(base, e % (_P - 1), _P) % _P
            continue
          e = e.numerator
        v = v * pow(a.fp, e % (_P - 1), _P) % _P
      tot = (tot + v) % _P
    return tot

  def __repr__(self):
    if not self.t:
      return '0'
    parts = []
    for m, c in sorted(self.t.items(), key=lambda mc: [(a.id, e) for a, e in mc[0]]):
      ms = '*'.join(a.name if e == 1 else f'{a.name}^{e}' for a, e in m)
      if not ms:
        parts.append(_fmt(c))
      elif c == 1:
        parts.append(ms)
      elif c == -1:
        parts.append('-' + ms)
      else:
        parts.append(f'{_fmt(c)}*{ms}')
    return ' + '.join(parts).replace('+ -', '- ')


def _fmt(c):
  if isinstance(c, Fraction) and c.denominator > 10**6:
    return repr(float(c))
  return str(c)


def mono_mul(m1, m2):
  if not m1:
    return m2
  if not m2:
    return m1
  out = []
  i = j = 0
  n1, n2 = len(m1), len(m2)
  while i < n1 and j < n2:
    a1, e1 = m1[i]
    a2, e2 = m2[j]
    if a1 is a2:
      e = e1 + e2
      if e != 0:
        if isinstance(e, Fraction) and e.denominator == 1:
          e = int(e)
        out.append((a1, e))
      i += 1
      j += 1
    elif a1.id < a2.id:
      out.append(m1[i])
      i += 1
    else:
      out.append(m2[j])
      j += 1
  out.extend(m1[i:])
  out.extend(m2[j:])
  return tuple(out)


ZERO = Poly({})
ONE = Poly({(): 1})


def _mono_gcd(p, q=None):
  """Largest monomial dividing every term of p (and q)."""
  best = None
  polys = [p] if q is None else [p, q]
  for pol in polys:
    for m in pol.t:
      d = dict(m)
      if best is None:
        best = d
      else:
        for a in set(best) | set(d):
          e = min(best.get(a, 0), d.get(a, 0))
          if e == 0:
            best.pop(a, None)
          else:
            best[a] = e
  return best or {}


def _mono_div(p, mono):
  inv = tuple(sorted(((a, -e) for a, e in mono.items()), key=lambda t: t[0].id))
  return Poly({mono_mul(m, inv): c for m, c in p.t.items()})


class Rat:
  """num/den with monomial content removed (equality is exact)."""
  __slots__ = ('num', 'den', '_h')

  def __init__(self, num, den=ONE, normal=False):
    if not normal and den is not ONE and not (den.t == ONE.t):
      if not den.t:
        raise ZeroDivisionError
      if not num.t:
        den = ONE
      elif den.is_const():
        num = num.scale(Fraction(1) / den.const_value())
        den = ONE
      else:
        g = _mono_gcd(num, den)
        if g:
          num, den = _mono_div(num, g), _mono_div(den, g)
        if den.is_const():
          num = num.scale(Fraction(1) / den.const_value())
          den = ONE
        else:
          # exact proportionality
          if len(num.t) == len(den.t):
            m0 = next(iter(den.t))
            if m0 in num.t:
              r = Fraction(num.t[m0]) / den.t[m0]
              if num == den.scale(r):
                num, den = Poly.const(r), ONE
    elif not normal:
      # negative exponents possible in num -> move to den
      pass
    if den.t == ONE.t and any(e < 0 for m in num.t for _, e in m):
      neg = {}
      for m in num.t:
        for a, e in m:
          if e < 0:
            neg[a] = max(neg.get(a, 0), -e)
      mono = tuple(sorted(neg.items(), key=lambda t: t[0].id))
      den = Poly({mono: 1})
      num = Poly({mono_mul(m, mono): c for m, c in num.t.items()})
    self.num, self.den = num, den
    self._h = None

  @staticmethod
  def const(c):
    return Rat(Poly.const(c), ONE, True)

  @staticmethod
  def atom(a):
    return Rat(Poly.atom(a), ONE, True)

  def is_poly(self):
    return self.den.t == ONE.t

  def is_const(self):
    return self.is_poly() and self.num.is_const()

  def const_value(self):
    return self.num.const_value()

  def is_zero(self):
    return not self.num.t

  def __add__(self, o):
    if self.is_poly() and o.is_poly():
      return Rat(self.num + o.num, ONE, True)
    if self.den == o.den:
      return Rat(self.num + o.num, self.den)
    return Rat(self.num * o.den + o.num * self.den, self.den * o.den)

  def __neg__(self):
    return Rat(-self.num, self.den, True)

  def __sub__(self, o):
    return self + (-o)

  def __mul__(self, o):
    if self.is_poly() and o.is_poly():
      return Rat(self.num * o.num)
    if self.num == o.den:
      return Rat(o.num, self.den)
    if o.num == self.den:
      return Rat(self.num, o.den)
    return Rat(self.num * o.num, self.den * o.den)

  def inv(self):
    if not self.num.t:
      raise ZeroDivisionError
    return Rat(self.den, self.num)

  def __truediv__(self, o):
    if o.is_const():
      c = o.const_value()
      if c == 0:
        raise ZeroDivisionError
      return Rat(self.num.scale(Fraction(1) / c), self.den, True)
    return self * o.inv()

  def __eq__(self, o):
    if not isinstance(o, Rat):
      return NotImplemented
    if self.den == o.den:
      return self.num == o.num
    return (self.num * o.den) == (o.num * self.den)

  def __hash__(self):
    if self._h is None:
      d = self.den.fp()
      self._h = self.num.fp() * pow(d, _P - 2, _P) % _P if d else 0
    return self._h

  def pow(self, n):
    """n int (any sign) or Fraction (only for single positive monomials)."""
    if isinstance(n, Fraction) and n.denominator == 1:
      n = int(n)
    if isinstance(n, int):
      if n < 0:
        return self.inv().pow(-n)
      r = Rat.const(1)
      for _ in range(n):
        r = r * self
      return r
    # fractional power: only monomials c*prod(atom^e) with c a perfect power
    if len(self.num.t) == 1 and len(self.den.t) == 1:
      def root(p):
        (m, c), = p.t.items()
        if c != 1:
          return None
        return Poly({tuple((a, e * n) for a, e in m): 1})
      a, b = root(self.num), root(self.den)
      if a is not None and b is not None:
        return Rat(a, b)
    return None

  def atoms(self):
    return self.num.atoms() | self.den.atoms()

  def subs(self, mapping):
    """mapping: Atom -> Rat."""
    if not (self.atoms() & set(mapping)):
      return self
    def sub(p):
      tot = Rat.const(0)
      for m, c in p.t.items():
        term = Rat.const(c)
        for a, e in m:
          base = mapping.get(a)
          f = (base if base is not None else Rat.atom(a)).pow(e)
          term = term * f
        tot = tot + term
      return tot
    n, d = sub(self.num), sub(self.den)
    return n / d

  def __repr__(self):
    if self.is_poly():
      return repr(self.num)
    return f'({self.num!r})/({self.den!r})'


def rat(x):
  if isinstance(x, Rat):
    return x
  if isinstance(x, bool):
    return Rat.const(int(x))
  if isinstance(x, (int, Fraction)):
    return Rat.const(x)
  if isinstance(x, Poly):
    return Rat(x)
  if isinstance(x, Atom):
    return Rat.atom(x)
  raise TypeError(type(x))


# ---------------------------------------------------------------------------
# Signs.  A Signs object is a cell: the ranges of atoms plus a set of linear
# facts p >= 0 (or p > 0).
# ---------------------------------------------------------------------------


class Facts:
  """Facts p >= 0 / p > 0 recorded by canonical form (positive scaling)."""

  def __init__(self):
    self.pos = {}   # canonical poly -> 'ge' | 'gt'
    self.linear = []
    self.lb = {}    # poly of definite sign -> (sign, least magnitude)

  def magnitude(self, p):
    """(sign, m) with sign*p >= m > 0 on the whole cell, or None."""
    r = self.lb.get(p)
    if r is not None:
      return r
    lo, hi, _, _ = poly_range(p)
    if lo > 0:
      return 1, lo
    if hi < 0:
      return -1, -hi
    return None

  def product(self, p, q, pq):
    """Records the sign and least magnitude of pq = p * q when known."""
    if pq in self.lb or len(self.lb) > 200:
      return
    a = self.magnitude(p)
    b = a and self.magnitude(q)
    if not b or a[1] == _INF or b[1] == _INF:
      return
    s, m = a[0] * b[0], Fraction(a[1]) * Fraction(b[1])
    self.lb[pq] = (s, m)
    self.add((pq if s > 0 else -pq) - Poly.const(m))

  @staticmethod
  def canon(p):
    if not p.t:
      return p
    m0 = min(p.t, key=lambda m: [(a.id, e) for a, e in m])
    c = p.t[m0]
    return p.scale(Fraction(1) / abs(c))

  def add(self, r, strict=False):
    p = Facts.canon(r.num if isinstance(r, Rat) else r)
    if self.pos.get(p) != 'gt':
      self.pos[p] = 'gt' if strict else 'ge'
    self.linear.append((p, strict))


NEG, ZER, POS = -1, 0, 1


def _mul_iv(a, b):
  """Product of two (lo,hi,lo_open,hi_open) ranges."""
  def prod(x, y):
    if x == 0 or y == 0:
      return 0
    return x * y
  cands = []
  for (x, xo) in ((a[0], a[2]), (a[1], a[3])):
    for (y, yo) in ((b[0], b[2]), (b[1], b[3])):
      v = prod(x, y)
      # value attained unless an involved non-zero end is open
      if v == 0:
        open_ = (x == 0 and xo and (y != 0 or yo)) or (y == 0 and yo and (x != 0 or xo))
        if x == 0 and y == 0:
          open_ = xo and yo
        elif x == 0:
          open_ = xo
        else:
          open_ = yo
      else:
        open_ = xo or yo
      cands.append((v, open_))
  lo = min(v for v, _ in cands)
  hi = max(v for v, _ in cands)
  lo_open = all(o for v, o in cands if v == lo)
  hi_open = all(o for v, o in cands if v == hi)
  # zero may be attained strictly inside a factor
  if lo == 0 and ((a[0] < 0 < a[1]) or (b[0] < 0 < b[1])):
    lo_open = False
  if hi == 0 and ((a[0] < 0 < a[1]) or (b[0] < 0 < b[1])):
    hi_open = False
  return (lo, hi, lo_open, hi_open)


def _pow_iv(a, e):
  lo, hi, lop, hop = a
  if isinstance(e, Fraction) and e.denominator != 1:
    if lo < 0:
      return (-_INF, _INF, True, True)
    return (float(lo) ** float(e) if lo not in (0, _INF) else lo,
            float(hi) ** float(e) if hi not in (0, _INF) else hi, lop, hop)
  e = int(e)
  if e == 0:
    return (1, 1, False, False)
  def p(v):
    if v in (_INF, -_INF):
      return _INF if (v > 0 or e % 2 == 0) else -_INF
    return v ** e
  if e % 2 == 1:
    return (p(lo), p(hi), lop, hop)
  if lo >= 0:
    return (p(lo), p(hi), lop, hop)
  if hi <= 0:
    return (p(hi), p(lo), hop, lop)
  u, v = p(lo), p(hi)
  if u > v:
    return (0, u, False, lop)
  if v > u:
    return (0, v, False, hop)
  return (0, u, False, lop and hop)


def poly_range(p):
  lo = hi = 0
  lo_open = hi_open = False
  for m, c in p.t.items():
    r = (1, 1, False, False)
    for a, e in m:
      r = _mul_iv(r, _pow_iv((a.lo, a.hi, a.lo_open, a.hi_open), e))
    if c < 0:
      r = (-r[1], -r[0], r[3], r[2])
      c = -c
    lo = lo + (r[0] * c if r[0] != 0 else 0)
    hi = hi + (r[1] * c if r[1] != 0 else 0)
    lo_open = lo_open or r[2]
    hi_open = hi_open or r[3]
  return lo, hi, lo_open, hi_open


def poly_sign(p, facts=None):
  """Returns subset of {-1,0,1} the sign can take, as a frozenset."""
  if not p.t:
    return frozenset((0,))
  if p.is_const():
    c = p.const_value()
    return frozenset((1 if c > 0 else -1,))
  s = {-1, 0, 1}
  g = _mono_gcd(p)
  # factor out common monomial: sign = sign(mono) * sign(rest)
  if g:
    rest = _mono_div(p, g)
    ms = _mono_sign(g)
    rs = poly_sign(rest, facts)
    s &= {a * b for a in ms for b in rs}
  lo, hi, lop, hop = poly_range(p)
  if lo > 0 or (lo == 0 and lop):
    s &= {1}
  elif lo == 0:
    s &= {0, 1}
  if hi < 0 or (hi == 0 and hop):
    s &= {-1}
  elif hi == 0:
    s &= {0, -1}
  if facts is not None and facts.pos:
    f = facts.pos.get(Facts.canon(p))
    if f:
      s &= {1} if f == 'gt' else {0, 1}
    f = facts.pos.get(Facts.canon(-p))
    if f:
      s &= {-1} if f == 'gt' else {0, -1}
    if len(s) == 3 or (len(s) == 2):
      # one fact plus a remainder of definite sign (p = k*fact + rest)
      for q, strict in facts.linear:
        for sg in (1, -1):
          pp = p if sg == 1 else -p
          for m in list(q.t)[:3]:
            if m in pp.t:
              k = Fraction(pp.t[m]) / q.t[m]
              if k > 0:
                rest = pp - q.scale(k)
                if len(rest.t) < len(pp.t):
                  rs = poly_sign(rest, None)
                  if rs <= {0, 1}:
                    if strict or rs == {1}:
                      s &= {sg}
                    else:
                      s &= {0, sg}
                    break
  return frozenset(s)


def _mono_sign(mono):
  s = {1}
  for a, e in mono.items():
    r = _pow_iv((a.lo, a.hi, a.lo_open, a.hi_open), e)
    f = set()
    if r[0] < 0:
      f.add(-1)
    if r[1] > 0:
      f.add(1)
    if (r[0] < 0 < r[1]) or (r[0] == 0 and not r[2]) or (r[1] == 0 and not r[3]):
      f.add(0)
    s = {x * y for x in s for y in f}
  return frozenset(s)


def rat_sign(r, facts=None):
  n = poly_sign(r.num, facts)
  if r.is_poly():
    return n
  d = poly_sign(r.den, facts) - {0}
  return frozenset(a * b for a in n for b in d)
