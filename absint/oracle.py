"""Reference facts about the elementwise functions, derived independently.

sigma^(k) is a polynomial in s = sigmoid(x) because sigma' = s (1 - s); the
extrema of a derivative are the sign changes of the next one.  Only Python
floats and bisection are used; nothing here looks at /repo.
"""

import functools
import math
from fractions import Fraction


@functools.lru_cache(None)
def sig_poly(k):
  """Coefficients of P_k with sigma^(k) = P_k(s)."""
  p = [Fraction(0), Fraction(1)]
  for _ in range(k):
    dp = [Fraction(i) * c for i, c in enumerate(p)][1:]
    out = [Fraction(0)] * (len(dp) + 2)
    for i, c in enumerate(dp):
      out[i + 1] += c
      out[i + 2] -= c
    p = out
  return p


@functools.lru_cache(None)
def sig_q(k):
  """Q_k with P_k = s (1-s) Q_k, k >= 1."""
  p = sig_poly(k)[1:]          # divide by s
  # divide by (1 - s): synthetic division of p by -(s - 1)
  q = []
  rem = Fraction(0)
  for c in reversed(p):
    rem = c + rem
    q.append(rem)
  assert q[-1] == 0, q
  q = q[:-1]
  return [-c for c in reversed(q)]


def _ev(p, s):
  r = 0.0
  for c in reversed(p):
    r = r * s + float(c)
  return r


def sigmoid(x):
  if x >= 0:
    return 1 / (1 + math.exp(-x))
  e = math.exp(x)
  return e / (1 + e)


def sig_deriv(k, x):
  s = sigmoid(x)
  if k == 0:
    return s
  # s(1-s) computed without cancellation
  e = math.exp(-abs(x))
  return e / (1 + e) ** 2 * _ev(sig_q(k), s)


def value(name, k, x):
  """f^(k)(x) for the named function."""
  if name == 'exp':
    return math.exp(x)
  if name == 'log':
    if k == 0:
      return math.log(x)
    return (-1) ** (k - 1) * math.factorial(k - 1) * x ** (-k)
  if name == 'abs':
    return abs(x) if k == 0 else (0.0 if x == 0 else math.copysign(1, x))
  if name == 'sigmoid':
    return sig_deriv(k, x)
  if name == 'softplus':
    if k == 0:
      return math.log1p(math.exp(-abs(x))) + max(x, 0.0)
    return sig_deriv(k - 1, x)
  if name == 'swish':
    if k == 0:
      return x * sigmoid(x)
    return k * sig_deriv(k - 1, x) + x * sig_deriv(k, x)
  raise KeyError(name)


def _scaled_sign(name, k, x):
  """A function with the sign of f^(k)(x), free of underflow (k >= 1)."""
  s = sigmoid(x)
  if name == 'sigmoid':
    return _ev(sig_q(k), s) if k else 1.0
  if name == 'softplus':
    return _scaled_sign('sigmoid', k - 1, x) if k else 1.0
  if name == 'swish':
    if k == 1:
      # sigma + x s (1-s) = s (1 + x (1-s))
      return 1 + x * sigmoid(-x)
    return k * _ev(sig_q(k - 1), s) + x * _ev(sig_q(k), s)
  raise KeyError(name)


@functools.lru_cache(None)
def extrema(name, k):
  """(minima, maxima) of f^(k): sign changes of f^(k+1)."""
  if name in ('exp', 'log'):
    return (), ()
  if name == 'abs':
    return ((0.0,), ()) if k == 0 else ((), ())
  g = lambda x: _scaled_sign(name, k + 1, x)
  mins, maxs = [], []
  step = 1 / 128
  n = int(40 / step)
  off = step * 0.37123
  xs = [i * step + off for i in range(-n, n)]
  px, pv = xs[0], g(xs[0])
  for x in xs[1:]:
    v = g(x)
    if v == 0 or (v > 0) != (pv > 0):
      a, b = px, x
      up = v > pv
      for _ in range(200):
        m = (a + b) / 2
        if m in (a, b):
          break
        w = g(m)
        if (w > 0) == (pv > 0) and w != 0:
          a = m
        else:
          b = m
      (mins if up else maxs).append((a + b) / 2)
    px, pv = x, v
  return tuple(mins), tuple(maxs)


def monotone(name, k):
  """+1 increasing on the whole domain, -1 decreasing, 0 neither."""
  if name == 'exp':
    return 1
  if name == 'log':
    return 1 if k % 2 == 0 else -1
  if name == 'abs':
    return 1 if k == 1 else 0
  mi, ma = extrema(name, k)
  if mi or ma:
    return 0
  return 1 if _scaled_sign(name, k + 1, 0.3) > 0 else -1


def even(name, k):
  if name in ('exp', 'log'):
    return False
  return all(abs(value(name, k, x) - value(name, k, -x)) <=
             1e-9 * (1 + abs(value(name, k, x))) for x in (0.1, 0.7, 1.9, 3.3))


def domain_lo(name):
  return 0.0 if name == 'log' else -math.inf


def limits(name, k):
  """Limits of f^(k) at the ends of its domain."""
  if name == 'exp':
    return 0.0, math.inf
  if name == 'log':
    if k == 0:
      return -math.inf, math.inf
    return (math.inf if k % 2 else -math.inf), 0.0
  if name == 'abs':
    return (math.inf, math.inf) if k == 0 else (-1.0, 1.0)
  if name == 'sigmoid':
    return (0.0, 1.0) if k == 0 else (0.0, 0.0)
  if name == 'softplus':
    return ((0.0, math.inf), (0.0, 1.0))[k] if k < 2 else (0.0, 0.0)
  if name == 'swish':
    return ((0.0, math.inf), (0.0, 1.0))[k] if k < 2 else (0.0, 0.0)
  raise KeyError(name)
