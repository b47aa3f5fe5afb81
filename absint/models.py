"""Models of the standard library and of a numpy-like back end."""

from fractions import Fraction
import itertools
import math
import operator
import os

import numpy as np

from . import domain as d
from .domain import AArray, B, V, Unsupported, ctx, exact
from .interp import (REPO, AvalOf, BType, DCField, DType, IBound, IClass, IFunc,
                     IInst, Interp, IPartial, Native, NModule, Property, PyExc,
                     TypingObj, INTERP, _MISSING)
import ast


def I():
  return INTERP[-1]


# ---------------------------------------------------------------------------
# standard library
# ---------------------------------------------------------------------------


def _partial(f, *a, **k):
  return IPartial(f, a, k)


def _reduce(f, it, *init):
  it = list(I().iterate(it))
  if init:
    acc = init[0]
  else:
    if not it:
      raise TypeError('reduce() of empty sequence with no initial value')
    acc, it = it[0], it[1:]
  for x in it:
    acc = I().call(f, [acc, x], {})
  return acc


def _wraps(f):
  return Native(lambda g: g)


def _lru_cache(*a, **k):
  def deco(f):
    ctx().event('memo', 'function cache')
    return f
  if a and isinstance(a[0], IFunc):
    return a[0]
  return Native(deco)


def _dataclass(*args, **kw):
  def deco(c):
    fields = []
    for k in reversed(c.mro()[1:]):
      if k.fields:
        fields += [f for f in k.fields if f not in fields]
    fields += [f for f in c.own_ann if f not in fields]
    c.fields = fields
    c.dc = dict(kw)
    return c
  if args:
    return deco(args[0])
  return Native(deco)


def _dc_replace(o, **kw):
  vals = {f: o.attrs[f] for f in o.cls.fields}
  vals.update(kw)
  return I().call(o.cls, [], vals)


def _op(opcls):
  return Native(lambda a, b: I().binop(opcls, a, b))


def _cmp(opcls):
  return Native(lambda a, b: I().compare_op(opcls, a, b))


def _accumulate(it, func=None, initial=None):
  out = []
  acc = initial
  for x in I().iterate(it):
    if acc is None and not out:
      acc = x
    else:
      acc = (I().binop(ast.Add, acc, x) if func is None
             else I().call(func, [acc, x], {}))
    out.append(acc)
  if initial is not None:
    out = [initial] + out
  return iter(out)


def _iseq(fn):
  def f(*its, **k):
    return iter(list(fn(*[list(I().iterate(i)) for i in its], **k)))
  return Native(f)


def _intfn(fn):
  def f(*a):
    for x in a:
      if isinstance(x, AArray):
        ctx().event('concretize', 'math function applied to an array')
        raise TypeError('math function on array')
    a = [int(x) if isinstance(x, Fraction) and x.denominator == 1 else x for x in a]
    return fn(*a)
  return Native(f)


def _floatfn(name):
  def f(*a):
    for x in a:
      if isinstance(x, AArray):
        ctx().event('concretize', 'math function applied to an array')
    raise Unsupported('math.' + name)
  return Native(f)


def _itemgetter(*ks):
  return Native(lambda o: I().getitem(o, ks[0]) if len(ks) == 1 else
                tuple(I().getitem(o, k) for k in ks))


def _attrgetter(n):
  return Native(lambda o: I().getattr(o, n))


def _defaultdict(factory=None, *a):
  class DD(dict):
    def __missing__(self, k):
      if factory is None:
        raise KeyError(k)
      self[k] = I().call(factory, [], {})
      return self[k]
  return DD(*a)


def _groupby(it, key=None):
  out = []
  for x in I().iterate(it):
    k = x if key is None else I().call(key, [x], {})
    if out and I().truth(I().compare_op(ast.Eq, out[-1][0], k)):
      out[-1][1].append(x)
    else:
      out.append((k, [x]))
  return iter([(k, iter(v)) for k, v in out])


def _islice(it, *a):
  return iter(list(itertools.islice(I().iterate(it), *a)))


def _takewhile(f, it):
  out = []
  for x in I().iterate(it):
    if not I().truth(I().call(f, [x], {})):
      break
    out.append(x)
  return iter(out)


def _dropwhile(f, it):
  out = []
  dropping = True
  for x in I().iterate(it):
    if dropping and I().truth(I().call(f, [x], {})):
      continue
    dropping = False
    out.append(x)
  return iter(out)


def stdlib_models():
  typing_names = NModule('typing', {})
  typing_names.missing = lambda name: TypingObj(name)
  typing_names.attrs.update(
      NewType=Native(lambda n, t: Native(lambda x: x, n)),
      TypeVar=Native(lambda *a, **k: TypingObj('TypeVar')),
      cast=Native(lambda t, x: x),
      TYPE_CHECKING=False,
      NamedTuple=TypingObj('NamedTuple'),
      overload=Native(lambda f: f), final=Native(lambda f: f),
      runtime_checkable=Native(lambda f: f),
      Protocol=TypingObj('Protocol'), Generic=TypingObj('Generic'))
  te = NModule('typing_extensions', dict(typing_names.attrs))
  te.missing = typing_names.missing
  cabc = NModule('collections.abc', {})
  cabc.missing = typing_names.missing
  m = {
      'typing': typing_names,
      'typing_extensions': te,
      'collections.abc': cabc,
      'abc': NModule('abc', {
          'abstractmethod': Native(lambda f: f), 'ABC': TypingObj('ABC'),
          'ABCMeta': TypingObj('ABCMeta')}),
      '__future__': NModule('__future__', {'annotations': None}),
      'functools': NModule('functools', {
          'partial': Native(_partial, 'partial'),
          'reduce': Native(_reduce, 'reduce'),
          'wraps': Native(_wraps, 'wraps'),
          'lru_cache': Native(_lru_cache), 'cache': Native(_lru_cache),
          'cmp_to_key': Native(lambda f: (_ for _ in ()).throw(
              Unsupported('cmp_to_key')))}),
      'itertools': NModule('itertools', {
          'chain': Native(lambda *its: iter([x for i in its for x in I().iterate(i)]),
                          'chain', {'from_iterable': Native(
                              lambda it: iter([x for i in I().iterate(it)
                                               for x in I().iterate(i)]))}),
          'product': _iseq(itertools.product),
          'zip_longest': _iseq(itertools.zip_longest),
          'combinations': Native(lambda it, r: iter(list(
              itertools.combinations(list(I().iterate(it)), r)))),
          'combinations_with_replacement': Native(lambda it, r: iter(list(
              itertools.combinations_with_replacement(list(I().iterate(it)), r)))),
          'permutations': Native(lambda it, *r: iter(list(
              itertools.permutations(list(I().iterate(it)), *r)))),
          'pairwise': _iseq(itertools.pairwise),
          'accumulate': Native(_accumulate),
          'repeat': Native(lambda x, n=None: itertools.repeat(x) if n is None
                           else iter([x] * n)),
          'count': Native(lambda *a: itertools.count(*a)),
          'starmap': Native(lambda f, it: iter(
              [I().call(f, list(I().iterate(a)), {}) for a in I().iterate(it)])),
          'islice': Native(_islice), 'takewhile': Native(_takewhile),
          'dropwhile': Native(_dropwhile), 'groupby': Native(_groupby)}),
      'math': NModule('math', {
          'factorial': _intfn(math.factorial), 'comb': _intfn(math.comb),
          'perm': _intfn(math.perm), 'gcd': _intfn(math.gcd),
          'prod': Native(lambda it, start=1: _reduce(_op(ast.Mult), it, start)),
          'floor': _intfn(math.floor), 'ceil': _intfn(math.ceil),
          'trunc': _intfn(math.trunc),
          'isinf': Native(lambda x: isinstance(x, float) and math.isinf(x)),
          'isnan': Native(lambda x: isinstance(x, float) and math.isnan(x)),
          'isfinite': Native(lambda x: not isinstance(x, float) or math.isfinite(x)),
          'isclose': Native(lambda a, b, rel_tol=Fraction(1, 10**9), abs_tol=0: I().truth(
              d.a_cmp('le')(_abs(d.a_sub(a, b)), d.a_max(
                  d.a_mul(rel_tol, d.a_max(_abs(a), _abs(b))), abs_tol)))),
          'copysign': Native(lambda a, b: abs(a) if b >= 0 else -abs(a)),
          'fabs': Native(abs),
          'inf': math.inf, 'nan': math.nan,
          'pi': Fraction(repr(math.pi)), 'e': Fraction(repr(math.e)),
          **{n: _floatfn(n) for n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tanh',
                                      'log1p', 'pow', 'gamma', 'lgamma')}}),
      'operator': NModule('operator', {
          'add': _op(ast.Add), 'sub': _op(ast.Sub), 'mul': _op(ast.Mult),
          'truediv': _op(ast.Div), 'pow': _op(ast.Pow),
          'and_': _op(ast.BitAnd), 'or_': _op(ast.BitOr),
          'matmul': _op(ast.MatMult), 'floordiv': _op(ast.FloorDiv),
          'mod': _op(ast.Mod),
          'lt': _cmp(ast.Lt), 'le': _cmp(ast.LtE), 'gt': _cmp(ast.Gt),
          'ge': _cmp(ast.GtE), 'eq': _cmp(ast.Eq), 'ne': _cmp(ast.NotEq),
          'is_': Native(lambda a, b: I().is_(a, b)),
          'not_': Native(lambda a: not I().truth(a)),
          'neg': Native(lambda a: d.a_neg(a) if isinstance(a, AArray) else -a),
          'index': Native(operator.index),
          'contains': Native(lambda c, x: I().contains(c, x)),
          'getitem': Native(lambda o, k: I().getitem(o, k)),
          'itemgetter': Native(_itemgetter),
          'attrgetter': Native(_attrgetter)}),
      'dataclasses': NModule('dataclasses', {
          'dataclass': Native(_dataclass, 'dataclass'),
          'field': Native(lambda **k: DCField(k.get('default', _MISSING),
                                              k.get('default_factory'))),
          'replace': Native(_dc_replace),
          'astuple': Native(lambda o: tuple(o.attrs[f] for f in o.cls.fields)),
          'fields': Native(lambda o: (_ for _ in ()).throw(
              Unsupported('dataclasses.fields')))}),
      'types': NModule('types', {
          'FunctionType': BType('function', lambda v: isinstance(v, IFunc) or
                                getattr(v, 'is_pyfunction', False), None),
          'MethodType': BType('method', lambda v: isinstance(v, IBound), None),
          'ModuleType': BType('module', lambda v: False, None),
          'MappingProxyType': BType('mappingproxy', lambda v: False, lambda x: x),
          'SimpleNamespace': Native(lambda **k: _sns(k))}),
      'collections': NModule('collections', {
          'defaultdict': BType('defaultdict', lambda v: False, _defaultdict),
          'OrderedDict': BType('OrderedDict', lambda v: isinstance(v, dict),
                               lambda x=(): dict(x)),
          'deque': BType('deque', lambda v: False, lambda x=(): list(I().iterate(x))),
          'Counter': BType('Counter', lambda v: False, _counter),
          'namedtuple': Native(lambda *a, **k: (_ for _ in ()).throw(
              Unsupported('namedtuple')))}),
      'copy': NModule('copy', {
          'copy': Native(lambda x: list(x) if isinstance(x, list) else (
              dict(x) if isinstance(x, dict) else x)),
          'deepcopy': Native(lambda x: x)}),
      'numbers': NModule('numbers', {
          'Number': BType('Number', lambda v: isinstance(v, (int, Fraction)), None),
          'Real': BType('Real', lambda v: isinstance(v, (int, Fraction)), None),
          'Integral': BType('Integral', lambda v: isinstance(v, int), None)}),
      'string': NModule('string', {
          'ascii_lowercase': 'abcdefghijklmnopqrstuvwxyz',
          'ascii_uppercase': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ',
          'ascii_letters': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'}),
      'warnings': NModule('warnings', {'warn': Native(lambda *a, **k: None)}),
      'logging': NModule('logging', {}),
      'enum': NModule('enum', {'Enum': TypingObj('Enum'),
                               'auto': Native(lambda: object())}),
  }
  for k in ('logging',):
    m[k].missing = lambda name: Native(lambda *a, **kk: None)
  return m


def _sns(k):
  c = IClass('SimpleNamespace', [], {}, None, 'types.SimpleNamespace')
  o = IInst(c)
  o.attrs.update(k)
  return o


def _counter(it=()):
  r = {}
  for x in I().iterate(it):
    r[x] = r.get(x, 0) + 1
  return r


# ---------------------------------------------------------------------------
# numpy-like back end
# ---------------------------------------------------------------------------


def _shape_arg(s):
  if isinstance(s, AArray):
    raise TypeError('array used as shape')
  if isinstance(s, int):
    return (s,)
  return tuple(int(x) for x in s)


def _dt(dtype, default):
  if dtype is None:
    return default
  if isinstance(dtype, DType):
    return dtype.kind
  n = getattr(dtype, 'name', str(dtype))
  if 'float' in n:
    return 'f'
  if 'int' in n:
    return 'i'
  if 'bool' in n:
    return 'b'
  return default


def _axis_reduce(pair):
  def f(a, axis=None, keepdims=False, **k):
    a = d.as_arr(a)
    axes = tuple(range(a.ndim)) if axis is None else (
        (axis % a.ndim,) if isinstance(axis, int) else tuple(x % a.ndim for x in axis))
    keep = [i for i in range(a.ndim) if i not in axes]
    data = np.transpose(a.data, keep + list(axes))
    ks = tuple(a.shape[i] for i in keep)
    data = data.reshape(ks + (-1,))
    out = np.empty(ks, object)
    for i in np.ndindex(ks):
      acc = None
      for e in data[i]:
        acc = e if acc is None else pair(acc, e)
      out[i] = acc
    if keepdims:
      out = out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    return AArray(out, a.dtype, a.dtype == 'b' and a.literal)
  return f


def expand_dims(a, axis):
  a = d.as_arr(a)
  axes = (axis,) if isinstance(axis, int) else tuple(axis)
  n = a.ndim + len(axes)
  axes = sorted(x % n for x in axes)
  data = a.data
  for x in axes:
    data = np.expand_dims(data, x)
  return AArray(data, a.dtype)


def matmul(a, b):
  a, b = d.as_arr(a), d.as_arr(b)
  if a.ndim == 0 or b.ndim == 0:
    raise ValueError('matmul: scalar operand')
  if a.ndim <= 2 and b.ndim <= 2:
    return d.a_tensordot(a, b, ([a.ndim - 1], [max(0, b.ndim - 2)]))
  raise Unsupported('batched matmul')


def clip(a, lo=None, hi=None, *r, a_min=None, a_max=None, min=None, max=None):
  lo = next((x for x in (lo, a_min, min) if x is not None), None)
  hi = next((x for x in (hi, a_max, max) if x is not None), None)
  r = d.as_arr(a)
  if lo is not None:
    r = d.a_max(lo, r)
  if hi is not None:
    r = d.a_min(hi, r)
  return r


def _squeeze(a, axis=None):
  a = d.as_arr(a)
  if axis is None:
    return AArray(np.squeeze(a.data), a.dtype)
  axes = (axis,) if isinstance(axis, int) else tuple(axis)
  return AArray(np.squeeze(a.data, axes) if axes else a.data, a.dtype)


def _stack(arrs, axis=0):
  arrs = [d.as_arr(x) for x in I().iterate(arrs)]
  datas = [a.data for a in arrs]
  out = np.stack([np.asarray(x, object) for x in datas], axis)
  return AArray(out, arrs[0].dtype)


def _concat(arrs, axis=0):
  arrs = [d.as_arr(x) for x in I().iterate(arrs)]
  return AArray(np.concatenate([a.data for a in arrs], axis), arrs[0].dtype)


def _eye(n, m=None, *a, **k):
  m = n if m is None or not isinstance(m, int) else m
  out = np.empty((n, m), object)
  for i in range(n):
    for j in range(m):
      out[i, j] = exact(1 if i == j else 0)
  return AArray(out, 'f')


def _arange(*a, **k):
  if any(isinstance(x, AArray) for x in a):
    raise TypeError('array in arange')
  vals = list(range(*a))
  return d.as_arr(vals) if vals else AArray(np.empty((0,), object), 'i')


def _asarray(a, dtype=None, **k):
  r = d.as_arr(a)
  if dtype is not None:
    return _astype(r, dtype)
  return AArray(r.data, r.dtype, r.literal, True)


def _array(a, dtype=None, copy=True, **k):
  r = _asarray(a, dtype)
  return AArray(r.data.copy(), r.dtype, r.literal, True) if copy is True else r


def _astype(a, t):
  a = d.as_arr(a)
  k = _dt(t, a.dtype)
  if k == a.dtype or k == 'f':
    return AArray(np.vectorize(d.to_v, otypes=[object])(a.data) if a.dtype == 'b'
                  and a.size else a.data, k, a.literal)
  if k == 'i' and a.dtype == 'b':
    return d.ew(lambda e: d.to_v(e), a, dtype='i')
  if k == 'b':
    return d.ew(d.to_b, a, dtype='b')
  # float -> int truncates
  def trunc(e):
    e = d.to_v(e)
    if e.is_exact() and e.ex.is_const():
      return exact(int(e.ex.const_value()))
    return d.V()
  return d.ew(trunc, a, dtype='i')


def _unary(fn):
  return lambda a, *r, **k: d.ew(lambda e: fn(d.to_v(e)), a, dtype='f')


def _sqrt(e):
  return d.v_pow(e, Fraction(1, 2))


def _tanh(e):
  t = d.v_exp(d.v_mul(exact(2), e))
  return d.v_div(d.v_add(t, exact(-1)), d.v_add(t, exact(1)))


def _outer(a, b):
  a, b = d.as_arr(a), d.as_arr(b)
  return d.a_tensordot(d.a_reshape(a, (-1,)), d.a_reshape(b, (-1,)), 0)


def _select(conds, vals, default=0):
  r = d.as_arr(default)
  for c, v in reversed(list(zip(I().iterate(conds), I().iterate(vals)))):
    r = d.a_where(c, v, r)
  return r


def _where(c, *xy):
  if len(xy) != 2:
    raise Unsupported('one-argument where')
  return d.a_where(c, *xy)


def _isinst_arr(v):
  return isinstance(v, AArray)


def array_equal(a, b, **k):
  """Equality of exact arrays; distinct symbols denote distinct values."""
  a, b = d.as_arr(a), d.as_arr(b)
  if a.shape != b.shape:
    return False
  for x, y in zip(a.data.reshape(-1), b.data.reshape(-1)):
    x, y = d.to_v(x), d.to_v(y)
    if not (x.is_exact() and y.is_exact()):
      raise Unsupported('array_equal of non-exact values')
    if not x.ex == y.ex:
      return False
  return True


def _abs(a):
  return d.ew(lambda e: d.v_abs(d.to_v(e)), a)


def _step(f, nm):
  """A piecewise constant function, of known numbers only."""
  def g(e):
    e = d.to_v(e)
    if e.is_inf():
      return e
    if e.is_exact() and e.ex.is_const():
      return exact(f(Fraction(e.ex.const_value())))
    raise Unsupported(nm + ' of an unknown value')
  return _unary(g)


def _nan_to_num(a, *r, nan=0, posinf=None, neginf=None, **k):
  big = Fraction(10) ** 38
  def f(e):
    e = d.to_v(e)
    if e.ex == 'nan':
      return d.to_v(nan)
    if e.ex == 'inf':
      return exact(big) if posinf is None else d.to_v(posinf)
    if e.ex == '-inf':
      return exact(-big) if neginf is None else d.to_v(neginf)
    if e.ex is None:
      raise Unsupported('nan_to_num of an unknown value')
    return e
  return d.ew(f, a)


def _scan(pair):
  def f(a, axis=None, **k):
    a = d.as_arr(a)
    data = a.data.reshape(-1) if axis is None else np.moveaxis(a.data, axis, 0)
    out = np.empty(data.shape, object)
    for i in range(data.shape[0]):
      for j in np.ndindex(data.shape[1:]):
        e = data[(i,) + j]
        out[(i,) + j] = e if not i else pair(out[(i - 1,) + j], e)
    return AArray(out if axis is None else np.moveaxis(out, 0, axis), a.dtype)
  return f


def _diff(a, n=1, axis=-1, **k):
  a = d.as_arr(a)
  for _ in range(n):
    data = np.moveaxis(a.data, axis, 0)
    a = d.a_sub(AArray(np.array(np.moveaxis(data[1:], 0, axis), object), a.dtype),
                AArray(np.array(np.moveaxis(data[:-1], 0, axis), object), a.dtype))
  return a


def _atleast(n):
  def f(*arrs):
    out = []
    for a in arrs:
      a = d.as_arr(a)
      if a.ndim < n:
        shape = {1: (1,), 2: (1,) + a.shape if a.ndim else (1, 1)}[n]
        a = d.a_reshape(a, shape)
      out.append(a)
    return out[0] if len(out) == 1 else out
  return f


def _take(a, idx, axis=None, **k):
  a, i = d.as_arr(a), d.as_arr(idx)
  ints = np.empty(i.shape, int)
  for j in np.ndindex(i.shape):
    e = d.to_v(i.data[j])
    if not (e.is_exact() and e.ex.is_const()):
      raise Unsupported('take at unknown positions')
    ints[j] = int(e.ex.const_value())
  return AArray(np.array(np.take(a.data, ints, axis), object), a.dtype)


def _tri(keep):
  def f(a, k=0):
    a = d.as_arr(a)
    out = np.array(a.data, object)
    for i in np.ndindex(a.shape):
      if not keep(i[-2], i[-1], k):
        out[i] = exact(0)
    return AArray(out, a.dtype)
  return f


def np_model(name='numpy'):
  n = {}

  def reg(names, fn):
    for x in names.split():
      n[x] = Native(fn, x)

  reg('add', lambda a, b, **k: d.a_add(a, b))
  reg('subtract', lambda a, b, **k: d.a_sub(a, b))
  reg('multiply', lambda a, b, **k: d.a_mul(a, b))
  reg('divide true_divide', lambda a, b, **k: d.a_div(a, b))
  reg('negative', lambda a, **k: d.a_neg(a))
  reg('positive', lambda a, **k: _array(a))
  reg('maximum fmax', lambda a, b, **k: d.a_max(a, b))
  reg('minimum fmin', lambda a, b, **k: d.a_min(a, b))
  reg('abs absolute fabs', lambda a, **k: d.ew(lambda e: d.v_abs(d.to_v(e)), a))
  reg('sign', lambda a, **k: d.ew(lambda e: d.v_signfn(d.to_v(e)), a))
  reg('where', _where)
  reg('select', _select)
  reg('logical_and bitwise_and', lambda a, b: d.ew(d.b_and, a, b, dtype='b'))
  reg('logical_or bitwise_or', lambda a, b: d.ew(d.b_or, a, b, dtype='b'))
  reg('logical_not invert bitwise_not', lambda a: d.ew(d.b_not, a, dtype='b'))
  reg('logical_xor', lambda a, b: d.ew(
      lambda x, y: d.b_or(d.b_and(x, d.b_not(y)), d.b_and(d.b_not(x), y)),
      a, b, dtype='b'))
  for nm, op in (('less', 'lt'), ('less_equal', 'le'), ('greater', 'gt'),
                 ('greater_equal', 'ge'), ('equal', 'eq'), ('not_equal', 'ne')):
    reg(nm, d.a_cmp(op))
  reg('exp', _unary(d.v_exp))
  reg('expm1', _unary(lambda e: d.v_add(d.v_exp(e), exact(-1))))
  reg('log', _unary(d.v_log))
  reg('log1p', _unary(lambda e: d.v_log(d.v_add(exact(1), e))))
  reg('sqrt', _unary(_sqrt))
  reg('cbrt', _unary(lambda e: d.v_pow(e, Fraction(1, 3))))
  reg('square', _unary(lambda e: d.v_mul(e, e)))
  reg('reciprocal', _unary(lambda e: d.v_div(exact(1), e)))
  reg('tanh', _unary(_tanh))
  reg('power float_power', lambda a, b: d.a_pow(a, b))
  reg('clip', clip)
  reg('asarray', _asarray)
  reg('asanyarray ascontiguousarray', _asarray)
  reg('array copy', _array)
  reg('ones_like', lambda a, **k: d.fill(d.as_arr(a).shape, exact(1), d.as_arr(a).dtype))
  reg('zeros_like', lambda a, **k: d.fill(d.as_arr(a).shape, exact(0), d.as_arr(a).dtype))
  def full(shape, v, dtype=None, **k):
    a = d.as_arr(v)
    return AArray(np.array(np.broadcast_to(a.data, _shape_arg(shape)), object), a.dtype)
  reg('full', full)
  reg('full_like', lambda a, v, **k: full(d.as_arr(a).shape, v))
  reg('ones', lambda s=(), *a, **k: d.fill(_shape_arg(s), exact(1)))
  reg('zeros empty', lambda s=(), *a, **k: d.fill(_shape_arg(s), exact(0)))
  reg('eye', _eye)
  reg('identity', lambda k, **kw: _eye(k))
  reg('diag', d.a_diag)
  reg('diagflat', lambda a: d.a_diag(d.a_reshape(d.as_arr(a), (-1,))))
  def ndim(a):
    return d.as_arr(a).ndim
  reg('ndim', ndim)
  reg('shape', lambda a: d.as_arr(a).shape)
  reg('size', lambda a: d.as_arr(a).size)
  reg('tensordot', lambda a, b, axes=2, **k: d.a_tensordot(a, b, axes))
  reg('einsum', lambda eq, *o, **k: d.a_einsum(eq, *o))
  reg('matmul', matmul)
  reg('dot', lambda a, b: d.a_mul(a, b) if not d.as_arr(a).ndim or not
      d.as_arr(b).ndim else matmul(a, b))
  reg('inner', lambda a, b: d.a_tensordot(a, b, ([-1], [-1])))
  reg('outer', _outer)
  reg('vdot', lambda a, b: d.a_tensordot(d.a_reshape(a, (-1,)), d.a_reshape(b, (-1,)), 1))
  reg('transpose permute_dims', lambda a, axes=None: d.a_transpose(a, axes))
  reg('moveaxis', lambda a, s, t: AArray(np.moveaxis(d.as_arr(a).data, s, t), d.as_arr(a).dtype))
  reg('swapaxes', lambda a, s, t: AArray(np.swapaxes(d.as_arr(a).data, s, t), d.as_arr(a).dtype))
  reg('reshape', lambda a, shape, *r, **k: d.a_reshape(a, shape))
  reg('ravel', lambda a: d.a_reshape(a, (-1,)))
  reg('expand_dims', expand_dims)
  reg('squeeze', _squeeze)
  reg('broadcast_to', lambda a, s: AArray(
      np.array(np.broadcast_to(d.as_arr(a).data, _shape_arg(s)), object), d.as_arr(a).dtype))
  reg('broadcast_arrays', lambda *a: [AArray(np.array(x, object), d.as_arr(y).dtype)
                                      for x, y in zip(np.broadcast_arrays(
                                          *[d.as_arr(z).data for z in a]), a)])
  reg('stack', _stack)
  reg('concatenate', _concat)
  reg('sum', lambda a, axis=None, keepdims=False, **k: d.a_sum(a, axis, keepdims))
  reg('prod', _axis_reduce(lambda x, y: d.v_mul(d.to_v(x), d.to_v(y))))
  reg('max amax', _axis_reduce(d.v_max))
  reg('min amin', _axis_reduce(d.v_min))
  reg('any', _axis_reduce(d.b_or))
  reg('all', _axis_reduce(d.b_and))
  reg('mean', lambda a, axis=None, **k: (_ for _ in ()).throw(Unsupported('mean')))
  reg('arange', _arange)
  reg('astype', lambda a, t: _array(_astype(a, t)))
  reg('flip', lambda a, axis=None: AArray(np.flip(d.as_arr(a).data, axis), d.as_arr(a).dtype))
  reg('tile', lambda a, r: AArray(np.tile(d.as_arr(a).data, r), d.as_arr(a).dtype))
  reg('trace', lambda a: d.a_sum(d.a_diag(a)))
  reg('isnan', lambda a: d.ew(lambda e: B(True) if d.to_v(e).ex == 'nan' else (
      B(False) if d.to_v(e).ex is not None else B(None)), a, dtype='b'))
  reg('isfinite', lambda a: d.ew(lambda e: B(not d.to_v(e).is_inf()) if
                                 d.to_v(e).ex is not None else B(None), a, dtype='b'))
  reg('isinf', lambda a: d.ew(lambda e: B(d.to_v(e).ex in ('inf', '-inf')) if
                              d.to_v(e).ex is not None else B(None), a, dtype='b'))
  def isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
    return d.a_cmp('le')(_abs(d.a_sub(a, b)),
                         d.a_add(atol, d.a_mul(rtol, _abs(b))))
  reg('isclose', isclose)
  reg('allclose', lambda *a, **k: _axis_reduce(d.b_and)(isclose(*a, **k)))
  reg('floor', _step(math.floor, 'floor'))
  reg('ceil', _step(math.ceil, 'ceil'))
  reg('trunc fix', _step(math.trunc, 'trunc'))
  reg('rint', _step(round, 'rint'))
  reg('round around', lambda a, decimals=0, **k: _step(
      lambda v: round(v, decimals) if decimals else round(v), 'round')(a))
  reg('nan_to_num', _nan_to_num)
  reg('isposinf', lambda a: d.ew(lambda e: B(d.to_v(e).ex == 'inf') if
                                 d.to_v(e).ex is not None else B(None), a, dtype='b'))
  reg('isneginf', lambda a: d.ew(lambda e: B(d.to_v(e).ex == '-inf') if
                                 d.to_v(e).ex is not None else B(None), a, dtype='b'))
  reg('signbit', lambda a: d.a_cmp('lt')(a, 0))
  reg('copysign', lambda a, b: d.a_where(d.a_cmp('lt')(b, 0), d.a_neg(_abs(a)), _abs(a)))
  reg('cumsum', _scan(lambda x, y: d.v_add(d.to_v(x), d.to_v(y))))
  reg('cumprod', _scan(lambda x, y: d.v_mul(d.to_v(x), d.to_v(y))))
  reg('diff', _diff)
  reg('ptp', lambda a, axis=None, **k: d.a_sub(_axis_reduce(d.v_max)(a, axis),
                                               _axis_reduce(d.v_min)(a, axis)))
  reg('atleast_1d', _atleast(1))
  reg('atleast_2d', _atleast(2))
  reg('logaddexp', lambda a, b: _unary(d.v_log)(d.a_add(_unary(d.v_exp)(a),
                                                       _unary(d.v_exp)(b))))
  reg('hypot', lambda a, b: _unary(_sqrt)(d.a_add(d.a_mul(a, a), d.a_mul(b, b))))
  reg('take', _take)
  reg('roll', lambda a, shift, axis=None: AArray(
      np.array(np.roll(d.as_arr(a).data, shift, axis), object), d.as_arr(a).dtype))
  reg('repeat', lambda a, n, axis=None, **k: AArray(
      np.array(np.repeat(d.as_arr(a).data, n, axis), object), d.as_arr(a).dtype))
  reg('triu', _tri(lambda i, j, k: j >= i + k))
  reg('tril', _tri(lambda i, j, k: j <= i + k))
  reg('rollaxis', lambda a, x, s=0: AArray(np.rollaxis(d.as_arr(a).data, x, s),
                                           d.as_arr(a).dtype))
  reg('heaviside', lambda a, h: d.a_where(d.a_cmp('lt')(a, 0), 0,
                                          d.a_where(d.a_cmp('gt')(a, 0), 1, h)))
  reg('result_type', lambda *a: DType('f' if any(
      (x.dtype if isinstance(x, AArray) else ('i' if isinstance(x, int) else 'f')) == 'f'
      for x in a) else 'i'))
  reg('issubdtype', _issubdtype)
  reg('array_equal array_equiv', array_equal)
  reg('iscomplexobj', lambda a: False)
  reg('isscalar', lambda a: isinstance(a, (int, Fraction)))
  n['inf'] = math.inf
  n['nan'] = math.nan
  n['pi'] = Fraction(repr(math.pi))
  n['e'] = Fraction(repr(math.e))
  n['newaxis'] = None
  n['ndarray'] = BType('ndarray', _isinst_arr, lambda *a: None)
  for t, k in (('float32', 'f'), ('float64', 'f'), ('float_', 'f'), ('float16', 'f'),
               ('int32', 'i'), ('int64', 'i'), ('int_', 'i'), ('bool_', 'b'),
               ('uint8', 'i'), ('uint32', 'i'), ('int8', 'i'), ('int16', 'i')):
    n[t] = DTypeCtor(k, t)
  for t, k in (('floating', 'f'), ('integer', 'i'), ('inexact', 'f'),
               ('number', 'f'), ('bool', 'b'), ('signedinteger', 'i'),
               ('unsignedinteger', 'i'), ('complexfloating', 'c'), ('generic', '?'),
               ('uint16', 'i'), ('uint64', 'i'), ('bfloat16', 'f'), ('complex64', 'c'),
               ('complex128', 'c')):
    n[t] = DTypeCtor(k, t)
  n['dtype'] = Native(lambda x: DType(_dt(x, 'f')))
  return NModule(name, n)


def documented_names():
  """Names of the numpy-like interface: the protocol in types.py (None: unknown)."""
  try:
    tree = ast.parse(open(os.path.join(REPO, 'autobound', 'types.py')).read())
  except (OSError, SyntaxError):
    return None
  names = set()
  for c in tree.body:
    if isinstance(c, ast.ClassDef) and c.name == 'NumpyLike':
      for f in c.body:
        if isinstance(f, ast.FunctionDef):
          names.add(f.name)
        for t in (f.targets if isinstance(f, ast.Assign) else
                  [f.target] if isinstance(f, ast.AnnAssign) else []):
          names |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
  return names or None


def portable_names():
  """The documented names, and those that numpy and jax.numpy share."""
  here = os.path.dirname(os.path.abspath(__file__))
  names = set(open(os.path.join(here, 'backend_names.txt')).read().split())
  return names | (documented_names() or set())


def _symbolic(x):
  if isinstance(x, AArray):
    return d.symbolic(x)
  if isinstance(x, (tuple, list)):
    return any(_symbolic(y) for y in x)
  return False


def watch_foreign(mod):
  """Calls of a concrete backend with the caller's values are recorded."""
  for k, f in list(mod.attrs.items()):
    if isinstance(f, Native) and k not in ('shape', 'ndim', 'size', 'issubdtype', 'dtype',
                                           'result_type', 'isscalar', 'iscomplexobj'):
      def g(*a, f=f, k=k, **kw):
        if not ctx().hooks.get('jnp') and any(map(_symbolic, a)):
          ctx().event('foreign', f'{mod.name}.{k} is applied to an array of the '
                      'caller\'s backend')
        return f.fn(*a, **kw)
      mod.attrs[k] = Native(g, k)


class DTypeCtor(DType):
  def __init__(self, kind, name):
    super().__init__(kind)
    self.name = name

  def model_call(self, interp, args, kw):
    return _astype(d.as_arr(args[0]), self)

  def model_instancecheck(self, v):
    return False


def _dclasses(t):
  """Classes of the dtype hierarchy that contain the dtype t."""
  n = str(getattr(t, 'name', t))
  k = t.kind if isinstance(t, DType) else _dt(t, 'f')
  if k == 'b':
    return {'bool', 'bool_', 'generic'}
  if k == 'i':
    return {'integer', 'number', 'generic',
            'unsignedinteger' if n.startswith('u') else 'signedinteger'}
  return {'inexact', 'number', 'generic', 'complexfloating' if k == 'c' else 'floating'}


def _issubdtype(t, s):
  n = str(getattr(s, 'name', s))
  if n in ('integer', 'number', 'generic', 'signedinteger', 'unsignedinteger', 'inexact',
           'floating', 'complexfloating', 'bool', 'bool_'):
    return n in _dclasses(t) or n == str(getattr(t, 'name', t))
  return _dt(t, 'f') == _kindname(s)


def _kindname(s):
  return _dt(s, 'f')
