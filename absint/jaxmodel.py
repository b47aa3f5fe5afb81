"""Models of the parts of JAX the repository works with.

Programs (Jaxprs) are model objects; primitives have an abstract evaluation
rule over AArrays and can be traced.  Nothing of JAX is imported.
"""

import itertools
from fractions import Fraction

import numpy as np

from . import domain as d
from . import ghosts as gm
from . import models
from .domain import AArray, Unsupported, V, ctx
from .interp import BType, DType, IFunc, INTERP, Native, NModule, PyExc
from .poly import rat


def I():
  return INTERP[-1]


class Aval:
  """ShapedArray."""

  def __init__(self, shape, dtype='f', weak_type=False):
    self.shape = tuple(int(s) for s in shape)
    self.dtype = dtype.kind if isinstance(dtype, DType) else models._dt(dtype, 'f') \
        if not isinstance(dtype, str) or len(dtype) > 1 else dtype
    self.weak_type = weak_type

  def __eq__(self, o):
    return (isinstance(o, Aval) and self.shape == o.shape and self.dtype == o.dtype
            and self.weak_type == o.weak_type)

  def __hash__(self):
    return hash((self.shape, self.dtype, self.weak_type))

  def __repr__(self):
    return f'{self.dtype}{list(self.shape)}'

  def model_getattr(self, name):
    if name == 'shape':
      return self.shape
    if name == 'dtype':
      return DType(self.dtype)
    if name == 'ndim':
      return len(self.shape)
    if name == 'size':
      return int(np.prod(self.shape, dtype=int))
    if name == 'weak_type':
      return self.weak_type
    if name == 'update':
      return Native(lambda **k: Aval(k.get('shape', self.shape),
                                     k.get('dtype', DType(self.dtype)),
                                     k.get('weak_type', self.weak_type)))
    if name == 'strip_weak_type':
      return Native(lambda: Aval(self.shape, self.dtype))
    return NotImplemented


_counter = itertools.count(1)


class JVar:
  def __init__(self, aval):
    self.aval = aval
    self.count = next(_counter)

  def __repr__(self):
    return f'v{self.count}:{self.aval!r}'

  def model_getattr(self, name):
    if name in ('aval', 'count'):
      return getattr(self, name)
    return NotImplemented

  def model_setattr(self, name, v):
    w = I().watch_mut.get(id(self))
    if w:
      ctx().event('mutation', f'attribute {name} on {w}')
    setattr(self, name, v)


class DropVar(JVar):
  pass


class JLit:
  def __init__(self, val, aval=None):
    self.val = val
    self.aval = aval if aval is not None else aval_of(val)

  __hash__ = None

  def __eq__(self, o):
    return self is o

  def __repr__(self):
    return f'{self.val!r}'

  def model_getattr(self, name):
    if name in ('val', 'aval'):
      return getattr(self, name)
    return NotImplemented


def aval_of(x):
  if isinstance(x, JTracer):
    return x.var.aval
  a = d.as_arr(x)
  return Aval(a.shape, a.dtype, not isinstance(x, AArray))


class JEqn:
  FIELDS = ('invars', 'outvars', 'primitive', 'params', 'effects', 'source_info', 'ctx')

  def __init__(self, invars, outvars, primitive, params, effects=frozenset(),
               source_info=None, ctx=None):
    self.invars = list(invars)
    self.outvars = list(outvars)
    self.primitive = primitive
    self.params = params
    self.effects = effects
    self.source_info = source_info
    self.ctx = ctx

  def __repr__(self):
    return f'{self.outvars} = {self.primitive.name} {self.invars}'

  def replace(self, **kw):
    f = {k: getattr(self, k) for k in self.FIELDS}
    for k in kw:
      if k not in f:
        raise TypeError(f'replace() got an unexpected keyword {k!r}')
    f.update(kw)
    return JEqn(**f)

  def model_getattr(self, name):
    if name in self.FIELDS:
      return getattr(self, name)
    if name == 'replace':
      return Native(self.replace)
    return NotImplemented

  def model_setattr(self, name, v):
    raise AttributeError(f"can't set attribute {name!r}")


def pretty(j):
  """How JAX prints a program: names count from a, constants have no values."""
  names = {}
  def nm(v):
    if isinstance(v, JLit):
      a = v.val
      n = getattr(a, 'ndim', 0)
      return f'{v.aval!r}[...]' if n else f'{a!r}:{v.aval!r}'
    if isinstance(v, DropVar):
      return '_'
    if not isinstance(v, JVar):
      return repr(v)
    if id(v) not in names:
      k, t = len(names), ''
      while True:
        t = chr(ord('a') + k % 26) + t
        k = k // 26 - 1
        if k < 0:
          break
      names[id(v)] = f'{t}:{v.aval!r}'
    return names[id(v)]
  def val(x):
    if isinstance(x, ClosedJaxpr):
      return pretty(x.jaxpr)
    if isinstance(x, AArray):
      return f'array{x.shape}'
    return repr(x)
  out = f"{{ lambda {' '.join(map(nm, j.constvars))} ; {' '.join(map(nm, j.invars))}. let "
  for e in j.eqns:
    params = ' '.join(f'{k}={val(e.params[k])}' for k in sorted(e.params))
    out += (f"{' '.join(map(nm, e.outvars))} = {e.primitive.name}[{params}] "
            f"{' '.join(map(nm, e.invars))}; ")
  return out + f"in ({', '.join(map(nm, j.outvars))}) }}"


class Jaxpr:
  FIELDS = ('constvars', 'invars', 'outvars', 'eqns', 'effects', 'debug_info')

  def __init__(self, constvars=(), invars=(), outvars=(), eqns=(),
               effects=frozenset(), debug_info=None, is_high=False):
    self.constvars, self.invars = list(constvars), list(invars)
    self.outvars, self.eqns = list(outvars), list(eqns)
    self.effects, self.debug_info = effects, debug_info

  def __repr__(self):
    return pretty(self)

  def replace(self, **kw):
    f = {k: getattr(self, k) for k in self.FIELDS}
    for k in kw:
      if k not in f:
        raise TypeError(f'replace() got an unexpected keyword {k!r}')
    f.update(kw)
    return Jaxpr(**f)

  def model_getattr(self, name):
    if name in self.FIELDS:
      return getattr(self, name)
    if name == 'replace':
      return Native(self.replace)
    if name in ('in_avals', 'out_avals'):
      return [v.aval for v in (self.invars if name == 'in_avals' else self.outvars)]
    return NotImplemented

  def model_setattr(self, name, v):
    raise AttributeError(f"can't set attribute {name!r}")


class ClosedJaxpr:
  def __init__(self, jaxpr, consts=()):
    self.jaxpr, self.consts = jaxpr, list(consts)

  def __repr__(self):
    return pretty(self.jaxpr)

  def model_getattr(self, name):
    if name in ('jaxpr', 'consts'):
      return getattr(self, name)
    if name == 'eqns':
      return self.jaxpr.eqns
    if name == 'literals':
      return self.consts
    if name == 'effects':
      return self.jaxpr.effects
    if name in ('in_avals', 'out_avals'):
      return self.jaxpr.model_getattr(name)
    if name == 'replace':
      return Native(lambda jaxpr=None, consts=None: ClosedJaxpr(
          self.jaxpr if jaxpr is None else jaxpr,
          self.consts if consts is None else consts))
    return NotImplemented


class JTracer:
  def __init__(self, trace, var):
    self.trace, self.var = trace, var

  def model_getattr(self, name):
    if name == 'aval':
      return self.var.aval
    r = self.var.aval.model_getattr(name)
    return r

  def model_truth(self):
    ctx().event('truth', 'a traced value is used as a branch condition')
    raise PyExc(TypeError('TracerBoolConversionError'))


class Trace:
  def __init__(self):
    self.eqns = []
    self.consts = []       # (value, var)
    self.names = {}

  def atom(self, x):
    if isinstance(x, JTracer):
      if x.trace is not self:
        v = self.names.get(x.var)
        if v is not None:
          return v
        raise Unsupported('closure over an outer tracer')
      return x.var
    a = d.as_arr(x)
    if a.ndim == 0:
      wt = not isinstance(x, AArray)
      return JLit(AArray(a.data, 'f' if a.dtype == 'i' and wt else a.dtype, True),
                  Aval((), 'f' if a.dtype == 'i' and wt else a.dtype, wt))
    for v, var in self.consts:
      if v is x:
        return var
    var = JVar(Aval(a.shape, a.dtype))
    self.consts.append((x, var))
    return var


TRACES = []


class JPrim:
  """A primitive; impl(arrays..., **params) over exact AArrays."""

  def __init__(self, name, impl=None, elementwise=False, multiple_results=False,
               defaults=None):
    self.name = name
    self.impl = impl
    self.elementwise = elementwise
    self.multiple_results = multiple_results
    self.defaults = defaults or {}
    self.abstract = None
    self.impl_fn = None

  def __repr__(self):
    return self.name

  def avals(self, avals, params):
    if self.abstract is not None:
      r = I().call(self.abstract, avals, params)
      return list(r) if self.multiple_results else [r]
    if self.elementwise:
      return [Aval(np.broadcast_shapes(*[a.shape for a in avals]), 'f')]
    if self.impl is None and self.name in LAX:
      # opaque: only that a program using it is rejected can be judged
      return [Aval(np.broadcast_shapes(*[a.shape for a in avals]) if avals else (), 'f')]
    if self.impl is None:
      raise PyExc(NotImplementedError(f'abstract evaluation of {self.name}'))
    dummy = [d.fill(a.shape, d.exact(1), a.dtype) for a in avals]
    r = self.impl(*dummy, **params)
    rs = r if self.multiple_results else [r]
    return [Aval(x.shape, x.dtype) for x in rs]

  def bind(self, *args, **params):
    for k, v in self.defaults.items():
      params.setdefault(k, v)
    if TRACES:
      t = TRACES[-1]
      ins = [t.atom(a) for a in args]
      outs = [JVar(a) for a in self.avals([v.aval for v in ins], params)]
      t.eqns.append(JEqn(ins, outs, self, params))
      res = [JTracer(t, v) for v in outs]
      return res if self.multiple_results else res[0]
    if any(isinstance(a, JTracer) for a in args):
      raise Unsupported('tracer outside of its trace')
    if self.impl_fn is not None:
      return I().call(self.impl_fn, list(args), params)
    if self.impl is None and self.name in LAX:
      raise Unsupported(f'{self.name} has no evaluation rule in the model')
    if self.impl is None:
      raise PyExc(NotImplementedError(
          f"Evaluation rule for '{self.name}' not implemented"))
    args = [d.as_arr(a) for a in args]
    return self.impl(*args, **params)

  def model_getattr(self, name):
    if name in ('name', 'multiple_results'):
      return getattr(self, name)
    if name == 'bind':
      return Native(self.bind, 'bind', {'__self__': self})
    if name == 'def_abstract_eval':
      def f(g):
        self.abstract = g
        return g
      return Native(f)
    if name == 'def_impl':
      def f(g):
        self.impl_fn = g
        return g
      return Native(f)
    if name == 'get_bind_params':
      return Native(lambda params: ([], dict(params)))
    if name in ('call_primitive', 'map_primitive'):
      return False
    return NotImplemented

  def model_setattr(self, name, v):
    if name == 'multiple_results':
      self.multiple_results = bool(v)
    else:
      raise AttributeError(name)


# -- evaluation rules ------------------------------------------------------------


def _dot_general(a, b, dimension_numbers=None, **k):
  (ca, cb), (ba, bb) = dimension_numbers
  ca, cb, ba, bb = map(tuple, (ca, cb, ba, bb))
  fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
  fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
  if [a.shape[i] for i in ca] != [b.shape[i] for i in cb] or (
      [a.shape[i] for i in ba] != [b.shape[i] for i in bb]):
    raise TypeError('dot_general dimensions do not match')
  L = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
  it = iter(L)
  la, lb = {}, {}
  out = ''
  for i, j in zip(ba, bb):
    la[i] = lb[j] = next(it)
    out += la[i]
  for i, j in zip(ca, cb):
    la[i] = lb[j] = next(it)
  for i in fa:
    la[i] = next(it)
    out += la[i]
  for j in fb:
    lb[j] = next(it)
    out += lb[j]
  eq = ''.join(la[i] for i in range(a.ndim)) + ',' + ''.join(
      lb[j] for j in range(b.ndim)) + '->' + out
  return d.a_einsum(eq, a, b)


def _windows(x, dims, strides, padding, base=None, dil=None, fill=0):
  """(padded object array, output shape) of a strided window."""
  n = x.ndim
  base = tuple(base or (1,) * n)
  pad = [(int(p), int(q)) for p, q in padding]
  if any(v < 0 for p in pad for v in p):
    raise Unsupported('negative padding')
  dsh = tuple((s - 1) * v + 1 if s else 0 for s, v in zip(x.shape, base))
  shp = tuple(s + p + q for s, (p, q) in zip(dsh, pad))
  buf = np.empty(shp, object)
  for i in np.ndindex(shp):
    buf[i] = d.exact(0) if fill == 0 else fill
  buf[tuple(slice(p, p + s, v) for s, (p, q), v in zip(dsh, pad, base))] = x.data
  dil = tuple(dil or (1,) * n)
  eff = tuple((w - 1) * q + 1 for w, q in zip(dims, dil))
  out = tuple((s - e) // st + 1 if s >= e else 0 for s, e, st in zip(shp, eff, strides))
  return buf, out, dil


def _reduce_window(op, start):
  def f(x, window_dimensions=None, window_strides=None, padding=None,
        base_dilation=None, window_dilation=None, **k):
    if len(window_dimensions) != x.ndim:
      raise TypeError('reduce_window: window rank')
    buf, out, dil = _windows(x, window_dimensions, window_strides, padding,
                             base_dilation, window_dilation, fill=start)
    r = np.empty(out, object)
    for i in np.ndindex(out):
      s = d.exact(0) if start == 0 else None
      for w in np.ndindex(tuple(window_dimensions)):
        e = buf[tuple(a * st + b * q for a, st, b, q in zip(i, window_strides, w, dil))]
        if e is None:
          continue
        s = d.to_v(e) if s is None else op(s, d.to_v(e))
      if s is None:
        raise Unsupported('empty window')
      r[i] = s
    return AArray(r, x.dtype)
  return f


class ConvDims:
  def __init__(self, lhs_spec, rhs_spec, out_spec):
    self.lhs_spec, self.rhs_spec, self.out_spec = lhs_spec, rhs_spec, out_spec

  def __eq__(self, o):
    return isinstance(o, ConvDims) and (self.lhs_spec, self.rhs_spec, self.out_spec) == (
        o.lhs_spec, o.rhs_spec, o.out_spec)

  def model_getattr(self, name):
    return getattr(self, name, NotImplemented)


def _conv(a, b, window_strides=None, padding=None, lhs_dilation=None,
          rhs_dilation=None, dimension_numbers=None, feature_group_count=1,
          batch_group_count=1, **k):
  n = len(window_strides)
  if a.ndim != n + 2 or b.ndim != n + 2:
    raise TypeError(f'convolution requires operands of rank {n + 2}')
  fg, bg = int(feature_group_count), int(batch_group_count)
  dn = dimension_numbers
  la = d.a_transpose(a, dn.lhs_spec)      # N C spatial
  lb = d.a_transpose(b, dn.rhs_spec)      # O I spatial
  if la.shape[1] != lb.shape[1] * fg or lb.shape[0] % fg or lb.shape[0] % bg or \
      la.shape[0] % bg or (fg != 1 and bg != 1):
    raise TypeError('convolution: feature dimensions do not match')
  buf, osh, dil = _windows(la, (1, 1) + lb.shape[2:], (1, 1) + tuple(window_strides),
                           ((0, 0), (0, 0)) + tuple(padding),
                           (1, 1) + tuple(lhs_dilation or (1,) * n),
                           (1, 1) + tuple(rhs_dilation or (1,) * n))
  spat = osh[2:]
  r = np.empty((la.shape[0] // bg, lb.shape[0]) + spat, object)
  for i in np.ndindex(r.shape):
    nb, o, sp = i[0], i[1], i[2:]
    c0 = o // (lb.shape[0] // fg) * lb.shape[1]
    nb += o // (lb.shape[0] // bg) * (la.shape[0] // bg)
    s = d.exact(0)
    for c in range(lb.shape[1]):
      for w in np.ndindex(lb.shape[2:]):
        p = tuple(q * st + x * dl for q, st, x, dl in zip(
            sp, window_strides, w, dil[2:]))
        s = d.v_add(s, d.v_mul(d.to_v(buf[(nb, c0 + c) + p]), d.to_v(lb.data[(o, c) + w])))
    r[i] = s
  inv = np.argsort(dn.out_spec)
  return AArray(np.transpose(r, inv), 'f')


def _broadcast_in_dim(a, shape=None, broadcast_dimensions=None, **k):
  a = d.as_arr(a)
  shape = tuple(int(s) for s in shape)
  bd = tuple(broadcast_dimensions)
  if len(bd) != a.ndim or list(bd) != sorted(set(bd)) or any(
      x < 0 or x >= len(shape) for x in bd):
    raise ValueError(f'broadcast_in_dim: dimensions {bd} of operand of shape '
                     f'{a.shape} to {shape}')
  inter = [1] * len(shape)
  for i, x in enumerate(bd):
    if a.shape[i] not in (1, shape[x]):
      raise ValueError('broadcast_in_dim: incompatible shapes')
    inter[x] = a.shape[i]
  return AArray(np.array(np.broadcast_to(a.data.reshape(inter), shape), object), a.dtype)


def _reshape(a, new_sizes=None, dimensions=None, **k):
  if dimensions is not None:
    a = d.a_transpose(a, dimensions)
  n = int(np.prod(tuple(new_sizes), dtype=int))
  if n != a.size:
    raise TypeError(f'reshape of {a.shape} to {tuple(new_sizes)}')
  return d.a_reshape(a, tuple(new_sizes))


def _squeeze(a, dimensions=None, **k):
  dims = tuple(x % a.ndim for x in dimensions)
  if any(a.shape[i] != 1 for i in dims):
    raise ValueError('cannot squeeze a dimension that is not 1')
  return d.a_reshape(a, tuple(s for i, s in enumerate(a.shape) if i not in dims))


def _reduce_sum(a, axes=None, **k):
  if any(x < 0 or x >= a.ndim for x in axes):
    raise ValueError('reduce_sum axes')
  return d.a_sum(a, tuple(axes)) if len(axes) else a


def _transpose(a, permutation=None, **k):
  if sorted(permutation) != list(range(a.ndim)):
    raise TypeError('transpose permutation')
  return d.a_transpose(a, tuple(permutation))


def _convert(a, new_dtype=None, **k):
  return models._astype(a, new_dtype)


def ew1(key):
  """An elementwise function known only through its Taylor contract."""
  def f(a, **k):
    return d.ew(lambda e: V(fnval(key, d.to_v(e))), a, dtype='f')
  return f


def fnval(key, v):
  if not v.is_exact():
    raise Unsupported(f'{key} of a non-exact value')
  return gm.fn_value(key, v.ex, 0)


def pow_const(v, n):
  """v**n for exact v and rational constant n."""
  n = d.norm_exp(n)
  v = d.to_v(v)
  if isinstance(n, int) and n >= 0:
    return V(v.ex.pow(n) if n else rat(1))
  return V(fnval(f'pow({n})', v))


def _pow(a, b, **k):
  def f(x, y):
    y = d.to_v(y)
    if not y.is_exact() or not y.ex.is_const():
      raise Unsupported('power with a symbolic exponent')
    return pow_const(x, y.ex.const_value())
  return d.ew(f, a, b, dtype='f')


def _div(a, b, **k):
  def f(x, y):
    x, y = d.to_v(x), d.to_v(y)
    return V(x.ex * fnval('pow(-1)', y))
  return d.ew(f, a, b, dtype='f')


def eval_jaxpr(j, consts, args):
  env = {}
  for v, x in list(zip(j.constvars, consts)) + list(zip(j.invars, args)):
    env[v] = x
  rd = lambda v: v.val if isinstance(v, JLit) else env[v]
  for e in j.eqns:
    r = e.primitive.bind(*[rd(v) for v in e.invars], **e.params)
    for v, x in zip(e.outvars, r if e.primitive.multiple_results else [r]):
      env[v] = x
  return [rd(v) for v in j.outvars]


def _jit_impl(*args, jaxpr=None, **k):
  return eval_jaxpr(jaxpr.jaxpr, jaxpr.consts, args)


def _custom_impl(*args, call_jaxpr=None, name=None, **k):
  if name == 'logaddexp' and any(e.primitive.name == 'log1p'
                                 for e in call_jaxpr.jaxpr.eqns):
    b = d.to_v(args[1].data[()])
    if b.is_exact() and b.ex == rat(0):
      return [ew1('softplus')(args[0])]
  return eval_jaxpr(call_jaxpr.jaxpr, call_jaxpr.consts, args)


class JitPrim(JPrim):
  def avals(self, avals, params):
    cj = params.get('jaxpr') or params.get('call_jaxpr')
    return [v.aval for v in (cj.jaxpr if isinstance(cj, ClosedJaxpr) else cj).outvars]


# primitives of jax.lax (names); those below without a rule are opaque
LAX = """
abs acos acosh add after_all all_gather all_to_all and approx_top_k argmax argmin asin
asinh atan atan2 atanh axis_index bessel_i0e bessel_i1e bitcast_convert_type
broadcast_in_dim cbrt ceil clamp clz complex concatenate cond conj conv_general_dilated
convert_element_type copy cos cosh create_token cumlogsumexp cummax cummin cumprod cumsum
dce_sink device_put digamma div dot_general dynamic_slice dynamic_update_slice eq eq_to
erf erf_inv erfc exp exp2 expm1 fft floor gather ge gt igamma igamma_grad_a igammac imag
integer_pow iota is_finite le le_to lgamma linear_solve log log1p logistic lt lt_to max
min mul ne neg nextafter not optimization_barrier or pad pmax pmin polygamma
population_count pow ppermute psum ragged_all_to_all real reduce reduce_and reduce_max
reduce_min reduce_or reduce_precision reduce_prod reduce_sum reduce_window
reduce_window_max reduce_window_min reduce_window_sum reduce_xor
regularized_incomplete_beta rem reshape rev rng_bit_generator rng_uniform round rsqrt scan
scatter scatter_add scatter_max scatter_min scatter_mul scatter_sub select_and_gather_add
select_and_scatter select_and_scatter_add select_n sharding_constraint shift_left
shift_right_arithmetic shift_right_logical sign sin sinh slice sort split sqrt square
squeeze stop_gradient sub tan tanh top_k transpose while xor zeta
""".split()
# functions of one real argument known by name only
EW1 = ('acos acosh asin asinh atan atanh bessel_i0e bessel_i1e cosh digamma erf_inv erfc '
       'lgamma sinh reduce_precision').split()


def _less(x, y):
  s = d.v_sign(d.v_add(d.to_v(x), d.v_neg(d.to_v(y))))
  if s == {-1}:
    return True
  if -1 not in s:
    return False
  raise Unsupported('undecided comparison of elements')


def _sort(*a, dimension=0, num_keys=1, **k):
  if all(x is a[0] or x.ndim == 0 for x in a) and a[0].ndim == 0:
    return list(a)
  import functools
  keys = np.moveaxis(a[0].data, dimension, -1)
  outs = [np.moveaxis(x.data, dimension, -1).copy() for x in a]
  for i in np.ndindex(keys.shape[:-1]):
    row = list(range(keys.shape[-1]))
    row.sort(key=functools.cmp_to_key(
        lambda p, q: -1 if _less(keys[i][p], keys[i][q]) else
        1 if _less(keys[i][q], keys[i][p]) else 0))
    for o, x in zip(outs, a):
      src = np.moveaxis(x.data, dimension, -1)[i]
      for n, m in enumerate(row):
        o[i + (n,)] = src[m]
  return [AArray(np.moveaxis(o, -1, dimension), x.dtype) for o, x in zip(outs, a)]


def _select_n(c, *a, **k):
  if len(a) != 2:
    raise Unsupported('select_n of several cases')
  return d.a_where(c, a[1], a[0])


def _slice(a, start_indices=None, limit_indices=None, strides=None, **k):
  st = strides or (1,) * a.ndim
  if len(start_indices) != a.ndim:
    raise TypeError('slice: rank')
  return AArray(d._obj(a.data[tuple(slice(i, j, q) for i, j, q in zip(
      start_indices, limit_indices, st))]), a.dtype)


def _pad(a, v, padding_config=None, **k):
  if len(padding_config) != a.ndim:
    raise TypeError('pad: rank')
  if any(lo < 0 or hi < 0 for lo, hi, _ in padding_config):
    raise Unsupported('negative padding')
  shp = tuple(lo + hi + (n - 1) * (i + 1) + 1 for n, (lo, hi, i) in zip(
      a.shape, padding_config))
  out = np.empty(shp, object)
  for i in np.ndindex(shp):
    out[i] = v.data[()]
  out[tuple(slice(lo, lo + (n - 1) * (i + 1) + 1, i + 1) for n, (lo, hi, i) in zip(
      a.shape, padding_config))] = a.data
  return AArray(out, a.dtype)


def _cum(op):
  def f(a, axis=0, reverse=False, **k):
    data = np.flip(a.data, axis) if reverse else a.data
    out = np.empty(data.shape, object)
    for i in np.ndindex(data.shape):
      j = list(i)
      j[axis] -= 1
      out[i] = d.to_v(data[i]) if i[axis] == 0 else op(out[tuple(j)], d.to_v(data[i]))
    return AArray(np.flip(out, axis) if reverse else out, a.dtype)
  return f


def _top_k(a, k):
  v, i = _sort(d.a_neg(a), _iota(a), dimension=a.ndim - 1)
  cut = (Ellipsis, slice(0, k))
  return [d.a_neg(AArray(v.data[cut], a.dtype)), AArray(i.data[cut], 'i')]


def _iota(a):
  out = np.empty(a.shape, object)
  for i in np.ndindex(a.shape):
    out[i] = d.exact(i[-1])
  return AArray(out, 'i')


def _dynamic_slice(a, start, sizes):
  idx = []
  for i, n, m in zip(start, sizes, a.shape):
    v = d.to_v(i.data[()])
    if not v.is_exact() or not v.ex.is_const():
      raise Unsupported('dynamic_slice at a symbolic index')
    i = min(max(int(v.ex.const_value()), 0), m - n)
    idx.append(slice(i, i + n))
  return AArray(d._obj(a.data[tuple(idx)]), a.dtype)


def _argbest(pick):
  def f(a, axes=None, index_dtype=None, **k):
    if len(axes) != 1:
      raise Unsupported('argmax over several axes')
    data = np.moveaxis(a.data, axes[0], -1)
    out = np.empty(data.shape[:-1], object)
    for i in np.ndindex(out.shape):
      best = 0
      for n in range(1, data.shape[-1]):
        x, y = data[i][n], data[i][best]
        if _less(y, x) if pick is d.v_max else _less(x, y):
          best = n
      out[i] = d.exact(best)
    return AArray(out, 'i')
  return f


def make_prims():
  P = {}

  def reg(name, impl=None, **k):
    P[name] = JPrim(name, impl, **k)
  ew = dict(elementwise=True)
  reg('add', lambda a, b, **k: d.a_add(a, b), **ew)
  reg('add_any', lambda a, b, **k: d.a_add(a, b), **ew)
  reg('sub', lambda a, b, **k: d.a_sub(a, b), **ew)
  reg('mul', lambda a, b, **k: d.a_mul(a, b), **ew)
  reg('neg', lambda a, **k: d.a_neg(a), **ew)
  reg('div', _div, **ew)
  reg('integer_pow', lambda a, y=None, **k: d.ew(lambda e: pow_const(e, y), a), **ew)
  reg('square', lambda a, **k: d.a_mul(a, a), **ew)
  reg('pow', _pow, **ew)
  reg('max', lambda a, b, **k: d.a_max(a, b), **ew)
  reg('min', lambda a, b, **k: d.a_min(a, b), **ew)
  for n, key in (('abs', 'abs'), ('exp', 'exp'), ('log', 'log'),
                 ('logistic', 'sigmoid'), ('cbrt', 'pow(1/3)'), ('sqrt', 'pow(1/2)'),
                 ('rsqrt', 'pow(-1/2)'), ('sin', 'sin'), ('cos', 'cos'),
                 ('tan', 'tan'), ('tanh', 'tanh'), ('log1p', 'log1p'),
                 ('expm1', 'expm1'), ('exp2', 'exp2'), ('sign', 'sign'), ('erf', 'erf'),
                 ('floor', 'floor'), ('ceil', 'ceil'), ('round', 'round')):
    reg(n, ew1(key), **ew)
  reg('dot_general', _dot_general,
      defaults=dict(precision=None, preferred_element_type=None, out_sharding=None))
  reg('conv_general_dilated', _conv)
  reg('broadcast_in_dim', _broadcast_in_dim, defaults=dict(sharding=None))
  reg('reshape', _reshape, defaults=dict(dimensions=None, sharding=None))
  reg('squeeze', _squeeze)
  reg('transpose', _transpose)
  reg('reduce_sum', _reduce_sum, defaults=dict(out_sharding=None))
  reg('reduce_window_sum', _reduce_window(d.v_add, 0))
  reg('reduce_window_max', _reduce_window(d.v_max, None))
  reg('reduce_window_min', _reduce_window(d.v_min, None))
  reg('convert_element_type', _convert, defaults=dict(weak_type=False, sharding=None))
  reg('rev', lambda a, dimensions=None, **k: AArray(np.flip(a.data, dimensions), a.dtype))
  reg('cumsum', _cum(d.v_add))
  reg('reduce_prod', lambda a, axes=None, **k: models._axis_reduce(
      lambda x, y: d.v_mul(d.to_v(x), d.to_v(y)))(a, axes))
  reg('reduce_max', lambda a, axes=None, **k: models._axis_reduce(d.v_max)(a, axes))
  reg('reduce_min', lambda a, axes=None, **k: models._axis_reduce(d.v_min)(a, axes))
  reg('stop_gradient', lambda a, **k: a)
  reg('copy', lambda a, **k: a)
  reg('select_n', _select_n, **ew)
  reg('sort', _sort, multiple_results=True)
  for n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    reg(n, lambda a, b, n=n, **k: d.ew(lambda x, y: d.compare(n, x, y), a, b,
                                       dtype='b'), **ew)
  reg('and', lambda a, b, **k: d.ew(d.b_and, a, b, dtype='b'), **ew)
  reg('or', lambda a, b, **k: d.ew(d.b_or, a, b, dtype='b'), **ew)
  reg('not', lambda a, **k: d.ew(d.b_not, a, dtype='b'), **ew)
  reg('is_finite', lambda a, **k: d.fill(a.shape, d.B(True), 'b'))
  reg('clamp', lambda lo, x, hi, **k: d.a_min(d.a_max(x, lo), hi))
  reg('concatenate', lambda *a, dimension=0, **k: AArray(
      np.concatenate([x.data for x in a], dimension), a[0].dtype))
  reg('slice', _slice, defaults=dict(strides=None))
  reg('split', lambda a, sizes=None, axis=0, **k: [
      AArray(x, a.dtype) for x in np.split(a.data, np.cumsum(sizes)[:-1], axis)],
      multiple_results=True)
  reg('pad', _pad)
  reg('top_k', lambda a, k=None, operand=None, **q: _top_k(a, k), multiple_results=True)
  reg('dynamic_slice', lambda a, *i, slice_sizes=None, **k: _dynamic_slice(
      a, i, slice_sizes))
  reg('cummax', _cum(d.v_max))
  reg('cummin', _cum(d.v_min))
  reg('cumprod', _cum(d.v_mul))
  reg('real', lambda a, **k: a)
  reg('conj', lambda a, **k: a)
  reg('imag', lambda a, **k: d.fill(a.shape, d.exact(0)))
  reg('argmax', _argbest(d.v_max))
  reg('argmin', _argbest(d.v_min))
  reg('optimization_barrier', lambda *a, **k: list(a), multiple_results=True)
  for n in LAX:
    if n not in P:
      reg(n, *((ew1(n),) if n in EW1 else ()), **(ew if n in EW1 else {}))
  for n in ('expand_dims', 'custom_vjp_call'):
    reg(n)
  P['jit'] = JitPrim('jit', _jit_impl, multiple_results=True)
  P['pjit'] = P['jit']
  P['checkpoint'] = JitPrim('checkpoint', lambda *a, jaxpr=None, **k: eval_jaxpr(
      jaxpr, [], a), multiple_results=True)
  P['custom_jvp_call'] = JitPrim('custom_jvp_call', _custom_impl, multiple_results=True)
  return P


# -- tracing -----------------------------------------------------------------


def trace(f, args):
  """ClosedJaxpr of f at arguments shaped like args."""
  t = Trace()
  ins = [JVar(aval_of(a)) for a in args]
  TRACES.append(t)
  try:
    out = I().call(f, [JTracer(t, v) for v in ins], {})
    outs = list(out) if isinstance(out, (tuple, list)) else [out]
    outvars = [t.atom(o) for o in outs]
  finally:
    TRACES.pop()
  return ClosedJaxpr(Jaxpr([v for _, v in t.consts], ins, outvars, t.eqns),
                     [x for x, _ in t.consts])


def jit_call(P, f, args, name='<lambda>', keep=None, **extra):
  """Binds jit of f; outer tracers are passed as arguments.

  keep: indices of the outputs that are used (others become DropVars)."""
  if not TRACES:
    out = I().call(f, list(args), {})
    return list(out) if isinstance(out, (tuple, list)) else [out]
  cj = trace(f, args)
  params = dict(jaxpr=cj, in_shardings=('unspecified',) * len(args),
                out_shardings=('unspecified',) * len(cj.jaxpr.outvars),
                in_layouts=(None,) * len(args),
                out_layouts=(None,) * len(cj.jaxpr.outvars),
                donated_invars=(False,) * len(args), ctx_mesh='mesh', name=name,
                keep_unused=False, inline=False, compiler_options_kvs=())
  params.update(extra)
  outs = P['jit'].bind(*args, **params)
  if keep is not None and TRACES:
    e = TRACES[-1].eqns[-1]
    for k, v in enumerate(e.outvars):
      if k not in keep:
        e.outvars[k] = DropVar(v.aval)
  return outs


def custom_jvp(P, f, args, name):
  cj = trace(f, args)
  return P['custom_jvp_call'].bind(
      *args, name=name, call_jaxpr=cj, jvp_jaxpr_fun=object(), num_consts=0, symbolic_zeros=False)


def checkpoint(P, f, args):
  """jax.checkpoint of f: its parameter is an open Jaxpr."""
  cj = trace(f, args)
  if cj.consts:
    raise Unsupported('constants in a checkpointed function')
  return P['checkpoint'].bind(*args, jaxpr=cj.jaxpr, prevent_cse=True, differentiated=False,
                              policy=None)


# -- modules -----------------------------------------------------------------


def _vmap(f, in_axes=0, out_axes=0, axis_size=None, **k):
  def g(*args):
    axes = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
    args = [d.as_arr(a) for a in args]
    sizes = {a.shape[x] for a, x in zip(args, axes) if x is not None}
    if len(sizes) != 1:
      raise ValueError('vmap got inconsistent sizes')
    n = sizes.pop()
    outs = []
    for i in range(n):
      sl = [a if x is None else AArray(d._obj(np.take(a.data, i, axis=x)), a.dtype)
            for a, x in zip(args, axes)]
      outs.append(I().call(f, sl, {}))
    def stack(parts):
      if isinstance(parts[0], tuple):
        return tuple(stack([p[i] for p in parts]) for i in range(len(parts[0])))
      return models._stack(parts, out_axes)
    if not outs:
      raise Unsupported('vmap over an empty axis')
    return stack(outs)
  return Native(g)


class PrimType:
  """jex.core.Primitive: constructor and isinstance target."""
  def model_call(self, interp, args, kw):
    return JPrim(*args, **kw)

  def model_instancecheck(self, v):
    return isinstance(v, JPrim)


def modules(P):
  """Model modules for jax and its submodules, sharing primitives P."""
  np_ = models.np_model('jax.numpy')
  lax = NModule('jax.lax', {})
  for n, p in P.items():
    lax.attrs[n + '_p'] = p
  L = lax.attrs
  for n in ('add', 'sub', 'mul', 'neg', 'div', 'max', 'min', 'abs', 'exp', 'log',
            'logistic', 'cbrt', 'sqrt', 'rsqrt', 'pow', 'sign'):
    L[n] = Native(P[n].bind, n)
  L['integer_pow'] = Native(lambda x, y: P['integer_pow'].bind(x, y=y))
  L['broadcast_in_dim'] = Native(lambda a, shape, broadcast_dimensions, **k: P[
      'broadcast_in_dim'].bind(a, shape=tuple(shape),
                               broadcast_dimensions=tuple(broadcast_dimensions)))
  L['reshape'] = Native(lambda a, new_sizes, dimensions=None, **k: P['reshape'].bind(
      a, new_sizes=tuple(new_sizes), dimensions=dimensions))
  L['transpose'] = Native(lambda a, permutation: P['transpose'].bind(
      a, permutation=tuple(permutation)))
  L['squeeze'] = Native(lambda a, dimensions: P['squeeze'].bind(
      a, dimensions=tuple(dimensions)))
  L['dot_general'] = Native(lambda a, b, dimension_numbers, **k: P['dot_general'].bind(
      a, b, dimension_numbers=dimension_numbers))
  L['convert_element_type'] = Native(lambda a, t: P['convert_element_type'].bind(
      a, new_dtype=t))
  L['expand_dims'] = Native(lambda a, dims: models.expand_dims(a, tuple(dims)))
  L['full'] = np_.attrs['full']
  L['full_like'] = np_.attrs['full_like']

  core = NModule('jax.extend.core', {
      'Var': BType('Var', lambda v: isinstance(v, JVar),
                   lambda aval=None, *a, **k: JVar(aval)),
      'Literal': BType('Literal', lambda v: isinstance(v, JLit),
                       lambda val, aval=None: JLit(val, aval)),
      'Jaxpr': BType('Jaxpr', lambda v: isinstance(v, Jaxpr), Jaxpr),
      'ClosedJaxpr': BType('ClosedJaxpr', lambda v: isinstance(v, ClosedJaxpr),
                           ClosedJaxpr),
      'JaxprEqn': BType('JaxprEqn', lambda v: isinstance(v, JEqn), JEqn),
      'Primitive': PrimType(),
      'jaxpr_as_fun': Native(lambda cj: Native(
          lambda *a: eval_jaxpr(cj.jaxpr, cj.consts, a))),
      'primitives': NModule('jax.extend.core.primitives', {
          **{n + '_p': p for n, p in P.items()}}),
  })
  jcore = NModule('jax.core', {
      'ShapedArray': BType('ShapedArray', lambda v: isinstance(v, Aval), Aval),
      'AbstractValue': BType('AbstractValue', lambda v: isinstance(v, Aval), None),
      'new_jaxpr_eqn': Native(lambda invars, outvars, primitive, params, effects=None,
                              *a, **k: JEqn(invars, outvars, primitive, params, effects)),
      'Tracer': BType('Tracer', lambda v: isinstance(v, JTracer), None),
      'DropVar': BType('DropVar', lambda v: isinstance(v, DropVar), DropVar),
      'eval_jaxpr': Native(lambda j, consts, *a, **k: eval_jaxpr(j, consts, a)),
      'no_effects': frozenset(),
      'Var': core.attrs['Var'], 'Literal': core.attrs['Literal'],
      'Jaxpr': core.attrs['Jaxpr'], 'ClosedJaxpr': core.attrs['ClosedJaxpr'],
      'Primitive': core.attrs['Primitive'], 'JaxprEqn': core.attrs['JaxprEqn'],
  })
  ext = NModule('jax.extend', {'core': core})
  nn = NModule('jax.nn', nn_functions(P))
  jax = NModule('jax', {
      'lax': lax, 'core': jcore, 'extend': ext, 'nn': nn, 'numpy': np_,
      'vmap': Native(_vmap, 'vmap'),
      'make_jaxpr': Native(lambda f, **k: Native(lambda *a: trace(f, a))),
      'jit': Native(lambda f=None, **k: f if f is not None else Native(lambda g: g)),
      'Array': BType('Array', lambda v: isinstance(v, AArray), None),
      'eval_shape': Native(lambda f, *a: Aval(d.as_arr(I().call(f, list(a), {})).shape)),
      'named_call': Native(lambda f, **k: f),
      'tree_util': NModule('jax.tree_util', {'tree_map': Native(_tree_map)}),
      'tree': NModule('jax.tree', {'map': Native(_tree_map)}),
  })
  return {'jax': jax, 'jax.lax': lax, 'jax.core': jcore, 'jax.extend': ext,
          'jax.extend.core': core, 'jax.extend.core.primitives': core.attrs['primitives'],
          'jax.nn': nn, 'jax.numpy': np_, 'numpy': models.np_model('numpy')}


def _tree_map(f, t, *r, **k):
  if isinstance(t, tuple):
    return tuple(_tree_map(f, *x) for x in zip(t, *r))
  if isinstance(t, list):
    return [_tree_map(f, *x) for x in zip(t, *r)]
  return I().call(f, [t, *r], {})


def nn_functions(P):
  """jax.nn functions as they trace in this version of JAX."""

  def sigmoid(x):
    return P['logistic'].bind(x, accuracy=None)

  def logaddexp_body(c, e):
    m = P['max'].bind(c, e)
    df = P['sub'].bind(c, e)
    g = P['ne'].bind(df, df) if TRACES else None
    h = P['add'].bind(c, e)
    k = P['exp'].bind(P['neg'].bind(P['abs'].bind(df)), accuracy=None)
    s = P['add'].bind(m, P['log1p'].bind(k, accuracy=None))
    return P['select_n'].bind(g, s, h)

  def softplus(x):
    if not TRACES:
      return ew1('softplus')(d.as_arr(x))
    def body(a):
      return custom_jvp(P, Native(logaddexp_body), [a, Fraction(0)], 'logaddexp')[0]
    return jit_call(P, Native(body), [x], 'softplus')[0]

  def silu(x):
    if not TRACES:
      return ew1('swish')(d.as_arr(x))
    def body(a):
      return P['mul'].bind(a, P['logistic'].bind(a, accuracy=None))
    return jit_call(P, Native(body), [x], 'silu')[0]

  def relu(x):
    def body(a):
      def b2(c):
        return P['max'].bind(c, Fraction(0))
      return custom_jvp(P, Native(b2), [a], 'relu')[0]
    return jit_call(P, Native(body), [x], 'relu')[0]
  P['ne'].elementwise = P['ne'].elementwise or True
  nat = lambda f, n: Native(f, n, {'__name__': n})
  swish = nat(silu, 'silu')
  return {'sigmoid': nat(sigmoid, 'sigmoid'), 'softplus': nat(softplus, 'softplus'),
          'silu': swish, 'swish': swish, 'relu': nat(relu, 'relu')}
