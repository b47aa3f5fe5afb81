"""Obligations about autobound.jax.jax_bound (relational abstraction).

A program is a Jaxpr over the modelled primitives.  taylor_bounds is
interpreted on it with a symbolic reference point and trust region; the member
polynomial certified in the coefficients must be, identically in all symbols,
the value of the same program at an arbitrary point of the region.  Elementwise
functions are known through their Taylor contract only: the coefficients at the
reference point and one remainder symbol per argument.
"""

import itertools
import random
from fractions import Fraction

import numpy as np

from .. import domain as d
from .. import ghosts as gm
from .. import jaxmodel as jm
from ..core import (Violation, arr0, arr_to_rats, atoms_array, check, core_interp,
                    enclosure_ghost, expect_raises, interval_array, need_ghosts, rat,
                    require_ge, require_le, same_rats, soft)
from ..domain import AArray, Unsupported, V, ctx
from ..interp import Native, PyExc
from .enclosure import emap

JB = 'autobound.jax.jax_bound'
PE = 'autobound.primitive_enclosures'
NAMES = ('abs', 'exp', 'log', 'sigmoid', 'softplus', 'swish')


def const(name, shape=()):
  """A constant array with symbolic elements (not depending on x)."""
  memo = ctx().hooks.setdefault('consts', {})
  if (name, shape) not in memo:
    memo[name, shape], r = atoms_array(name, shape)
    ctx().hooks.setdefault('concrete', set()).update(
        a for v in r.reshape(-1) for a in v.atoms())
  return memo[name, shape]


def num(*vals):
  """A vector of given numbers."""
  out = np.empty((len(vals),), object)
  for i, v in enumerate(vals):
    out[i] = V(rat(Fraction(v)))
  return AArray(out)


class JW:
  """One abstract machine with the JAX model and the contracts installed."""

  def __init__(self, report):
    self.P = jm.make_prims()
    self.ip = ip = core_interp(jm.modules(self.P))
    gm.install(ip)
    report.interps.append(ip)
    self.np = ip.models['jax.numpy']

    def contract(key):
      def gen(x0, trust_region, degree, np_like):
        return gm.contract_enclosure(key, x0, trust_region, degree)
      return Native(gen, key + '_enclosure')

    def pow_gen(exponent, x0, trust_region, degree, np_like):
      return gm.contract_enclosure(self.pow_key(exponent), x0, trust_region, degree)

    def pow_sum(ip_, f, args, kw):
      ps = gm.params(ip_, f, args, kw)
      return pow_gen(*ps[:5])

    def elt_sum(ip_, f, args, kw):
      fid, x0, region, deg, npl = gm.params(ip_, f, args, kw)[:5]
      return gm.contract_enclosure(ip_.getattr(fid, 'name'), x0, region, deg)
    ip.summaries[PE + '.pow_enclosure'] = pow_sum
    ip.summaries[PE + '.get_elementwise_taylor_enclosure'] = elt_sum
    from ..core import new_ctx
    with new_ctx():
      m = ip.import_module(PE)
      for n in NAMES:
        if n + '_enclosure' in m.ns:
          m.ns[n + '_enclosure'] = contract(n)
      ip.import_module(JB)
    self.nn = ip.models['jax.nn'].attrs

  @staticmethod
  def pow_key(e):
    n = gm._int(e)
    return f'pow({n if n is not None else d.norm_exp(e)})'

  def b(self, name, *a, **k):
    r = self.P[name].bind(*a, **k)
    return r

  def jb(self, name):
    return self.ip.mod_attr(JB, name)

  def setup(self, c, M, xsh, tag='', point=None):
    """x0, its region and the symbolic displacement."""
    c.hooks['fn_M'] = M
    c.hooks['jnp'] = True
    x0, r0 = atoms_array('x0' + tag, xsh)
    if isinstance(point, tuple):
      r0[:] = [rat(v) for v in point]
      x0 = AArray(np.array([V(rat(v)) for v in point] + [None], object)[:-1])
    elif point is not None:
      x0 = point
      r0[...] = rat(point)
    z = np.empty(xsh, object)
    _, zr = atoms_array('z' + tag, xsh)
    z[...] = zr
    c.hooks['z_atoms'] = set(c.hooks.get('z_atoms', ())) | {
        next(iter(r.atoms())) for r in z.reshape(-1)}
    xg = emap(lambda a, b: a + b, r0, z)
    tr, _ = interval_array('x' + tag, xsh, ghost=xg)
    return x0, tr, z, xg

  def bounds(self, f, M, prop, x0, tr):
    tb = self.ip.call(self.jb('taylor_bounds'), [f, M], {'propagate_trust_regions': prop}
                      if prop is not None else {})
    return self.ip.call(tb, [x0, tr], {})

  def reference(self, f, xg):
    """Value of the program at x (an exact array)."""
    out = np.empty(xg.shape, object)
    for i in np.ndindex(xg.shape):
      out[i] = V(xg[i])
    r = d.as_arr(f.fn(AArray(out)))
    g = arr_to_rats(r)
    if any(v is None for v in g.reshape(-1)):
      raise Unsupported('reference value is not exact')
    return g

  def refute(self, f, co, z, xg, what):
    """For a program whose value splits into cases: the certified member is a
    polynomial, which must agree with the program at every rational point."""
    got = enclosure_ghost(co, z, what)
    atoms = sorted({a for g in (got, xg) for r in np.asarray(g, object).reshape(-1)
                    for a in r.atoms()}, key=lambda a: a.id)
    if any(a.meta for a in atoms):
      return
    for seed in range(8):
      env = {a: rat(Fraction((7 * k + 5 * seed * (k + 1)) % 23 - 11, 4) if seed < 4 else
                    Fraction((k + seed) % 5 + 1))
             for k, a in enumerate(atoms)}
      out = np.empty(xg.shape, object)
      for i in np.ndindex(xg.shape):
        out[i] = V(xg[i].subs(env))
      want = arr_to_rats(d.as_arr(f.fn(AArray(out))))
      if any(v is None for v in want.reshape(-1)):
        continue
      val = np.empty(got.shape, object)
      for i in np.ndindex(got.shape):
        val[i] = got[i].subs(env)
      same_rats(val, want, f'{what} at the point {out.tolist()}')

  def judge(self, c, f, M, prop, xsh, what='taylor_bounds', exact=None, api=False,
            point=None):
    x0, tr, z, xg = self.setup(c, M, xsh, point=point)
    res = self.bounds(f, M, prop, x0, tr)
    co = self.ip.getattr(res, 'coefficients')
    try:
      want = self.reference(f, xg)
    except Unsupported:
      self.refute(f, co, z, xg, what)
      raise
    self.judge_coeffs(co, want, z, xg, what, M, exact)
    if api:
      self.judge_api(res, want, x0, tr, xg, what)
    return res

  def judge_coeffs(self, co, want, z, xg, what, M, exact=None):
    if M == 0:
      pass
    got = enclosure_ghost(co, z, what)
    same_rats(got, want, what)
    if len(co) - 1 > M:
      soft('form', f'{what}: degree {len(co) - 1} exceeds max_degree {M}')
    if M > 0:
      for k, cf in enumerate(co[:-1]):
        if isinstance(cf, tuple):
          soft('form', f'{what}: coefficient {k} of {len(co)} is an interval')
    if exact and any(isinstance(cf, tuple) for cf in co):
      soft('form', f'{what}: a polynomial of degree at most {M} has interval '
           'coefficients')

  def judge_api(self, res, want, x0, tr, xg, what):
    ip = self.ip
    x = np.empty(xg.shape, object)
    for i in np.ndindex(xg.shape):
      x[i] = V(xg[i])
    x = AArray(x)
    val = ip.call(res, [x], {})
    same_rats(need_ghosts(val, f'{what}(x)'), want, f'{what}(x)')
    lo = ip.call(ip.getattr(res, 'lower'), [x], {})
    up = ip.call(ip.getattr(res, 'upper'), [x], {})
    same_rats(need_ghosts((lo, up), f'{what}.lower/upper'), want, f'{what}.lower/upper')
    vlo, vup = val if isinstance(val, tuple) else (val, val)
    for nm, got, of in (('lower', lo, vlo), ('upper', up, vup)):
      got, of = d.as_arr(got), d.as_arr(of)
      if got.shape != of.shape:
        raise Violation(f'{what}.{nm}(x) has shape {got.shape}, {what}(x) {of.shape}')
      for i in np.ndindex(got.shape):
        p, q = d.to_v(got.data[i]), d.to_v(of.data[i])
        if p.is_exact() and q.is_exact() and p.ex != q.ex:
          raise Violation(f'{what}.{nm}(x) is {p!r}, not the end point {q!r} of {what}(x)')
        if isinstance(val, tuple) or not q.is_exact():
          continue
        if not p.is_exact():
          raise Violation(f'{what}.{nm}(x) is {p!r}, but {what}(x) is exactly {q!r}')
    fi = ip.call(ip.getattr(res, 'final_interval'), [], {})
    if not isinstance(fi, tuple) or len(fi) != 2:
      raise Violation(f'{what}.final_interval() is not an interval')
    last = ip.getattr(res, 'coefficients')[-1]
    same_rats(need_ghosts(fi if isinstance(last, tuple) else fi[0],
                          f'{what}.final_interval()'),
              need_ghosts(last, 'final coefficient'), f'{what}.final_interval()')
    if not isinstance(last, tuple) and not d.arr_equal(d.as_arr(fi[0]), d.as_arr(fi[1])):
      raise Violation(f'{what}.final_interval() of an exact coefficient is not a point')
    for nm, wantv in (('x0', x0), ):
      g = ip.getattr(res, nm)
      if not d.arr_equal(d.as_arr(g), d.as_arr(wantv)):
        raise Violation(f'{what}.{nm} is not the reference point')
    t = ip.getattr(res, 'x_trust_region')
    if not isinstance(t, tuple) or len(t) != 2 or not all(
        d.arr_equal(d.as_arr(p), d.as_arr(q)) for p, q in zip(t, tr)):
      raise Violation(f'{what}.x_trust_region is not the given region')


def prog(fn, name='f'):
  return Native(fn, name, {'__name__': name})


def conv_params(jw, n=2, strides=None, padding=None, rhs_dilation=None, spec=None):
  sp = tuple(range(n + 2))
  return dict(window_strides=strides or (1,) * n, padding=padding or ((0, 0),) * n,
              lhs_dilation=(1,) * n, rhs_dilation=rhs_dilation or (1,) * n,
              dimension_numbers=spec or jm.ConvDims(sp, sp, sp),
              feature_group_count=1, batch_group_count=1, precision=None,
              preferred_element_type=None)


def programs(jw):
  """name -> (program builder, x shapes, cost class).  Builders run per context."""
  b = jw.b
  nn = {k: v.fn for k, v in jw.nn.items()}
  S, W = (), (2,)
  out = {}

  def reg(name, fn, xs=(S, W), cost=1, exact=None, group='prim'):
    out[name] = (fn, xs, cost, exact, group)
  F = Fraction
  full = lambda x, shape: b('broadcast_in_dim', x, shape=shape, broadcast_dimensions=())
  # linear
  reg('identity', lambda x: x, exact=1)
  reg('constant', lambda x: F(2), exact=1)
  reg('add literal', lambda x: b('add', x, F(3)), exact=1)
  reg('literal add', lambda x: b('add', F(3), x), exact=1)
  reg('add const', lambda x: b('add', x, const('k', (2,))), xs=(W,), exact=1)
  reg('sub', lambda x: b('sub', F(1), b('mul', x, F(2))), exact=1)
  reg('neg', lambda x: b('neg', x), exact=1)
  reg('x+x', lambda x: b('add', x, x), exact=1)
  reg('x-x*x', lambda x: b('sub', x, b('mul', x, x)))
  # products and powers
  reg('mul', lambda x: b('mul', x, b('add', x, F(1))))
  reg('mul const', lambda x: b('mul', const('k', (2,)), x), exact=1)
  reg('scalar x times matrix', lambda x: b('mul', x, const('k', (2, 1))), xs=(S,), exact=1)
  reg('integer_pow 2', lambda x: b('integer_pow', x, y=2))
  reg('integer_pow 3', lambda x: b('integer_pow', b('sub', x, F(1)), y=3), cost=2)
  reg('integer_pow -1', lambda x: b('integer_pow', x, y=-1))
  reg('integer_pow -2', lambda x: b('integer_pow', x, y=-2), xs=(S,))
  for n in (-7, -5, -4, -3, 1, 4, 5, 6, 8):
    reg(f'integer_pow {n}', lambda x, n=n: b('integer_pow', x, y=n), xs=(S,),
        cost=2 if n > 0 else 1)
  for n in (F(2) + F(1, 2048), F(-1) - F(1, 4096), F(3), F(-5), F(7, 2), F(1, 1024),
            F(-5, 2), F(1, 3), F(10), F(1)):
    reg(f'pow {n}', lambda x, n=n: b('pow', x, n), xs=(S,),
        cost=2 if n.denominator == 1 and n > 0 else 1)
    if n.denominator > 1:
      reg(f'pow {n} of square', lambda x, n=n: b('pow', b('add', b('mul', x, x), F(1)), n),
          xs=(S,), cost=2)
  reg('integer_pow 0', lambda x: b('add', b('integer_pow', x, y=0), x))
  reg('pow .5', lambda x: b('pow', x, F(1, 2)))
  reg('pow 2.', lambda x: b('pow', x, F(2)))
  reg('pow 0.', lambda x: b('pow', x, F(0)))
  reg('div', lambda x: b('div', const('k'), x))
  reg('div by sum', lambda x: b('div', x, b('add', x, F(4))), xs=(S,), cost=2)
  reg('div const', lambda x: b('div', x, F(2)))
  # elementwise
  for n in ('abs', 'exp', 'log', 'logistic', 'sqrt', 'rsqrt', 'cbrt'):
    reg(n, lambda x, n=n: b(n, x))
    reg(f'{n} of square', lambda x, n=n: b(n, b('add', b('mul', x, x), F(1))), xs=(S,),
        cost=2)
  reg('exp exp', lambda x: b('exp', b('exp', x)), cost=2)
  reg('log exp', lambda x: b('log', b('exp', b('mul', F(2), x))), xs=(S,), cost=2)
  reg('x exp x', lambda x: b('mul', x, b('exp', x)))
  reg('exp * exp', lambda x: b('mul', b('exp', x), b('exp', b('neg', x))), xs=(S,), cost=2)
  # shape operations
  mat = lambda x: b('mul', x, const('k', (2, 3)))
  vec = lambda x: b('mul', x, const('k', (2,)))
  expv = lambda x: b('exp', b('mul', x, const('k', (2,))))
  reg('reshape', lambda x: b('reshape', mat(x), new_sizes=(3, 2)), xs=(S,), exact=1,
      group='shape')
  reg('reshape exp', lambda x: b('reshape', expv(x), new_sizes=(2, 1)), group='shape')
  reg('transpose', lambda x: b('transpose', mat(x), permutation=(1, 0)), xs=(S,),
      exact=1, group='shape')
  def outer(x):
    return b('mul', b('broadcast_in_dim', x, shape=(2, 3), broadcast_dimensions=(0,)),
             const('k', (2, 3)))
  reg('outer', outer, xs=(W,), exact=1, group='shape')
  reg('transpose v', lambda x: b('transpose', outer(x), permutation=(1, 0)), xs=(W,),
      exact=1, group='shape')
  reg('reshape v', lambda x: b('reshape', outer(x), new_sizes=(3, 2)), xs=(W,), exact=1,
      group='shape')
  reg('reduce_sum', lambda x: b('reduce_sum', mat(x), axes=(0,)), xs=(S,), exact=1,
      group='shape')
  reg('reduce_sum v', lambda x: b('reduce_sum', outer(x), axes=(1,)), xs=(W,), exact=1,
      group='shape')
  reg('reduce_sum v0', lambda x: b('reduce_sum', outer(x), axes=(0,)), xs=(W,), exact=1,
      group='shape')
  reg('reduce_sum all', lambda x: b('reduce_sum', b('exp', outer(x)), axes=(0, 1)),
      xs=(W,), cost=2, group='shape')
  reg('sum of squares', lambda x: b('reduce_sum', b('mul', x, x), axes=(0,)), xs=(W,),
      group='shape')
  reg('squeeze', lambda x: b('squeeze', b('reshape', expv(x), new_sizes=(1, 2, 1)),
                             dimensions=(0, 2)), group='shape')
  reg('squeeze neg', lambda x: b('squeeze', b('reshape', vec(x), new_sizes=(2, 1)),
                                 dimensions=(1,)), group='shape', exact=1)
  rw = dict(window_dimensions=(2,), window_strides=(1,), padding=((0, 1),),
            base_dilation=(1,), window_dilation=(1,))
  reg('reduce_window_sum', lambda x: b('reduce_window_sum', expv(x), **rw),
      group='shape')
  reg('reduce_window_sum 2d', lambda x: b(
      'reduce_window_sum', mat(x), window_dimensions=(1, 2), window_strides=(1, 1),
      padding=((0, 0), (0, 0)), base_dilation=(1, 1), window_dilation=(1, 1)),
      xs=(S,), exact=1, group='shape')
  reg('broadcast', lambda x: b('exp', full(x, (2,))), xs=(S,), group='shape')
  reg('broadcast v', lambda x: b('broadcast_in_dim', b('exp', x), shape=(3, 2),
                                 broadcast_dimensions=(1,)), xs=(W,), group='shape')
  reg('broadcast v1', lambda x: b('broadcast_in_dim', b('mul', x, x), shape=(2, 3),
                                  broadcast_dimensions=(0,)), xs=(W,), group='shape')
  reg('broadcast one', lambda x: b('broadcast_in_dim', b('reshape', b('reduce_sum', x, axes=(0,)), new_sizes=(1,)), shape=(2, 3),
                                  broadcast_dimensions=(0,)), xs=(W,), group='shape', exact=1)
  reg('convert', lambda x: b('mul', x, b('convert_element_type', x, new_dtype=F32,
                                         weak_type=False, sharding=None)), group='shape')
  # dot_general
  DN = lambda c, bt=((), ()): (c, bt)
  reg('dot vec vec', lambda x: b('dot_general', x, x, dimension_numbers=DN(((0,), (0,)))),
      xs=(W,), group='dot')
  reg('dot const mat', lambda x: b('dot_general', const('A', (3, 2)), x,
                                   dimension_numbers=DN(((1,), (0,)))), xs=(W,), exact=1,
      group='dot')
  reg('dot const mat0', lambda x: b('dot_general', const('A', (2, 3)), x,
                                    dimension_numbers=DN(((0,), (0,)))), xs=(W,),
      exact=1, group='dot')
  reg('dot x mat', lambda x: b('dot_general', x, const('A', (2, 3)),
                               dimension_numbers=DN(((0,), (0,)))), xs=(W,), exact=1,
      group='dot')
  reg('dot x mat1', lambda x: b('dot_general', x, const('A', (3, 2)),
                                dimension_numbers=DN(((0,), (1,)))), xs=(W,), exact=1,
      group='dot')
  reg('dot exp mat', lambda x: b('dot_general', b('exp', x), const('A', (2, 3)),
                                 dimension_numbers=DN(((0,), (0,)))), xs=(W,),
      group='dot')
  reg('outer product', lambda x: b('dot_general', x, b('add', x, F(1)),
                                   dimension_numbers=DN(((), ()))), xs=(W,), group='dot')
  reg('matmul scalar', lambda x: b('dot_general', mat(x), b('mul', x, const('A', (3, 2))),
                                   dimension_numbers=DN(((1,), (0,)))), xs=(S,),
      group='dot')
  reg('matmul both', lambda x: b('dot_general', outer(x),
                                 b('transpose', b('add', outer(x), F(1)), permutation=(1, 0)),
                                 dimension_numbers=DN(((1,), (0,)))), xs=(W,), cost=3,
      group='dot')
  reg('matmul other axis', lambda x: b('dot_general', outer(x), b('add', outer(x), F(1)),
                                       dimension_numbers=DN(((0,), (0,)))), xs=(W,),
      cost=3, group='dot')
  reg('double contraction', lambda x: b(
      'dot_general', outer(x), const('A', (3, 2)),
      dimension_numbers=DN(((0, 1), (1, 0)))), xs=(W,), group='dot', exact=1)
  reg('double contraction 2', lambda x: b(
      'dot_general', const('A', (3, 2)), outer(x),
      dimension_numbers=DN(((0, 1), (1, 0)))), xs=(W,), group='dot', exact=1)
  reg('batch', lambda x: b('dot_general', outer(x), const('A', (2, 3)),
                           dimension_numbers=DN(((1,), (1,)), ((0,), (0,)))), xs=(W,),
      exact=1, group='dot')
  reg('batch const first', lambda x: b(
      'dot_general', const('A', (2, 3)), outer(x),
      dimension_numbers=DN(((1,), (1,)), ((0,), (0,)))), xs=(W,), exact=1, group='dot')
  reg('batch both', lambda x: b('dot_general', outer(x), b('exp', outer(x)),
                                dimension_numbers=DN(((1,), (1,)), ((0,), (0,)))),
      xs=(W,), cost=3, group='dot')
  reg('batch second axis', lambda x: b(
      'dot_general', outer(x), const('A', (3, 2)),
      dimension_numbers=DN(((0,), (1,)), ((1,), (0,)))), xs=(W,), exact=1, group='dot')
  reg('batch with free dims', lambda x: b(
      'dot_general', outer(x), const('A', (2, 3, 2)),
      dimension_numbers=DN(((1,), (1,)), ((0,), (0,)))), xs=(W,), exact=1, group='dot')
  reg('batch with free dims both', lambda x: b(
      'dot_general', b('mul', b('broadcast_in_dim', x, shape=(2, 3, 2),
                                broadcast_dimensions=(0,)), const('k', (2, 3, 2))),
      b('mul', b('broadcast_in_dim', x, shape=(2, 1, 2), broadcast_dimensions=(2,)),
        const('q', (2, 1, 2))),
      dimension_numbers=DN(((2,), (2,)), ((0,), (0,)))), xs=(W,), cost=3, group='dot')
  reg('negative structure', lambda x: b('dot_general', b('neg', x), b('exp', x),
                                        dimension_numbers=DN(((0,), (0,)))), xs=(W,),
      group='dot', cost=2)
  # convolution
  def img(x, nm, shape):
    return b('mul', x, const(nm, shape))
  reg('conv', lambda x: b('conv_general_dilated', img(x, 'k', (1, 2, 2, 2)),
                          const('w', (2, 2, 1, 2)), **conv_params(jw)), xs=(S,), exact=1,
      group='dot')
  reg('conv const lhs', lambda x: b('conv_general_dilated', const('k', (2, 1, 2, 3)),
                                    img(x, 'w', (2, 1, 1, 2)), **conv_params(jw)),
      xs=(S,), exact=1, group='dot')
  reg('conv both', lambda x: b('conv_general_dilated', b('exp', img(x, 'k', (1, 1, 2, 3))),
                               img(x, 'w', (2, 1, 2, 2)), **conv_params(jw)), xs=(S,),
      cost=2, group='dot')
  reg('conv strided', lambda x: b(
      'conv_general_dilated', img(x, 'k', (1, 1, 3, 3)), const('w', (1, 1, 2, 2)),
      **conv_params(jw, strides=(1, 2), padding=((1, 0), (0, 1)))), xs=(S,), exact=1,
      group='dot')
  # rewriting
  for n in ('sigmoid', 'softplus', 'swish'):
    reg(f'nn.{n}', lambda x, n=n: nnf(jw, n, x), group='rewrite')
    reg(f'nn.{n} of affine', lambda x, n=n: b('add', nnf(jw, n, b('mul', x, F(2))), x),
        xs=(S,), group='rewrite')
  reg('swish twice', lambda x: nnf(jw, 'swish', nnf(jw, 'swish', x)), xs=(S,), cost=3,
      group='rewrite')
  reg('swish plus softplus', lambda x: b('add', nnf(jw, 'swish', x),
                                         nnf(jw, 'softplus', b('neg', x))),
      group='rewrite')
  reg('sigmoid times x', lambda x: b('mul', nnf(jw, 'sigmoid', x), x), xs=(S,),
      group='rewrite')
  reg('softplus of exp', lambda x: nnf(jw, 'softplus', b('exp', x)), xs=(S,), cost=2,
      group='rewrite')
  def shared(x):
    s = b('logistic', x, accuracy=None)
    return b('add', b('mul', x, s), s)
  reg('logistic used twice', shared, xs=(S,), group='rewrite')
  def other(x):
    s = b('logistic', x, accuracy=None)
    return b('mul', b('add', x, F(1)), s)
  reg('not quite swish', other, xs=(S,), group='rewrite')
  def jshared(x):
    # a softplus-like custom call with another body must not be taken for softplus
    def body(a):
      return jm.custom_jvp(jw.P, prog(lambda u, v: b('mul', u, v)), [a, F(0)],
                           'logaddexp')[0]
    return b('add', x, jm.jit_call(jw.P, prog(body), [F(3)], 'softplus')[0])
  reg('another custom call', jshared, xs=(S,), group='rewrite')
  # jit, constants
  def jitted(g, *args, name='g', **k):
    return jm.jit_call(jw.P, prog(g), list(args), name, **k)
  reg('jit', lambda x: jitted(lambda a: b('mul', a, a), x)[0], group='jit')
  reg('jit twice', lambda x: b('add', *[jitted(lambda a: b('exp', a), y)[0]
                                        for y in (x, b('neg', x))]), xs=(S,), group='jit')
  def same_jit(x):
    cache = {}
    def call(y):
      if not jm.TRACES:
        return b('mul', y, b('add', y, F(1)))
      if 'cj' not in cache:
        outs = jitted(lambda a: b('mul', a, b('add', a, F(1))), y)
        cache['cj'] = jm.TRACES[-1].eqns[-1].params
        return outs[0]
      return jw.P['jit'].bind(y, **cache['cj'])[0]
    return b('add', call(x), call(call(x)))
  reg('same jit body', same_jit, xs=(S,), group='jit')
  reg('nested jit', lambda x: b('sub', jitted(
      lambda a: b('add', jitted(lambda c: b('exp', c), b('neg', a))[0], a), x)[0], x),
      group='jit')
  reg('jit with constant', lambda x: jitted(
      lambda a: b('mul', a, const('k', (2,))), x)[0], group='jit')
  # several different constants of an inner program
  kq = lambda n, sh=(2,): const(n, sh)
  reg('jit with two constants', lambda x: jitted(lambda a: b(
      'sub', b('mul', a, kq('k')), kq('q')), x)[0], group='jit')
  reg('jit with constants first used last', lambda x: jitted(lambda a: b(
      'mul', b('sub', kq('q'), b('mul', kq('k'), a)), kq('q')), x)[0], xs=(S,), group='jit')
  reg('jit with three constants', lambda x: jitted(lambda a, c: (
      b('mul', b('add', c, kq('k')), kq('q')), b('sub', a, b('exp', kq('w')))),
      x, kq('w'))[0], xs=(S,), group='jit')
  reg('jit with constants, both results', lambda x: b('mul', *jitted(lambda a: (
      b('add', a, kq('k')), b('sub', kq('q'), b('mul', a, kq('w')))), x)), xs=(S,),
      group='jit')
  reg('nested jit with constants', lambda x: b('add', jitted(lambda a: b(
      'mul', kq('k'), jitted(lambda c: b('sub', b('mul', c, kq('q')), kq('w')),
                             b('neg', a))[0]), x)[0], kq('q')), xs=(S,), group='jit')
  reg('two jits with constants', lambda x: b('sub', *[jitted(lambda a, u=u, v=v: b(
      'add', b('mul', a, kq(u)), kq(v)), x)[0] for u, v in ('kq', 'qk')]), xs=(S,),
      group='jit')
  reg('jit with constants and an argument', lambda x: jitted(lambda a, c: b(
      'add', b('mul', a, c), b('mul', kq('k'), kq('q'))), kq('w'), x)[0], xs=(S,),
      group='jit')
  reg('jit with constants of two shapes', lambda x: jitted(lambda a: b(
      'mul', b('add', a, kq('k', (3, 2))), kq('q', (1, 2))), x)[0], xs=(S,), group='jit')
  row = lambda v, n: b('broadcast_in_dim', v, shape=(n, 2), broadcast_dimensions=(1,))
  reg('jit with constants of falling rank', lambda x: jitted(lambda a: b(
      'sub', b('mul', row(a, 3), kq('k', (3, 2))), row(kq('q', (2,)), 3)), x)[0],
      xs=(W,), group='jit')
  reg('jit with constants of rising rank', lambda x: jitted(lambda a: b(
      'sub', row(b('mul', a, kq('q', (2,))), 3), kq('k', (3, 2))), x)[0],
      xs=(W,), group='jit')
  reg('jit with constants of mixed rank', lambda x: jitted(lambda a: b(
      'add', b('mul', row(a, 1), kq('k', (1, 2))), b('mul', row(kq('q', (2,)), 1), row(
          b('mul', a, kq('w', ())), 1))), x)[0], xs=(W,), group='jit')
  reg('jit of constants', lambda x: b('mul', jitted(lambda a: b('mul', a, a), F(3))[0], x),
      group='jit')
  reg('jit two args', lambda x: jitted(lambda a, c: b('sub', a, b('mul', c, c)), F(1), x)[0],
      group='jit')
  reg('jit two results', lambda x: b('sub', *jitted(
      lambda a: (b('exp', a), b('mul', a, a)), x)), xs=(S,), group='jit')
  def dropped(x):
    o = jitted(lambda a: (b('mul', a, F(2)), b('mul', a, a)), x, keep=(1,))
    return b('add', o[1], x)
  reg('jit dropped result', dropped, xs=(S,), group='jit')
  def dropped2(x):
    u = jitted(lambda a: (b('mul', a, F(2)), b('mul', a, a)), x, keep=(0,))
    v = jitted(lambda a: (b('mul', a, F(2)), b('mul', a, a)), u[0], keep=(0,))
    return b('add', u[0], v[0])
  reg('jit dropped results', dropped2, group='jit')
  reg('jit returns argument', lambda x: b('add', *jitted(
      lambda a: (a, b('neg', b('mul', a, a))), x)), xs=(S,), group='jit')
  reg('jit returns constant', lambda x: b('add', jitted(
      lambda a: (F(5), a), x)[0], x), xs=(S,), group='jit')
  reg('jit output is program output', lambda x: jitted(
      lambda a: jitted(lambda q: b('exp', q), a)[0], x)[0], group='jit')
  reg('softplus inside jit', lambda x: b('mul', jitted(
      lambda a: nnf(jw, 'softplus', b('mul', a, F(2))), x)[0], x), xs=(S,), group='jit')
  reg('swish inside jit', lambda x: jitted(
      lambda a: nnf(jw, 'swish', a), b('neg', x))[0], group='jit')
  reg('constant chain', lambda x: b('mul', x, b('exp', b('add', const('k'), F(1)))),
      group='jit')
  reg('constant sum', lambda x: b('mul', x, b('reduce_sum', const('k', (3,)), axes=(0,))),
      group='jit')
  reg('constant sort', lambda x: b('mul', x, b('sort', num(3, -1), dimension=0,
                                               is_stable=True, num_keys=1)[0]),
      group='jit')
  reg('constant softplus', lambda x: b('mul', x, nnf(jw, 'softplus', const('k', (2,)))),
      group='jit')
  reg('constant swish', lambda x: b('mul', x, nnf(jw, 'swish', const('k'))), group='jit')
  reg('constant relu', lambda x: b('mul', x, jm.custom_jvp(
      jw.P, prog(lambda c: b('add', c, F(1))), [const('k')], 'relu')[0]), group='jit')
  reg('constant outside the table', lambda x: b('add', x, b('floor', const('k'))),
      group='jit')
  reg('constant exponent', lambda x: b('pow', x, b('sub', F(2), F(3, 2))), group='jit')
  reg('constant argmax', lambda x: b('add', x, b('cumsum', const('k', (2,)), axis=0,
                                                 reverse=False)), group='jit')
  # repeated constant subexpressions, over primitives and shapes
  for sh in ((), (2,), (3, 2)):
    u, w = (lambda sh=sh: const('k', sh)), (lambda sh=sh: const('q', sh))
    xs = (S, W) if len(sh) < 2 else (S,)
    for op in ('exp', 'neg', 'floor'):
      reg(f'two constants {op} {sh}', lambda x, op=op, u=u, w=w: b(
          'add', b('mul', x, b(op, u())), b(op, w())), xs=xs, group='jit', exact=1)
    for op in ('add', 'sub', 'mul'):
      reg(f'constants {op} {sh}', lambda x, op=op, u=u, w=w: b(
          'add', b('mul', x, b(op, u(), w())), b(op, w(), u())), xs=xs, group='jit', exact=1)
    reg(f'constant nested {sh}', lambda x, u=u, w=w: jitted(lambda a, c: b(
        'sub', b('mul', a, b('exp', c)), b('exp', b('exp', c))), x, u())[0], xs=xs,
        group='jit', exact=1)
    reg(f'constants in two calls {sh}', lambda x, u=u, w=w: b(
        'add', jitted(lambda a, c: b('mul', a, b('exp', c)), x, u())[0],
        jitted(lambda a, c: b('add', a, b('exp', c)), x, w())[0]), xs=xs, group='jit', exact=1)
  for ax in (0, 1):
    reg(f'constant reduce {ax}', lambda x, ax=ax: b('add', b(
        'mul', x, b('reduce_sum', const('k', (2, 2)), axes=(ax,))), b(
            'reduce_sum', const('k', (2, 2)), axes=(1 - ax,))), xs=(S, W), group='jit',
        exact=1)
  # primitives with several results, applied to constants
  for sh, ax in (((3,), 0), ((2, 2), 1)):
    sizes = (1, sh[ax] - 1)
    def parts(sh=sh, ax=ax, sizes=sizes, nm='k'):
      return b('split', const(nm, sh), sizes=sizes, axis=ax)
    def tot(y, n=len(sh)):
      return b('reduce_sum', y, axes=tuple(range(n)))
    reg(f'split constant {sh}', lambda x, parts=parts, tot=tot: (lambda p: b(
        'add', b('mul', x, tot(p[0])), tot(p[1])))(parts()), group='jit', exact=1)
    for k in (0, 1):
      reg(f'part {k} of a constant {sh}', lambda x, parts=parts, tot=tot, k=k: b(
          'mul', x, tot(parts()[k])), group='jit', exact=1)
    reg(f'parts swapped {sh}', lambda x, parts=parts, tot=tot: (lambda p, q: b(
        'add', b('mul', x, tot(p[1])), b('mul', tot(p[0]), tot(q[1]))))(
            parts(), parts(nm='q')), xs=(S,), group='jit', exact=1)
    reg(f'split in a call {sh}', lambda x, parts=parts, tot=tot: b(*['add'] + list(jitted(
        lambda a: (lambda p: (b('mul', a, tot(p[0])), tot(p[1])))(parts()), x))), xs=(S,),
        group='jit', exact=1)
  def two_sorted(x, k=None):
    u, w = b('sort', num(3, -1), num(2, 5), dimension=0, is_stable=True, num_keys=1)
    one = lambda y, i: b('squeeze', b('slice', y, start_indices=(i,), limit_indices=(i + 1,),
                                      strides=None), dimensions=(0,))
    if k is None:
      return b('add', b('mul', x, one(u, 0)), one(w, 0))
    return b('mul', x, one((u, w)[k], 1))
  reg('constants sorted together', two_sorted, group='jit', exact=1)
  for k in (0, 1):
    reg(f'constants sorted together, result {k}', lambda x, k=k: two_sorted(x, k),
        xs=(S,), group='jit', exact=1)
  reg('top_k of a constant', lambda x: b('add', x, b('reduce_sum', b(
      'top_k', num(3, -1, 4), k=2)[0], axes=(0,))), group='jit', exact=1)
  reg('constant transposed', lambda x: b('add', b('mul', x, const('k', (2, 2))), b(
      'transpose', const('k', (2, 2)), permutation=(1, 0))), xs=(S,), group='jit', exact=1)
  reg('dot of constants', lambda x: b('mul', x, b(
      'dot_general', const('k', (2, 2)), const('q', (2,)),
      dimension_numbers=DN(((1,), (0,))))), group='jit')
  return out


def sweep_dot(jw):
  """dot_general over its dimension structures: name, program, x shape, exact."""
  b = jw.b
  rng = np.random.RandomState(7)
  # up to three axes of each kind; many axes are mostly of size one
  many = ((2, 2, 2, 1), (1, 2, 3, 2), (3, 1, 2, 2), (0, 3, 3, 1), (2, 1, 3, 3), (1, 3, 2, 3),
          (3, 3, 1, 1), (3, 0, 3, 0), (0, 0, 3, 3))
  for nb, nc, na, nq in (*itertools.product((0, 1, 2), repeat=4), *many):
    big = (nb, nc, na, nq) in many
    if not big and (nb + nc + na > 4 or nb + nc + nq > 4 or nb + nc + na + nq > 5):
      continue
    for rep in range(2):
      sb = [(2, 1, 1), (1, 2, 1)][rep][:nb]
      sc = [(1, 1, 2) if big else (2, 1), (1, 2, 1) if big else (3, 2)][rep][:nc]
      fa = [(1, 2, 1) if big else (3, 2), (2, 1, 1)][rep][:na]
      fb = [(1, 1, 3) if big else (2, 3), (1, 2, 1)][rep][:nq]
      pa = rng.permutation(nb + nc + na) if rep else np.arange(nb + nc + na)
      pb = rng.permutation(nb + nc + nq) if rep else np.arange(nb + nc + nq)[::-1]
      # dimension i of the canonical order (batch, contracted, free) is at pa[i]
      sha, shb = [0] * len(pa), [0] * len(pb)
      for i, n in enumerate(sb + sc + fa):
        sha[pa[i]] = n
      for i, n in enumerate(sb + sc + fb):
        shb[pb[i]] = n
      dn = ((tuple(int(v) for v in pa[nb:nb + nc]), tuple(int(v) for v in pb[nb:nb + nc])),
            (tuple(int(v) for v in pa[:nb]), tuple(int(v) for v in pb[:nb])))
      sha, shb = tuple(sha), tuple(shb)
      if np.prod(sha, dtype=int) * np.prod(shb, dtype=int) > 150:
        continue
      for xsh in ((), (2,)):
        def arr(x, shape, nm, last=False):
          """An array of this shape, affine in x."""
          if shape == ():
            return b('reduce_sum', x, axes=(0,)) if xsh else x
          k = const(nm, shape)
          if xsh:
            at = [i for i, n in enumerate(shape) if n == 2]
            if not at:
              x = b('reshape', b('reduce_sum', x, axes=(0,)), new_sizes=(1,))
              at = [i for i, n in enumerate(shape) if n == 1] or [0]
            x = b('broadcast_in_dim', x, shape=shape,
                  broadcast_dimensions=(at[-1 if last else 0],))
          return b('mul', k, x)
        def left(x):
          return b('dot_general', arr(x, sha, 'k'), const('A', shb), dimension_numbers=dn)
        def right(x):
          return b('dot_general', const('A', sha), arr(x, shb, 'k'), dimension_numbers=dn)
        def both(x):
          return b('dot_general', arr(x, sha, 'k'), arr(x, shb, 'q', True),
                   dimension_numbers=dn)
        nm = f'{sha} by {shb} over {dn[0]} batch {dn[1]}'
        yield 'left ' + nm, left, xsh, True, (0, 1)
        yield 'right ' + nm, right, xsh, True, (0, 1)
        if np.prod(sha, dtype=int) * np.prod(shb, dtype=int) <= 40:
          yield 'both ' + nm, both, xsh, False, (1, 2)


def sweep_axes(jw):
  """Shape operations over their parameters."""
  b = jw.b
  S, W = (), (2,)
  def base(x, xsh, shape, pos):
    """A quadratic function of x of this shape."""
    if xsh:
      x = b('broadcast_in_dim', x, shape=shape, broadcast_dimensions=(pos,))
    y = b('mul', x, const('k', shape)) if shape else x
    return b('mul', y, b('add', y, Fraction(1)))
  ops = []
  shapes = ((2,), (2, 3), (3, 2), (1, 2), (2, 1, 3), (2, 2, 2), (3, 1, 2))
  for sh in shapes:
    n = len(sh)
    for r in range(n + 1):
      for ax in itertools.combinations(range(n), r):
        ops.append((f'reduce_sum {sh} {ax}', sh, lambda y, ax=ax: b(
            'reduce_sum', y, axes=ax)))
    for pm in itertools.permutations(range(n)):
      ops.append((f'transpose {sh} {pm}', sh, lambda y, pm=pm: b(
          'transpose', y, permutation=pm)))
    ones = [i for i in range(n) if sh[i] == 1]
    for r in range(1, len(ones) + 1):
      for ax in itertools.combinations(ones, r):
        ops.append((f'squeeze {sh} {ax}', sh, lambda y, ax=ax: b(
            'squeeze', y, dimensions=ax)))
    size = int(np.prod(sh))
    for ns in {(size,), (1, size), (size, 1), (size // 2, 2), (2, size // 2),
               (2, 1, size // 2), sh[::-1]}:
      ops.append((f'reshape {sh} {ns}', sh, lambda y, ns=ns: b(
          'reshape', y, new_sizes=ns)))
    for m in range(n, n + 3):
      for bd in itertools.combinations(range(m), n):
        if m == n + 2 and bd[0] + bd[-1] not in (1, m - 1, m):
          continue
        tgt = [2 if i % 2 else 1 for i in range(m)]
        for i, k in zip(bd, sh):
          tgt[i] = 3 if k == 1 and m > n else k
        if np.prod(tgt) <= 36:
          ops.append((f'broadcast {sh} to {tuple(tgt)} at {bd}', sh,
                      lambda y, t=tuple(tgt), bd=bd: b(
                          'broadcast_in_dim', y, shape=t, broadcast_dimensions=bd)))
    win = [((1,) * n, (1,) * n, ((0, 0),) * n, (1,) * n, (1,) * n),
           (tuple(min(2, k) for k in sh), (1,) * n, ((0, 0),) * n, (1,) * n, (1,) * n),
           ((2,) * n, (2,) * n, ((1, 1),) * n, (1,) * n, (1,) * n),
           ((2,) * n, tuple(1 + i % 2 for i in range(n)), tuple(
               (i % 2, 1) for i in range(n)), (1,) * n, (1,) * n),
           (tuple(2 if k > 1 else 1 for k in sh), (1,) * n, ((1, 0),) * n,
            tuple(2 if k == 2 else 1 for k in sh), (1,) * n),
           (tuple(2 if k > 2 else 1 for k in sh), (1,) * n, ((0, 1),) * n, (1,) * n,
            tuple(2 if k > 2 else 1 for k in sh))]
    for w in win:
      ops.append((f'reduce_window_sum {sh} {w}', sh, lambda y, w=w: b(
          'reduce_window_sum', y, **dict(zip((
              'window_dimensions', 'window_strides', 'padding', 'base_dilation',
              'window_dilation'), w)))))
  for nm, sh, op in ops:
    for xsh in (S, W):
      at = [i for i, k in enumerate(sh) if k == 2]
      if xsh and not at:
        continue
      yield nm, (lambda x, op=op, sh=sh, xsh=xsh, at=at: op(
          base(x, xsh, sh, at[-1] if at else 0))), xsh, False, (1, 2) if xsh else (0, 2)
  # of polynomials of higher degree
  def higher(x, shape, pos, n):
    y = b('broadcast_in_dim', x, shape=shape, broadcast_dimensions=(pos,))
    y = b('mul', y, const('k', shape))
    return b('add', b('integer_pow', y, y=n), y)
  for nm, sh, op in ops:
    for xsh, n, Ms in (((1,), 3, (3,)), ((1,), 4, (4, 5)), (W, 3, (2, 3))):
      if n == 4 and sh not in ((2,), (2, 3), (1, 2)) or \
          xsh == W and sh not in ((2,), (1, 2)):
        continue
      yield f'{nm} of a power {n}', (lambda x, op=op, sh=sh, n=n: op(
          higher(x, sh, sh.index(2), n))), xsh, False, Ms


def sweep_conv(jw):
  """Convolutions over their parameters (argument of a single number)."""
  b = jw.b
  S = ()
  C = jm.ConvDims
  c2 = (0, 1, 2, 3)
  for nm, la, lb, kw in (
      ('plain', (1, 2, 2, 2), (2, 2, 1, 2), {}),
      ('pad', (1, 1, 2, 2), (1, 1, 2, 2), dict(padding=((1, 0), (2, 1)))),
      ('stride', (1, 1, 3, 3), (2, 1, 2, 1), dict(window_strides=(2, 1))),
      ('rhs dilation', (1, 1, 3, 3), (1, 1, 2, 2), dict(rhs_dilation=(2, 1))),
      ('lhs dilation', (1, 1, 2, 2), (1, 1, 2, 1), dict(lhs_dilation=(1, 2))),
      ('feature groups', (1, 4, 2, 1), (2, 2, 1, 1), dict(feature_group_count=2)),
      ('depthwise', (1, 2, 2, 2), (4, 1, 1, 2), dict(feature_group_count=2)),
      ('batch groups', (2, 1, 2, 1), (2, 1, 1, 1), dict(batch_group_count=2)),
      ('NHWC', (1, 2, 2, 3), (1, 2, 3, 2), dict(dimension_numbers=C(
          (0, 3, 1, 2), (3, 2, 0, 1), (0, 3, 1, 2)))),
      ('other order', (2, 1, 3, 2), (2, 1, 2, 2), dict(dimension_numbers=C(
          (3, 0, 1, 2), (0, 2, 1, 3), (3, 2, 1, 0)))),
      ('batch', (3, 1, 2, 2), (2, 1, 2, 1), {}),
  ):
    pr = conv_params(jw)
    pr.update(kw)
    def left(x, la=la, lb=lb, pr=pr):
      return b('conv_general_dilated', b('mul', x, const('k', la)), const('w', lb), **pr)
    def right(x, la=la, lb=lb, pr=pr):
      return b('conv_general_dilated', const('k', la), b('mul', x, const('w', lb)), **pr)
    def both(x, la=la, lb=lb, pr=pr):
      return b('conv_general_dilated', b('mul', x, const('k', la)), b(
          'mul', b('add', x, Fraction(1)), const('w', lb)), **pr)
    yield f'conv {nm} left', left, S, True, (0, 1)
    yield f'conv {nm} right', right, S, True, (0, 1)
    yield f'conv {nm} both', both, S, False, (1, 2)
  pr = conv_params(jw, n=1)
  yield ('conv 1d', lambda x: b('conv_general_dilated', b('mul', x, const('k', (1, 2, 3))),
                                const('w', (2, 2, 2)), **pr), S, True, (0, 1))


def run_sweep(report, G, gen, rule):
  global F32
  jw = JW(report)
  F32 = jw.np.attrs['float32']
  for n, (name, fn, xsh, exact, Ms) in enumerate(gen(jw)):
    for M, prop in [(M, False) for M in Ms] + ([(1, True)] if n % 5 == 0 else []):
      check(report, G, 'J-propagate' if prop else rule, TB,
            f'{name} x{xsh} degree {M}{" propagate" if prop else ""}',
            lambda c: jw.judge(c, prog(fn), M, prop, xsh, exact=exact and M >= 1), jw.ip)


F32 = None


def nnf(jw, name, x):
  """jax.nn function: traced as JAX traces it, evaluated through its contract."""
  return jw.nn[name].fn(x)


# elementwise functions of elementwise functions: the cost grows fast with the degree
NESTED = ('exp exp', 'log exp', 'softplus of exp', 'swish twice')


def run_programs(report, G, group, high=False):
  global F32
  jw = JW(report)
  F32 = jw.np.attrs['float32']
  ps = programs(jw)
  thorough = report.tier != 'quick'
  for name, (fn, xs, cost, exact, grp) in ps.items():
    if grp != group:
      continue
    for xsh in xs:
      top = 6 if not thorough else 7
      if name in NESTED:
        top = 3 if xsh else 5
      for M in range(4, top + 1) if high else range(min(top, 3) + 1):
        for prop in (False, True):
          if prop and M == 0:
            continue
          def go(c, fn=fn, xsh=xsh, M=M, prop=prop, exact=exact):
            jw.judge(c, prog(fn), M, prop, xsh, exact=exact and M >= 1)
          check(report, G, 'J-propagate' if prop else RULE[group], RULE_AT[group],
                f'{name} x{xsh} degree {M}{" propagate" if prop else ""}', go, jw.ip)


RULE = {'prim': 'J-primitive', 'shape': 'J-shape', 'dot': 'J-bilinear',
        'rewrite': 'J-rewrite', 'jit': 'J-structure'}
RULE_AT = {k: 'jax_bound.taylor_bounds' for k in RULE}
TB = 'jax_bound.taylor_bounds'


# -- generated programs ------------------------------------------------------------


class Gen:
  """Generated programs: straight-line code with nested calls that share, drop, repeat,
  pass on and reorder arguments and results."""

  def __init__(self, seed, size, depth):
    self.rng = random.Random(seed)
    self.size = size
    self.body = self.block([(0, 1)], size, depth, 1)

  def block(self, vals, n, depth, outs):
    """vals: (nesting of elementwise functions, polynomial degree) of every value."""
    r = self.rng
    vals = list(vals)
    code = []
    for _ in range(n):
      kind = r.choice(['un', 'un', 'bin', 'bin', 'bin', 'fn'] + ['call'] * (3 * (depth > 0)))
      i = r.randrange(len(vals)) if r.random() < .5 else len(vals) - 1
      e, g = vals[i]
      if kind == 'un':
        if g <= 2 and e == 0 and r.random() < .3:
          code.append(('integer_pow', i, 2))
          vals.append((e, 2 * g))
        else:
          code.append(('neg', i))
          vals.append((e, g))
      elif kind == 'fn':
        if e or g > 2:
          continue
        code.append(('fn', r.choice(('exp', 'exp', 'sigmoid', 'softplus', 'swish')), i))
        vals.append((1, 1))
      elif kind == 'bin':
        op = r.choice(('add', 'sub', 'mul'))
        c = r.random()
        if c < .25:
          o = ('lit', r.choice((2, 3, -1)))
          eo, go_ = 0, 0
        elif c < .5:
          o = ('const', r.choice('kq'))
          eo, go_ = 0, 0
        else:
          o = r.randrange(len(vals))
          eo, go_ = vals[o]
        if op == 'mul' and (g + go_ > 4 or (e or eo) and not isinstance(o, tuple)):
          op = 'sub'
        a = (i, o) if r.random() < .5 else (o, i)
        code.append((op,) + a)
        vals.append((max(e, eo), g + go_ if op == 'mul' else max(g, go_)))
      else:
        m = r.randrange(1, 5)
        args, inner = [], []
        for _ in range(m):
          c = r.random()
          if c < .15:
            args.append(('const', r.choice('kq')))
            inner.append((0, 0))
          elif c < .25:
            args.append(('lit', r.choice((2, 5))))
            inner.append((0, 0))
          else:
            j = r.randrange(len(vals))
            args.append(j)
            inner.append(vals[j])
        k = r.randrange(1, 4)
        sub, res, iv = self.block(inner, r.randrange(0, 4), depth - 1, k)
        keep = tuple(q for q in range(k) if k == 1 or r.random() < .8) or (0,)
        code.append(('call', tuple(args), sub, res, keep))
        vals += [iv[q] if isinstance(q, int) else (0, 0) for q in res]
        # dropped results are never used afterwards
        base = len(vals) - k
        for q in range(k):
          if q not in keep:
            vals[base + q] = None
      while None in vals:
        # a dropped result stands for its first argument from here on
        vals[vals.index(None)] = vals[0]
    res = [r.randrange(len(vals)) if r.random() < .4 else len(vals) - 1
           for _ in range(outs)]
    if outs > 1 and r.random() < .15:
      res[r.randrange(outs)] = ('lit', 4)
    return code, res, vals

  def build(self, jw, xsh):
    b = jw.b
    def get(vals, a):
      if isinstance(a, int):
        return vals[a]
      return Fraction(a[1]) if a[0] == 'lit' else const(a[1], xsh)
    def run(code, vals):
      vals = list(vals)
      for ins in code:
        if ins[0] == 'neg':
          vals.append(b('neg', vals[ins[1]]))
        elif ins[0] == 'integer_pow':
          vals.append(b('integer_pow', vals[ins[1]], y=ins[2]))
        elif ins[0] == 'fn':
          vals.append(b('exp', vals[ins[2]]) if ins[1] == 'exp' else
                      nnf(jw, ins[1], vals[ins[2]]))
        elif ins[0] == 'call':
          _, args, sub, res, keep = ins
          def inner(*q, sub=sub, res=res):
            v = run(sub, q)
            return tuple(get(v, k) for k in res)
          xs = [get(vals, a) for a in args]
          outs = jm.jit_call(jw.P, prog(inner), xs, 'g', keep=keep)
          for k, o in enumerate(outs):
            vals.append(o if k in keep else vals[0])
        else:
          vals.append(b(ins[0], get(vals, ins[1]), get(vals, ins[2])))
      return vals
    code, res, _ = self.body
    def f(x):
      vals = run(code, [x])
      return b('add', get(vals, res[0]), b('mul', vals[0], Fraction(2)))
    return f


def random_programs(report, G, part):
  global F32
  jw = JW(report)
  F32 = jw.np.attrs['float32']
  for seed in range(part, 120 if report.tier == 'quick' else 700, 2):
    g = Gen(seed, 3 + seed % 5, 1 + seed % 3)
    for xsh in ((), (2,)):
      if xsh and seed % 2:
        continue
      for M in (0, 1, 2, 3):
        for prop in (False, True):
          if prop and not M or (seed + M + prop) % 3 and M != 1:
            continue
          def go(c, g=g, xsh=xsh, M=M, prop=prop):
            jw.judge(c, prog(g.build(jw, xsh)), M, prop, xsh)
          check(report, G, 'J-propagate' if prop else 'J-structure', TB,
                f'program {seed} x{xsh} degree {M}{" propagate" if prop else ""}', go,
                jw.ip)


# -- the object returned ---------------------------------------------------------


def api(report):
  G = 'jb.api'
  global F32
  jw = JW(report)
  F32 = jw.np.attrs['float32']
  ps = programs(jw)
  b = jw.b
  at = 'jax_bound.TaylorBounds'
  F = Fraction
  for name in ('identity', 'constant', 'x+x', 'mul', 'integer_pow 3', 'exp', 'x exp x',
               'reduce_sum v', 'sum of squares', 'jit', 'nn.swish', 'dot vec vec',
               'add const'):
    fn, xs, cost, exact, _ = ps[name]
    for xsh in xs:
      for M in (0, 1, 2, 3):
        if M == 3 and (cost > 1 or xsh):
          continue
        for prop in (None, True):
          check(report, G, 'J-bounds-object', at,
                f'{name} x{xsh} degree {M}{" propagate" if prop else ""}',
                lambda c, fn=fn, M=M, prop=prop, xsh=xsh: jw.judge(
                    c, prog(fn), M, prop, xsh, api=True), jw.ip)
  # exact polynomials of any degree, below and above the bound on the degree
  def polynomial(n, sign):
    def f(x):
      y = b('integer_pow', x, y=n)
      for k in range(n):
        t = b('mul', x if k == 1 else b('integer_pow', x, y=k), F(2 * k - 3)) if k else F(-4)
        y = b('add', y, t)
      return b('neg', y) if sign < 0 else y
    return f
  for n in (2, 3, 4, 5, 6):
    for sign in (1, -1):
      for M in (n - 1, n, n + 1):
        check(report, G, 'J-bounds-object', at, f'polynomial of degree {n} {sign} within {M}',
              lambda c, n=n, M=M, sign=sign: jw.judge(
                  c, prog(polynomial(n, sign)), M, None, (), api=True), jw.ip)
  # an integer reference point
  for name, deg in (('mul', 2), ('identity', 1), ('integer_pow 3', 3), ('x+x', 1)):
    for M in (deg, deg + 1):
      def go(c, name=name, M=M):
        f = prog(ps[name][0])
        for x0 in (F(3), F(-2)):
          x0a = AArray(np.array(V(rat(x0)), object), 'i')
          res = jw.bounds(f, M, None, x0a, (AArray(np.array(V(rat(x0 - 1)), object), 'i'),
                                            AArray(np.array(V(rat(x0 + 1)), object), 'i')))
          for x in (x0, x0 + F(1, 2), x0 - F(3, 4), x0 + 1):
            for arr in (V(rat(x)), None):
              v = jw.ip.call(res, [arr0(arr) if arr is not None else x], {})
              lo, up = v if isinstance(v, tuple) else (v, v)
              ref = {'mul': x * (x + 1), 'identity': x, 'integer_pow 3': (x - 1) ** 3,
                     'x+x': 2 * x}[name]
              lo, up = d.to_v(d.as_arr(lo).data[()]), d.to_v(d.as_arr(up).data[()])
              require_le(lo, rat(ref), 'bounds at a point between integers')
              require_ge(up, rat(ref), 'bounds at a point between integers')
      check(report, G, 'J-bounds-object', at, f'{name} around an integer, degree {M}', go,
            jw.ip)
  # Python numbers as reference point
  for name in ('mul', 'exp', 'jit', 'constant', 'identity'):
    fn = ps[name][0]
    for M in (0, 1, 2):
      def go(c, fn=fn, M=M):
        x0, tr, z, xg = jw.setup(c, M, (), point=Fraction(1, 2))
        f = prog(fn)
        res = jw.bounds(f, M, None, x0, tr)
        want = jw.reference(f, xg)
        jw.judge_coeffs(jw.ip.getattr(res, 'coefficients'), want, z, xg, 'taylor_bounds', M)
        v = jw.ip.call(res, [Fraction(3, 4)], {})
        lo, up = v if isinstance(v, tuple) else (v, v)
        if d.as_arr(lo).shape != want.shape or d.as_arr(up).shape != want.shape:
          raise Violation('bounds(number) has the wrong shape')
      check(report, G, 'J-bounds-object', at, f'{name} at a number, degree {M}', go, jw.ip)
  # keyword, positional and default forms agree
  def forms(c):
    x0, tr, z, xg = jw.setup(c, 2, ())
    f = prog(ps['mul'][0])
    tb = jw.jb('taylor_bounds')
    for args, kw in (([f, 2], {}), ([f], {'max_degree': 2}),
                     ([f, 2, True], {}), ([], {'f': f, 'max_degree': 2,
                                               'propagate_trust_regions': False})):
      res = jw.ip.call(jw.ip.call(tb, args, kw), [x0, tr], {})
      jw.judge_coeffs(jw.ip.getattr(res, 'coefficients'), jw.reference(f, xg), z, xg,
                      'taylor_bounds', 2)
      if jw.ip.getattr(res, 'f') is not f:
        raise Violation('TaylorBounds.f is not the given function')
  check(report, G, 'J-bounds-object', at, 'argument forms', forms, jw.ip)
  # evaluating a bounds object built directly
  for xsh in ((), (2,), (3,)):
    for lead in ((), (2,)):
      for kinds in ('e', 'i', 'ee', 'ei', 'ii', 'eei', 'eie'):
        def ev(c, xsh=xsh, kinds=kinds, lead=lead):
          x0, tr, z, xg = jw.setup(c, len(kinds), xsh)
          co, gh = [], []
          for k, kd in enumerate(kinds):
            sh = lead + xsh * k
            a, g = (atoms_array(f'c{k}', sh) if kd == 'e' else interval_array(f'c{k}', sh))
            co.append(a)
            gh.append(g)
          from ..core import eval_ghost
          want = eval_ghost(gh, z)
          res = jw.ip.call(jw.jb('TaylorBounds'), [], dict(
              f=None, x0=x0, x_trust_region=tr, coefficients=tuple(co)))
          jw.judge_api(res, want, x0, tr, xg, 'TaylorBounds')
        check(report, G, 'J-bounds-object', at, f'evaluate {kinds} x{xsh} lead{lead}', ev,
              jw.ip)


# -- rejection --------------------------------------------------------------------


def outcome(jw, c, fn, M, prop, xsh, what, point=None):
  """A sound bound or NotImplementedError (any error for convolutions)."""
  try:
    jw.judge(c, prog(fn), M, prop, xsh, what, point=point)
  except PyExc as e:
    if e.tname() != 'NotImplementedError' and not what.startswith(('conv of', 'array')):
      soft('reject', f'{what}: raises {e.tname()} ({str(e.exc)[:100]}) instead of '
           'NotImplementedError', e.loc)


def reject(report):
  G = 'jb.reject'
  global F32
  jw = JW(report)
  F32 = jw.np.attrs['float32']
  b = jw.b
  F = Fraction
  numbers = lambda *ns: AArray(np.array([V(rat(F(n))) for n in ns] + [None], object)[:-1])
  one = {n: (lambda x, n=n: b(n, x)) for n in (
      'sin', 'cos', 'tan', 'tanh', 'log1p', 'expm1', 'exp2', 'sign', 'erf', 'floor',
      'ceil', 'round', 'square', 'stop_gradient', 'asin', 'acos', 'atan', 'sinh',
      'cosh', 'lgamma', 'digamma', 'erf_inv', 'copy', 'erfc', 'asinh', 'acosh', 'atanh',
      'bessel_i0e', 'bessel_i1e', 'reduce_precision', 'real', 'imag', 'conj', 'is_finite',
      'not', 'population_count', 'clz')}
  progs = {n: (f, ((), (2,))) for n, f in one.items()}
  V2, S = ((2,),), ((), )
  progs.update({
      'max with constant': (lambda x: b('max', x, F(0)), ((), (2,))),
      'min': (lambda x: b('min', x, b('neg', x)), ((), (2,))),
      'rem': (lambda x: b('rem', x, F(3)), S),
      'atan2': (lambda x: b('atan2', x, F(1)), S),
      'clamp': (lambda x: b('clamp', F(0), x, F(1)), S),
      'select': (lambda x: b('select_n', b('lt', x, F(0)), x, b('neg', x)), S),
      'comparison': (lambda x: b('mul', b('gt', x, F(0)), x), S),
      'rev': (lambda x: b('rev', x, dimensions=(0,)), V2),
      'cumsum': (lambda x: b('cumsum', x, axis=0, reverse=False), V2),
      'cumsum reversed': (lambda x: b('cumsum', x, axis=0, reverse=True), V2),
      'cummax': (lambda x: b('cummax', x, axis=0, reverse=False), V2),
      'cummin': (lambda x: b('cummin', x, axis=0, reverse=True), V2),
      'cumprod': (lambda x: b('cumprod', x, axis=0, reverse=False), V2),
      'argmax': (lambda x: b('mul', x, b('convert_element_type', b(
          'argmax', x, axes=(0,), index_dtype=None), new_dtype=F32)), V2),
      'split': (lambda x: b('split', x, sizes=(1, 1), axis=0)[1], V2),
      'reduce_window_max': (lambda x: b('reduce_window_max', x, window_dimensions=(2,),
                                        window_strides=(1,), padding=((0, 0),),
                                        base_dilation=(1,), window_dilation=(1,)), V2),
      'reduce_window_min': (lambda x: b('reduce_window_min', x, window_dimensions=(2,),
                                        window_strides=(1,), padding=((0, 0),),
                                        base_dilation=(1,), window_dilation=(1,)), V2),
      'top_k': (lambda x: b('top_k', x, k=1)[0], V2),
      'gather': (lambda x: b('gather', x, F(0)), V2),
      'dynamic_slice': (lambda x: b('dynamic_slice', x, F(0), slice_sizes=(1,)), V2),
      'nextafter': (lambda x: b('nextafter', x, F(1)), S),
      'igamma': (lambda x: b('igamma', F(2), x), S),
      'reduce_max of square': (lambda x: b('reduce_max', b('mul', x, x), axes=(0,)), V2),
      'max of squares': (lambda x: b('max', b('mul', x, x), F(1)), ((), (2,))),
      'max of two': (lambda x: b('max', x, b('mul', x, x)), S),
      'clamp of square': (lambda x: b('clamp', F(0), b('mul', x, x), F(4)), S),
      'rev of square': (lambda x: b('rev', b('mul', x, x), dimensions=(0,)), V2),
      'sort descending': (lambda x: b('neg', b('sort', b('neg', x), dimension=0,
                                               is_stable=True, num_keys=1)[0]), V2),
      'concatenate of square': (lambda x: b('concatenate', b('mul', x, x), x,
                                            dimension=0), V2),
      'slice of square': (lambda x: b('slice', b('mul', x, x), start_indices=(1,),
                                      limit_indices=(2,), strides=None), V2),
      'reduce_max': (lambda x: b('reduce_max', x, axes=(0,)), V2),
      'reduce_min': (lambda x: b('reduce_min', x, axes=(0,)), V2),
      'reduce_prod': (lambda x: b('reduce_prod', x, axes=(0,)), V2),
      'sort': (lambda x: b('sort', x, dimension=0, is_stable=True, num_keys=1)[0], V2),
      'concatenate': (lambda x: b('concatenate', x, const('k', (2,)), dimension=0), V2),
      'slice': (lambda x: b('slice', x, start_indices=(0,), limit_indices=(1,),
                            strides=None), V2),
      'pad': (lambda x: b('pad', x, F(0), padding_config=((1, 0, 0),)), V2),
      'custom_jvp relu': (lambda x: jw.nn['relu'].fn(x), ((), (2,))),
      'nested unsupported': (lambda x: jm.jit_call(jw.P, prog(
          lambda a: b('sin', b('mul', a, a))), [x], 'g')[0], S),
      'unsupported after supported': (lambda x: b('exp', b('cos', b('exp', x))), S),
      'unused unsupported': (lambda x: (b('sin', x), b('mul', x, x))[1], S),
      'power of constant': (lambda x: b('pow', F(2), x), S),
      'power of itself': (lambda x: b('pow', x, x), S),
      'to int': (lambda x: b('convert_element_type', x, new_dtype=INT), ((), (2,))),
      'to int and back': (lambda x: b('convert_element_type', b(
          'convert_element_type', x, new_dtype=INT), new_dtype=F32), ((), (2,))),
      'to bool': (lambda x: b('convert_element_type', x, new_dtype=BOOL), S),
      'to bool and back': (lambda x: b('convert_element_type', b(
          'convert_element_type', x, new_dtype=BOOL), new_dtype=F32), ((), (2,))),
      'to unsigned': (lambda x: b('convert_element_type', b('mul', x, x), new_dtype=UINT), S),
      'to unsigned and back': (lambda x: b('mul', x, b('convert_element_type', b(
          'convert_element_type', b('mul', x, x), new_dtype=UINT), new_dtype=F32)), S),
      'to int8 and back': (lambda x: b('convert_element_type', b(
          'convert_element_type', b('mul', x, F(3)), new_dtype=INT8), new_dtype=F32), S),
      'array exponent 2 3': (lambda x: b('pow', x, numbers(2, 3)), V2),
      'array exponent 2 2': (lambda x: b('pow', x, numbers(2, 2)), V2),
      'array exponent of product': (lambda x: b('pow', b('mul', x, x), numbers(1, 2)), V2),
      'power of a sum': (lambda x: b('pow', b('mul', x, x), b('add', x, F(1))), S),
      'conv of mixed': (lambda x: b('conv_general_dilated', b(
          'mul', b('broadcast_in_dim', x, shape=(1, 1, 2, 2), broadcast_dimensions=(3,)),
          const('k', (1, 1, 2, 2))), const('w', (1, 1, 1, 2)), **conv_params(jw)), V2),
      'conv of both': (lambda x: b('conv_general_dilated', b(
          'mul', b('broadcast_in_dim', x, shape=(1, 1, 2, 2), broadcast_dimensions=(3,)),
          const('k', (1, 1, 2, 2))), b('mul', b(
              'broadcast_in_dim', x, shape=(1, 1, 1, 2), broadcast_dimensions=(3,)),
              const('w', (1, 1, 1, 2))), **conv_params(jw)), V2),
  })
  global INT, BOOL, UINT, INT8
  INT, BOOL = jw.np.attrs['int32'], jw.np.attrs['bool_']
  UINT, INT8 = jw.np.attrs['uint8'], jw.np.attrs['int8']
  for name, (fn, xs) in progs.items():
    for xsh in xs:
      for M in (0, 1, 2):
        for prop in (False, True):
          if prop and M != 1:
            continue
          check(report, G, 'J-unsupported', TB,
                f'{name} x{xsh} degree {M}{" propagate" if prop else ""}',
                lambda c, fn=fn, M=M, prop=prop, xsh=xsh, name=name: outcome(
                    jw, c, fn, M, prop, xsh, name), jw.ip)
          # at points where comparisons are decided
          for pt in (((F(3, 2), F(-2)), (F(-1, 3), F(5))) if xsh else
                     (F(1), F(2), F(3), F(-3, 4)) if name.startswith('power of') else
                     (F(-3, 4), F(9, 4))):
            check(report, G, 'J-unsupported', TB,
                  f'{name} x{xsh} degree {M}{" propagate" if prop else ""} at a number',
                  lambda c, fn=fn, M=M, prop=prop, xsh=xsh, name=name, pt=pt: outcome(
                      jw, c, fn, M, prop, xsh, name, pt), jw.ip)
  for M in (0, 1, 2):
    check(report, G, 'J-reject', TB, f'matrix argument degree {M}',
          lambda c, M=M: outcome(jw, c, lambda x: b('mul', x, x), M, False, (2, 2),
                                 'matrix argument'), jw.ip)
  def neg(c):
    expect_raises(lambda: jw.ip.call(jw.jb('taylor_bounds'),
                                     [prog(lambda x: x), -1], {}), ['ValueError'])
  check(report, G, 'J-reject', TB, 'negative degree', neg, jw.ip)


INT = BOOL = UINT = INT8 = None


# -- user-defined elementwise primitives ---------------------------------------------


def register(report):
  G = 'jb.register'
  jw = JW(report)
  b = jw.b
  at = 'jax_bound.register_elementwise_primitive'

  def fresh(jw, name, key, log=None):
    p = jm.JPrim(name, jm.ew1(key), elementwise=True)
    def gen(*a, **k):
      names = ('x0', 'trust_region', 'degree', 'np_like')
      if len(a) + len(k) != 4 or any(n not in names for n in k):
        raise Violation('the enclosure generator is not called with (x0, trust_region, '
                        'degree, np_like)')
      v = dict(zip(names, a))
      v.update(k)
      if v['np_like'] is not jw.np:
        raise Violation('the enclosure generator is not given jax.numpy')
      if log is not None:
        log.append(key)
      return gm.contract_enclosure(key, v['x0'], v['trust_region'], v['degree'])
    return p, Native(gen, f'{key}_gen')
  progs = {
      'alone': lambda p: lambda x: p(x),
      'inside': lambda p: lambda x: b('mul', x, p(b('add', b('mul', x, x), Fraction(1)))),
      'with built-in': lambda p: lambda x: b('sub', p(x), b('exp', p(x))),
      'in jit': lambda p: lambda x: jm.jit_call(jw.P, prog(lambda a: p(b('neg', a))), [x],
                                                'g')[0],
  }
  for name, mk in progs.items():
    for xsh in ((), (2,)):
      for M in (0, 1, 2):
        for prop in (False, True):
          if prop and M != 1:
            continue
          def go(c, mk=mk, xsh=xsh, M=M, prop=prop):
            p, g = fresh(jw, 'user', 'userfn')
            jw.ip.call(jw.jb('register_elementwise_primitive'), [p, g], {})
            jw.judge(c, prog(mk(p.bind)), M, prop, xsh, 'bounds of a user primitive')
          check(report, G, 'J-register', at,
                f'{name} x{xsh} degree {M}{" propagate" if prop else ""}', go, jw.ip)

  def keyword(c):
    p, g = fresh(jw, 'user', 'userfn')
    jw.ip.call(jw.jb('register_elementwise_primitive'), [], dict(p=p, get_enclosure=g))
    jw.judge(c, prog(lambda x: p.bind(x)), 2, False, ())
  check(report, G, 'J-register', at, 'keyword form', keyword, jw.ip)

  def again(c):
    log = []
    p, g = fresh(jw, 'user', 'userfn', log)
    _, g2 = fresh(jw, 'user', 'userfn', log)
    q, h = fresh(jw, 'user', 'other')
    r = jw.jb('register_elementwise_primitive')
    jw.ip.call(r, [p, g], {})
    jw.ip.call(r, [q, h], {})
    jw.ip.call(r, [p, g2], {})
    jw.judge(c, prog(lambda x: b('add', p.bind(x), q.bind(x))), 1, False, ())
  check(report, G, 'J-register', at, 'two primitives with one name', again, jw.ip)

  def override(c):
    p = jw.P['abs']
    seen = []
    def gen(x0, tr, degree, np_like):
      seen.append(degree)
      return gm.contract_enclosure('abs', x0, tr, degree)
    jw2 = JW(report)
    p = jw2.P['abs']
    jw2.ip.call(jw2.jb('register_elementwise_primitive'), [p, Native(gen)], {})
    jw2.judge(c, prog(lambda x: p.bind(x)), 1, False, ())
    if not seen:
      raise Violation('a user-supplied enclosure for a built-in primitive is ignored')
  check(report, G, 'J-register', at, 'replace a built-in rule', override, jw.ip)

  # every built-in rule, polynomial and elementwise, gives way to a registered one
  for name in ('neg', 'abs', 'exp', 'log', 'logistic', 'integer_pow', 'square', 'sign'):
    def override2(c, name=name):
      jw2 = JW(report)
      if name not in jw2.P:
        return
      p, seen = jw2.P[name], []
      def gen(x0, tr, degree, np_like):
        seen.append(degree)
        return gm.contract_enclosure('userfn', x0, tr, degree)
      jw2.ip.call(jw2.jb('register_elementwise_primitive'), [p, Native(gen)], {})
      kw = dict(y=2) if name == 'integer_pow' else {}
      try:
        jw2.bounds(prog(lambda x: jw2.b('add', p.bind(jw2.b('add', x, Fraction(1)), **kw), x)), 1,
                   None, *jw2.setup(c, 1, ())[:2])
      except PyExc as e:
        if e.tname() != 'TypeError' or name != 'integer_pow':
          raise
        return                # a rule for a function of one argument and no parameters
      if not seen:
        raise Violation(f'a user-supplied enclosure for {name} is ignored')
    check(report, G, 'J-register', at, f'replace the rule of {name}', override2, jw.ip)

  def late(c):
    p, g = fresh(jw, 'user', 'userfn')
    f = prog(lambda x: b('add', p.bind(x), x))
    tb = jw.ip.call(jw.jb('taylor_bounds'), [f, 1], {})
    x0, tr, z, xg = jw.setup(c, 1, ())
    try:
      jw.ip.call(tb, [x0, tr], {})
      raise Violation('a primitive without a rule is accepted')
    except PyExc as e:
      if e.tname() != 'NotImplementedError':
        raise
    jw.ip.call(jw.jb('register_elementwise_primitive'), [p, g], {})
    try:
      res = jw.ip.call(tb, [x0, tr], {})
    except PyExc as e:
      # a table fixed when taylor_bounds was called is fine too
      if e.tname() != 'NotImplementedError':
        raise
      res = jw.bounds(f, 1, None, x0, tr)
    jw.judge_coeffs(jw.ip.getattr(res, 'coefficients'), jw.reference(f, xg), z, xg,
                    'taylor_bounds', 1)
  check(report, G, 'J-register', at, 'register after first use', late, jw.ip)
  # recognised functions reach their own rule
  rec = {'sigmoid': 'sigmoid', 'softplus': 'softplus', 'swish': 'swish', 'silu': 'swish'}
  for name, key in rec.items():
    for wrap in ('alone', 'of affine', 'inside jit', 'twice', 'after exp', 'jit of two',
                 'jit of two, second', 'nested jit of three', 'jit of two results',
                 'jit with constant', 'same jit twice', 'jit of jit'):
      two = lambda body: (lambda x: jm.jit_call(jw.P, prog(body), [x, b('mul', x, x)], 'g')[0])
      for xsh in ((), (2,), (1,), (2, 1), (3, 1, 2)):
        def go(c, name=name, key=key, wrap=wrap, xsh=xsh):
          f = jw.nn[name].fn
          if len(xsh) > 1:
            f0 = f
            f = lambda x: f0(b('mul', x, const('k', xsh)))
          g = {'alone': f,
               'of affine': lambda x: f(b('add', b('mul', x, Fraction(2)), Fraction(1))),
               'inside jit': lambda x: jm.jit_call(jw.P, prog(f), [x], 'g')[0],
               'twice': lambda x: b('add', f(x), f(b('neg', x))),
               'after exp': lambda x: f(b('exp', x)),
               'jit of two': two(lambda u, v: b('add', f(u), v)),
               'jit of two, second': two(lambda u, v: b('mul', u, f(v))),
               'nested jit of three': lambda x: jm.jit_call(jw.P, prog(
                   lambda u, v, w: b('sub', w, jm.jit_call(jw.P, prog(
                       lambda p, q: b('mul', p, f(q))), [v, u], 'h')[0])),
                   [x, b('neg', x), b('mul', x, x)], 'g')[0],
               'jit of two results': lambda x: b('add', *jm.jit_call(jw.P, prog(
                   lambda u, v: (f(u), b('mul', u, v))), [x, b('neg', x)], 'g')),
               'jit with constant': lambda x: jm.jit_call(jw.P, prog(
                   lambda u: b('mul', f(u), const('k', xsh))), [x], 'g')[0],
               'same jit twice': lambda x: b('add', *[
                   jm.jit_call(jw.P, prog(f), [v], 'g')[0] for v in (x, b('neg', x))]),
               'jit of jit': lambda x: jm.jit_call(jw.P, prog(lambda u: jm.jit_call(
                   jw.P, prog(f), [u], 'h')[0]), [x], 'g')[0]}[wrap]
          jw.judge(c, prog(g), 1, False, xsh if len(xsh) < 2 else ())
          n = sum(1 for k, _ in c.hooks.get('contract_calls', []) if k == key)
          need = 2 if 'twice' in wrap else 1
          if n < need:
            soft('recognise', f'jax.nn.{name} ({wrap}) is not bounded through its own '
                 'rule')
        check(report, G, 'J-recognise', 'jax_bound._rewrite_jaxpr',
              f'{name} {wrap} x{xsh}', go, jw.ip)
  # ... in programs of any length, at the beginning, in the middle, at the end
  for name, key in rec.items():
    for n in (2, 5, 9, 14, 30, 60):
      for k in (1, 2, 4):
        def go(c, name=name, key=key, n=n, k=k):
          f = jw.nn[name].fn
          def g(x):
            acc = y = x
            at = {i * (n - 1) // max(k - 1, 1) for i in range(k)}
            for i in range(n):
              if i in at:
                acc = b('sub', acc, f(b('neg', x) if i % 2 else x))
              y = b('add', b('neg', y), Fraction(i)) if i % 2 else b('mul', y, Fraction(2))
            return b('add', acc, y)
          x0, tr, z, xg = jw.setup(c, 1, ())
          jw.bounds(prog(g), 1, None, x0, tr)
          n_ = sum(1 for q, _ in c.hooks.get('contract_calls', []) if q == key)
          if n_ < min(k, n):
            soft('recognise', f'{min(k, n)} calls of jax.nn.{name} among {n} other steps: '
                 f'{n_} bounded through its own rule')
        check(report, G, 'J-recognise', 'jax_bound._rewrite_jaxpr',
              f'{k} calls of {name} among {n} steps', go, jw.ip)
  def all_three(c):
    fs = [jw.nn[q].fn for q in ('sigmoid', 'softplus', 'swish')]
    for order in itertools.permutations(range(3)):
      c.hooks['contract_calls'] = []
      def g(x):
        y = x
        for r in range(3):
          for q in order:
            y = b('add', y, fs[q](b('mul', x, Fraction(r + 2))))
        return y
      x0, tr, z, xg = jw.setup(c, 1, ())
      jw.bounds(prog(g), 1, None, x0, tr)
      for key in ('sigmoid', 'softplus', 'swish'):
        n = sum(1 for q, _ in c.hooks['contract_calls'] if q == key)
        if n < 3:
          soft('recognise', f'{key}: {n} of 3 calls are bounded through its own rule')
  check(report, G, 'J-recognise', 'jax_bound._rewrite_jaxpr', 'all three functions',
        all_three, jw.ip)


# -- independence of previous calls -----------------------------------------------------


def history(report):
  G = 'jb.history'
  global F32
  jw = JW(report)
  F32 = jw.np.attrs['float32']
  ps = programs(jw)
  b = jw.b

  def one(c, bf, f, M, xsh, tag, what):
    x0, tr, z, xg = jw.setup(c, M, xsh, tag)
    res = jw.ip.call(bf, [x0, tr], {})
    return res, jw.reference(f, xg), z, xg, x0, tr, M

  def verdict(r, what):
    res, want, z, xg, x0, tr, M = r
    ctx().hooks['fn_M'] = M
    jw.judge_coeffs(jw.ip.getattr(res, 'coefficients'), want, z, xg, what, M)
    jw.judge_api(res, want, x0, tr, xg, what)
  tb = lambda f, M, prop: jw.ip.call(jw.jb('taylor_bounds'), [f, M],
                                     {'propagate_trust_regions': prop})
  names = ('mul', 'exp', 'x exp x', 'nn.swish', 'jit', 'nested jit', 'jit with constant',
           'constant chain', 'integer_pow 2', 'pow .5', 'sub', 'same jit body')
  # programs whose trace depends on the shape of the argument
  def shp(x):
    return x.var.aval.shape if isinstance(x, jm.JTracer) else d.as_arr(x).shape
  every = lambda x: tuple(range(len(shp(x))))
  size = lambda x: int(np.prod(shp(x), dtype=int))
  by_shape = {
      'sum of squares': lambda x: b('reduce_sum', b('mul', x, x), axes=every(x)),
      'mean': lambda x: b('mul', b('reduce_sum', x, axes=every(x)), Fraction(1, size(x))),
      'column': lambda x: b('reshape', b('mul', x, x), new_sizes=(size(x), 1)),
      'size': lambda x: b('add', x, Fraction(size(x))),
      'branch on rank': lambda x: b('exp', x) if shp(x) else b('mul', x, x),
  }
  for name in names + tuple(by_shape):
    fn = by_shape[name] if name in by_shape else ps[name][0]
    for prop in (False, True):
      for M in (0, 1, 2):
        def same_fun(c, fn=fn, prop=prop, M=M):
          f = prog(fn)
          bf = tb(f, M, prop)
          rs = [one(c, bf, f, M, xsh, t, name) for xsh, t in (
              ((), 'a'), ((), 'b'), ((2,), 'c'), ((), 'd'), ((3,), 'e')) if
              t != 'e' or name in by_shape]
          for k, r in enumerate(rs):
            verdict(r, f'call {k + 1} of one bound function')
        if prop and M == 0:
          continue
        check(report, G, 'J-history', TB,
              f'{name} degree {M}, four points{" propagate" if prop else ""}',
              same_fun, jw.ip)
  def interleave(c):
    fs = [(prog(ps[n][0]), M, prop) for n, M, prop in (
        ('mul', 1, False), ('exp', 2, False), ('mul', 3, True), ('x exp x', 1, True),
        ('nn.swish', 0, False), ('nn.softplus', 2, True))]
    bfs = [tb(*a) for a in fs]
    for rnd in range(2):
      for k, ((f, M, prop), bf) in enumerate(zip(fs, bfs)):
        verdict(one(c, bf, f, M, (), f'{rnd}{k}', ''), f'round {rnd} function {k}')
  check(report, G, 'J-history', TB, 'interleaved bound functions', interleave, jw.ip)
  # pairs of programs that JAX prints alike
  def inner_const(nm):
    return lambda x: jm.jit_call(jw.P, prog(lambda a: b('mul', a, const(nm, (2,)))),
                                 [b('add', x, x)], 'g')[0]
  def outer_const(nm):
    return lambda x: b('mul', b('exp', x), const(nm, (2,)))
  def number(v):
    return lambda x: b('mul', b('add', x, v), v)
  def late(nm):
    box = []
    def f(x):
      return b('add', b('mul', x, box[0]), const(nm, (2,)))
    box.append(Fraction(3))
    return f
  pairs = {
      'constants of an inner program': (inner_const('k'), inner_const('m')),
      'constants': (outer_const('k'), outer_const('m')),
      'numbers': (number(Fraction(2)), number(Fraction(-5, 3))),
      'captured values': (late('k'), late('m')),
  }
  for name, (f1, f2) in pairs.items():
    for M in (0, 1, 2):
      for prop in (False, True):
        def alike(c, f1=f1, f2=f2, M=M, prop=prop):
          fs = [prog(f1), prog(f2)]
          bfs = [tb(f, M, prop) for f in fs]
          for k in (0, 1, 0, 1):
            verdict(one(c, bfs[k], fs[k], M, (2,), f'{k}', ''), f'function {k} of the pair')
        check(report, G, 'J-history', TB,
              f'alike programs: {name} degree {M}{" propagate" if prop else ""}', alike,
              jw.ip)
  def same_names(c):
    reg = jw.jb('register_elementwise_primitive')
    prims = []
    for key in ('userfn', 'other'):
      p = jm.JPrim('user', jm.ew1(key), elementwise=True)
      jw.ip.call(reg, [p, Native(lambda x0, trust_region, degree, np_like, key=key:
                                 gm.contract_enclosure(key, x0, trust_region, degree))], {})
      prims.append(p)
    for M in (1, 2):
      for k in (0, 1, 0):
        f = prog(lambda x, p=prims[k]: b('mul', x, p.bind(x)))
        verdict(one(c, tb(f, M, False), f, M, (), f'{M}{k}', ''), f'primitive {k}')
  check(report, G, 'J-history', TB, 'alike programs: primitives of one name', same_names,
        jw.ip)
  def failing(c):
    f = prog(ps['exp'][0])
    g = prog(lambda x: jw.b('sin', jw.b('exp', x)))
    bf, bg = tb(f, 1, True), tb(g, 1, True)
    x0, tr, _, _ = jw.setup(c, 1, (), 'q')
    for rnd in range(2):
      try:
        jw.ip.call(bg, [x0, tr], {})
      except PyExc:
        pass
      verdict(one(c, bf, f, 1, (), f'{rnd}', ''), f'call after a rejected function')
  check(report, G, 'J-history', TB, 'after a failing call', failing, jw.ip)


def run_deep(report, groups, G):
  for g in groups:
    run_programs(report, G, g, high=True)


GROUPS = {'jb.' + g: (lambda report, g=g: run_programs(report, 'jb.' + g, g))
          for g in RULE}
GROUPS.update({
    'jb.dims': lambda report: run_sweep(report, 'jb.dims', sweep_dot, 'J-bilinear'),
    'jb.axes': lambda report: run_sweep(report, 'jb.axes', sweep_axes, 'J-shape'),
    'jb.conv': lambda report: run_sweep(report, 'jb.conv', sweep_conv, 'J-bilinear')})
GROUPS.update({'jb.api': api, 'jb.reject': reject, 'jb.register': register,
               'jb.history': history})
# the same programs at degrees 4 and above
GROUPS['jb.deep'] = lambda report: run_deep(report, ('prim',), 'jb.deep')
GROUPS['jb.deeper'] = lambda report: run_deep(report, ('shape', 'dot', 'rewrite', 'jit'),
                                              'jb.deeper')
GROUPS['jb.random'] = lambda report: random_programs(report, 'jb.random', 0)
GROUPS['jb.random2'] = lambda report: random_programs(report, 'jb.random2', 1)
