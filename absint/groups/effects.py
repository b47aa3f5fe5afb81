"""Obligations about side effects: arguments, repeated calls, evaluation order."""

import ast
import math
import os
from fractions import Fraction

import numpy as np

from .. import domain as d
from .. import models
from ..core import (Obligation, Violation, arr0, atoms_array, check, core_interp, interval_array, soft)
from ..domain import AArray, Unsupported, V, ctx
from ..interp import REPO, AnchorMissing, Native, PyExc

IA = 'autobound.interval_arithmetic'
TE = 'autobound.enclosure_arithmetic'
PO = 'autobound.polynomials'
PE = 'autobound.primitive_enclosures'
EF = 'autobound.elementwise_functions'


def snap(x):
  """Structure of a value, by identity of scalars."""
  if isinstance(x, AArray):
    return ('a', x.shape, [id(v) for v in x.data.reshape(-1)])
  if isinstance(x, (tuple, list)):
    return (type(x).__name__, [snap(v) for v in x])
  if isinstance(x, dict):
    return ('dict', [(snap(k), snap(v)) for k, v in x.items()])
  return ('o', repr(x))


def same(x, y):
  if isinstance(x, (tuple, list)):
    return isinstance(y, (tuple, list)) and len(x) == len(y) and all(
        map(same, x, y))
  if isinstance(x, AArray) or isinstance(y, AArray):
    a, b = d.as_arr(x), d.as_arr(y)
    if a.shape != b.shape:
      return False
    for u, v in zip(a.data.reshape(-1), b.data.reshape(-1)):
      if isinstance(u, V) and isinstance(v, V):
        if u.is_exact() and v.is_exact():
          if not u.ex == v.ex:
            return False
        elif u.is_inf() or v.is_inf():
          if u.ex != v.ex:
            return False
        elif u.aset() != v.aset() or u.D != v.D or u.U != v.U:
          return False
    return True
  return True


def cases(ip):
  """name -> callable making (function, args, kwargs); fresh values on each call."""
  np_ = ip.models['backend']
  cls = lambda m, n: ip.mod_attr(m, n)
  ia = lambda: ip.call(cls(IA, 'IntervalArithmetic'), [np_], {})
  def memo(make, n, s):
    m = ctx().hooks.get('same values')
    if m is None:
      return make(n, s)[0]
    if (make, n, s) not in m:
      m[make, n, s] = make(n, s)[0]
    return m[make, n, s]
  E = lambda n, s=(): memo(atoms_array, n, s)
  I = lambda n, s=(): memo(interval_array, n, s)
  out = {}

  def tea(M, sh=()):
    tr = I('x', sh)
    return ip.call(cls(TE, 'TaylorEnclosureArithmetic'), [M, tr, np_], {})

  def meth(o, n):
    return ip.getattr(o, n)
  for sh in ((), (2,)):
    for nm in ('add', 'subtract', 'multiply'):
      out[f'interval {nm} {sh}'] = lambda nm=nm, sh=sh: (meth(ia(), nm), [
          I('a', sh), I('b', sh)])
      out[f'interval {nm} array {sh}'] = lambda nm=nm, sh=sh: (meth(ia(), nm), [
          I('a', sh), E('b', sh)])
      out[f'interval {nm} arrays {sh}'] = lambda nm=nm, sh=sh: (meth(ia(), nm), [
          E('a', sh), E('b', sh)])
    out[f'interval negative {sh}'] = lambda sh=sh: (meth(ia(), 'negative'), [I('a', sh)])
    out[f'array negative {sh}'] = lambda sh=sh: (meth(ia(), 'negative'), [E('a', sh)])
    for p in (0, 1, 2, 3, 4, 5, 8):
      out[f'interval power {p} {sh}'] = lambda sh=sh, p=p: (meth(ia(), 'power'), [
          I('a', sh), p])
      if p not in (0, 1, 2, 3, 4, 5):
        continue
      out[f'interval outer_power {p} {sh}'] = lambda sh=sh, p=p: (
          meth(ia(), 'outer_power'), [I('a', sh), p])
      out[f'array outer_power {p} {sh}'] = lambda sh=sh, p=p: (
          meth(ia(), 'outer_power'), [E('a', sh), p])
    for nm in ('outer_product',):
      out[f'interval {nm} {sh}'] = lambda nm=nm, sh=sh: (meth(ia(), nm), [
          I('a', sh), E('b', sh)])
    out[f'interval tensordot {sh}'] = lambda sh=sh: (meth(ia(), 'tensordot'), [
        I('a', sh), E('b', sh), len(sh)])
    for M in (0, 1, 2, 3, 4, 5, 7) if not sh else (0, 1, 2, 3):
      en = lambda n, sh=sh, M=M, k='i': [E(f'{n}{j}', sh * j) for j in range(M)] + [
          I(f'{n}{M}', sh * M) if k == 'i' else E(f'{n}{M}', sh * M)]
      for nm in ('add', 'subtract', 'multiply'):
        for c in (list, tuple):
          out[f'enclosure {nm} {M} {sh} {c.__name__}'] = (
              lambda nm=nm, en=en, c=c, M=M, sh=sh: (meth(tea(M, sh), nm), [
                  c(en('a')), c(en('b', k='e'))]))
      out[f'enclosure negative {M} {sh}'] = lambda en=en, M=M, sh=sh: (
          meth(tea(M, sh), 'negative'), [en('a')])
      for p in (0, 1, 2, 3, 4, -1, Fraction(1, 2)):
        if p > 3 and (M > 3 or sh) or M > 2 and (sh or p < 0 or isinstance(p, Fraction)):
          continue
        out[f'enclosure power {M} {sh} {p}'] = lambda en=en, M=M, sh=sh, p=p: (
            meth(tea(M, sh), 'power'), [
                en('a') if isinstance(p, int) and p >= 0 else tuple(en('a')), p])
      if not sh:
        if M <= 3:
          out[f'enclosure divide {M}'] = lambda en=en, M=M: (
              meth(tea(M), 'divide'), [en('a'), (E('b'),)])
        for short in range(M):
          out[f'enclosure multiply {M} by shorter {short}'] = (
              lambda en=en, M=M, short=short: (meth(tea(M), 'multiply'), [
                  en('a'), [E(f'b{j}') for j in range(short + 1)]]))
          out[f'enclosure add {M} to shorter {short}'] = (
              lambda en=en, M=M, short=short: (meth(tea(M), 'add'), [
                  [E(f'b{j}') for j in range(short + 1)], en('a')]))
      out[f'enclose_enclosure {M} {sh}'] = lambda en=en, M=M, sh=sh: (
          cls(TE, 'enclose_enclosure'), [en('a'), I('x', sh), max(0, M - 1), np_])
      for lower in range(M + 2):
        if lower != M - 1:
          out[f'enclose_enclosure {M} {lower} {sh}'] = lambda en=en, sh=sh, lower=lower: (
              cls(TE, 'enclose_enclosure'), [en('a'), I('x', sh), lower, np_])
      out[f'as_taylor_enclosure {M} {sh}'] = lambda en=en, M=M, sh=sh: (
          cls(TE, 'as_taylor_enclosure'), [en('a'), np_])
      out[f'map_over_enclosure {M} {sh}'] = lambda en=en, M=M, sh=sh: (
          cls(TE, 'map_over_enclosure'), [en('a'), Native(lambda v: d.a_add(v, 1))])
      if not sh:
        def outer(u, v, p, q):
          return d.a_mul(d.as_arr(u), d.as_arr(v))
        for short in (0, M // 2, M):
          out[f'enclosure arbitrary_bilinear {M} {short}'] = (
              lambda en=en, M=M, short=short: (meth(tea(M), 'arbitrary_bilinear'), [
                  en('a'), [E(f'b{j}') for j in range(short + 1)], Native(outer)]))
      if M <= (2 if sh else 4):
        out[f'compose {M} {sh}'] = lambda en=en, M=M, sh=sh: (
          meth(tea(M, sh), 'compose_enclosures'),
            [tuple([E(f'f{j}') for j in range(M)] + [I(f'f{M}')]), tuple(en('a'))])
      out[f'eval_taylor_enclosure {M} {sh}'] = lambda en=en, M=M, sh=sh: (
          cls(PO, 'eval_taylor_enclosure'), [en('a'), I('z', sh), np_])
      out[f'eval_elementwise {M} {sh}'] = lambda M=M, sh=sh: (
          cls(PO, 'eval_elementwise_taylor_enclosure'),
          [[E(f'a{j}', sh) for j in range(M)] + [I('aM', sh)], E('z', sh), np_])
  for k in (0, 1, 2, 3, 4, 6):
    co = lambda n, k=k: [E(f'{n}{j}') for j in range(k)]
    for q in (0, 1, 2, 3, 5, 8):
      out[f'polynomial product {k} {q}'] = lambda co=co, q=q: (
          cls(PO, 'arbitrary_bilinear'), [co('a'), co('b', q)])
    for p in (0, 1, 2, 3, 4, 5):
      if k * p > 12:
        continue
      out[f'polynomial power {k} {p}'] = lambda co=co, p=p: (
          cls(PO, 'integer_power'), [co('a'), p])
  for nm, top in (('abs', 1), ('exp', 6), ('log', 6), ('sigmoid', 3), ('swish', 2)):
    for deg in range(top + 1):
      for sh in ((), (2,)):
        out[f'{nm}_enclosure {deg} {sh}'] = lambda nm=nm, deg=deg, sh=sh: (
            cls(PE, nm + '_enclosure'), [E('p', sh), I('r', sh), deg, np_])
  for p in (0, 1, 2, 3, 4, -1, -2, Fraction(1, 2), Fraction(3, 2)):
    for deg in (0, 1, 2, 3, 4):
      out[f'pow_enclosure {p} {deg}'] = lambda p=p, deg=deg: (
          cls(PE, 'pow_enclosure'), [p, E('p'), I('r'), deg, np_])
  for nm in ('ABS', 'EXP', 'LOG', 'SIGMOID', 'SOFTPLUS', 'SWISH'):
    fid = ip.mod_attr(EF, nm)
    if nm != 'SOFTPLUS':
      out[f'get_range {nm}'] = lambda fid=fid: (cls(EF, 'get_range'), [fid, I('r', (2,)), np_])
    if nm not in ('ABS', 'SOFTPLUS'):
      for deg in (2, 0, 4, 3, 1):
        for sh in ((2,), ()):
          out[f'coefficients {nm} {deg} {sh}'] = lambda fid=fid, deg=deg, sh=sh: (
            cls(EF, 'get_taylor_polynomial_coefficients'), [fid, deg, E('p', sh), np_])
  return out


def args_group(report):
  G = 'fx.args'
  ip = core_interp()
  report.interps.append(ip)
  cs = cases(ip)
  def call(mk):
    f, args = mk()
    before = snap(args)
    try:
      r = ip.call(f, args, {})
    except PyExc as e:
      return 'raises ' + e.tname(), f, args
    if snap(args) != before:
      raise Violation('the call modifies its arguments')
    return r, f, args
  for name, mk in cs.items():
    at = _construct(name)
    def go(c, mk=mk):
      c.forker = None
      r, f, args = call(mk)
      kept = snap(r)
      r2 = ip.call(f, args, {}) if not isinstance(r, str) else None
      if not isinstance(r, str):
        if not same(r, r2):
          raise Violation('calling the function twice with the same arguments gives '
                          'different results')
        if snap(r) != kept:
          raise Violation('a later call modifies an earlier result')
      elif isinstance(r, str):
        raise Unsupported(r)
    check(report, G, 'X-arguments', at, name, go, ip, forks=False)


def history_group(report):
  """Every case after different histories: in two fresh programs, in opposite orders."""
  G = 'fx.history'
  results = []
  def run(c, names, ip):
    cs = cases(ip)
    out = {}
    for n in names(list(cs)):
      try:
        f, args = cs[n]()
        out[n] = ip.call(f, args, {})
      except PyExc as e:
        out[n] = 'raises ' + e.tname()
      except Unsupported as e:
        out[n] = None
    return out
  orders = [lambda ns: ns, lambda ns: ns[::-1],
            lambda ns: [ns[k * 101 % len(ns)] for k in range(len(ns))]
            if math.gcd(101, len(ns)) == 1 else ns[::2] + ns[1::2]]
  last = None
  def compute(c):
    c.forker = None
    c.hooks['same values'] = {}
    for o in orders:
      ip = core_interp()
      report.interps.append(ip)
      results.append(run(c, o, ip))
  last = core_interp()
  report.interps.append(last)
  check(report, G, 'X-history', 'every function of the numeric core',
        'three orders of calls', compute, last, forks=False)
  if len(results) != len(orders):
    return
  for name in results[0]:
    def go(c, name=name):
      rs = [r[name] for r in results]
      if None in [None if x is None else 0 for x in rs]:
        raise Unsupported('not followed')
      for x in rs[1:]:
        if isinstance(x, str) != isinstance(rs[0], str) or (
            x != rs[0] if isinstance(x, str) else not same(rs[0], x)):
          raise Violation('the result depends on the calls made before '
                          f'({rs[0]!r:.80} or {x!r:.80})')
    check(report, G, 'X-history', _construct(name), name, go, last, forks=False)


def _construct(name):
  return ' '.join(w for w in name.split() if not (w[0] in '0123456789-(' or w in (
      'list', 'tuple', '1/2') or w.endswith(')')))


# -- queries over every function body, executed on some path or not ----------------
#
# The abstract runs above judge what is executed.  These queries read all function
# bodies of the numeric core, so that rarely taken branches are judged as well.

CORE = (IA, TE, PO, PE, EF)
ARRAY_LIBS = ('numpy', 'jax', 'jaxlib', 'tensorflow', 'torch', 'scipy', 'cupy')
# Functions whose results do not depend on the values of arrays.
STATIC = frozenset((
    'shape', 'ndim', 'size', 'issubdtype', 'result_type', 'isscalar', 'iscomplexobj',
    'dtype', 'promote_types', 'can_cast', 'broadcast_shapes', 'finfo', 'iinfo'))
ARRAY_METHODS = frozenset((
    'sum', 'prod', 'mean', 'min', 'max', 'argmin', 'argmax', 'clip', 'astype', 'reshape',
    'ravel', 'flatten', 'squeeze', 'swapaxes', 'transpose', 'dot', 'fill', 'item', 'tolist',
    'cumsum', 'cumprod', 'repeat', 'take', 'put', 'trace', 'diagonal', 'any', 'all',
    'round', 'nonzero', 'argsort', 'var', 'std', 'conj', 'searchsorted', 'view'))
MUTATORS = frozenset((
    'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update',
    'setdefault', 'popitem', 'add', 'discard', 'fill', 'put', 'resize', 'itemset',
    'setflags', 'partition'))


def functions_of(tree):
  """(qualified name, node, chain of enclosing functions) of every function."""
  out = []

  def walk(node, prefix, chain):
    for n in ast.iter_child_nodes(node):
      if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        out.append((prefix + n.name, n, chain))
        walk(n, prefix + n.name + '.', chain + [n])
      elif isinstance(n, ast.ClassDef):
        walk(n, prefix + n.name + '.', chain)
      else:
        walk(n, prefix, chain)
  walk(tree, '', [])
  return out


def own_nodes(fn):
  """Nodes of a function body without nested functions and without annotations."""
  def rec(n):
    yield n
    for f, v in ast.iter_fields(n):
      if f in ('annotation', 'returns', 'decorator_list', 'type_comment'):
        continue
      for c in v if isinstance(v, list) else [v]:
        if isinstance(c, ast.AST) and not isinstance(c, (
            ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
          yield from rec(c)
  for s in fn.body:
    if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
      yield from rec(s)


def is_backend(e, aliases):
  """Whether the expression denotes the numpy-like backend."""
  return (isinstance(e, ast.Name) and e.id in aliases or
          isinstance(e, ast.Attribute) and e.attr == 'np_like')


def backend_aliases(tree):
  names = {'np_like'}
  for _ in range(3):
    for n in ast.walk(tree):
      if isinstance(n, ast.Assign) and is_backend(n.value, names):
        names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
  return names


def library_names(tree):
  """Local names bound to array libraries or to things imported from them."""
  out = {}
  for n in ast.walk(tree):
    if isinstance(n, ast.Import):
      for a in n.names:
        if a.name.split('.')[0] in ARRAY_LIBS:
          out[(a.asname or a.name).split('.')[0]] = a.name
    elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
      if n.module.split('.')[0] in ARRAY_LIBS:
        for a in n.names:
          out[a.asname or a.name] = f'{n.module}.{a.name}'
  return out


def params_of(fn):
  a = fn.args
  return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def bound_names(fn):
  """Names (re)bound in the function's own body."""
  out = set()
  for n in own_nodes(fn):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      out.add(n.id)
  return out


def backend_uses(tree, qual, fn):
  """Uses of the backend in fn that the numpy-like interface does not offer."""
  al, libs = backend_aliases(tree), library_names(tree)
  doc = models.documented_names()
  for n in own_nodes(fn):
    if isinstance(n, ast.Attribute) and is_backend(n.value, al):
      if doc is not None and n.attr not in doc:
        yield n, f'{n.attr} is not part of the numpy-like interface'
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
      root = n.func.value
      while isinstance(root, ast.Attribute):
        root = root.value
      if isinstance(root, ast.Name) and root.id in libs and n.func.attr not in STATIC and (
          n.args or n.keywords) and any(_touches(x, fn) for x in n.args):
        yield n, (f'{ast.unparse(n.func)} applies a concrete array library to the '
                  'caller\'s values')
      elif isinstance(n.func.value, ast.Subscript) and isinstance(
          n.func.value.value, ast.Attribute) and n.func.value.value.attr == 'at':
        yield n, '.at is not an attribute of every backend\'s arrays'
    elif (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in libs
          and any(_touches(x, fn) for x in n.args)):
      yield n, f'{libs[n.func.id]} applies a concrete array library to the caller\'s values'


def _touches(e, fn):
  """Whether the expression mentions a variable of the function."""
  mine = set(params_of(fn)) | bound_names(fn)
  return any(isinstance(n, ast.Name) and n.id in mine for n in ast.walk(e))


def value_tests(tree, qual, fn, extra=()):
  """Python truth values or numbers made directly from results of the backend."""
  al = backend_aliases(tree) | set(extra)

  stores = {}
  for n in own_nodes(fn):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      stores[n.id] = stores.get(n.id, 0) + 1

  def result(e):
    return (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and
            is_backend(e.func.value, al) and e.func.attr not in STATIC and
            any(_touches(x, fn) for x in e.args))
  # Variables bound once, directly to a result of the backend.
  holds = {t.id for n in own_nodes(fn) if isinstance(n, ast.Assign) and result(n.value)
           for t in n.targets if isinstance(t, ast.Name) and stores[t.id] == 1}
  holds -= set(params_of(fn))

  def valued(e):
    return result(e) or isinstance(e, ast.Name) and e.id in holds

  def operands(e):
    if isinstance(e, ast.BoolOp):
      for v in e.values:
        yield from operands(v)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      yield from operands(e.operand)
    elif isinstance(e, ast.Compare):
      if not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops):
        for v in [e.left] + e.comparators:
          yield v
    else:
      yield e
  for n in own_nodes(fn):
    tests = []
    if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
      tests = list(operands(n.test))
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
        'bool', 'float', 'int', 'complex') and len(n.args) == 1:
      tests = [n.args[0]]
    elif isinstance(n, ast.comprehension):
      tests = [v for t in n.ifs for v in operands(t)]
    for t in tests:
      if valued(t):
        yield t, (f'{ast.unparse(t)[:60]} is used as a Python '
                  'truth value or number')


def param_writes(tree, qual, fn):
  """Writes to arrays, lists or dicts received as parameters of a public function."""
  if any(p.startswith('_') and not p.startswith('__') for p in qual.split('.')):
    return
  mine = set(params_of(fn)) - {'self', 'cls'} - bound_names(fn)
  for n in own_nodes(fn):
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
      root = n.value
      while isinstance(root, ast.Subscript):
        root = root.value
      if isinstance(root, ast.Name) and root.id in mine:
        yield n, f'writes to an element of its argument {root.id}'
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
      root = n.func.value
      while isinstance(root, ast.Subscript):
        root = root.value
      if (isinstance(root, ast.Name) and root.id in mine and n.func.attr in MUTATORS
          and n.func.attr != 'add' and not is_backend(root, {'np_like'})):
        yield n, f'modifies its argument {root.id} by {n.func.attr}()'
    if isinstance(n, ast.keyword) and n.arg == 'out' and isinstance(n.value, ast.Name) and (
        n.value.id in mine):
      yield n.value, f'writes to its argument {n.value.id} through out='


def names_group(report):
  G = 'fx.names'
  queries = (('X-names', backend_uses, CORE), ('X-truth', value_tests, CORE),
             ('X-params', param_writes, CORE))
  ip = core_interp()
  report.interps.append(ip)
  for mod in CORE:
    path = os.path.join(REPO, *mod.split('.')) + '.py'
    try:
      tree = ast.parse(open(path).read())
    except (OSError, SyntaxError) as e:
      raise AnchorMissing(f'{mod}: {e}') from e
    short = mod.split('.')[-1]
    for rule, query, mods in queries:
      if mod not in mods:
        continue
      for qual, fn, chain in functions_of(tree):
        if chain and rule == 'X-params':
          continue
        hits = list(query(tree, qual, fn))
        if not hits:
          report.add(Obligation(G, rule, f'{short}.{qual}', 'all statements', 'ok', '',
                                None, []))
        for n, msg in hits:
          report.add(Obligation(G, rule, f'{short}.{qual}', f'line {n.lineno}',
                                'violated', msg, (path, n.lineno, qual), []))


GROUPS = {'fx.args': args_group, 'fx.history': history_group, 'fx.names': names_group}
