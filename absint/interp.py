"""A tree-walking abstract interpreter for the Python subset used by autobound.

The interpreter parses the files under /repo on every run and evaluates them
over the abstract domains of domain.py.  It never imports or executes the
repository's code: numpy, jax and the standard library are replaced by models.
Control structure (tuples, lists, closures, loops over degrees and shapes) is
followed exactly; array elements are abstract.  A branch on an undecided
abstract condition is explored both ways (see Forker).
"""

import ast
import builtins as _bi
from fractions import Fraction
import functools
import itertools
import math
import operator
import os

import numpy as np

from . import domain as d
from .domain import AArray, B, V, Unsupported, ctx

REPO = os.environ.get('AUTOBOUND_REPO', '/repo')


class PyExc(Exception):
  """An exception raised by the interpreted program."""

  def __init__(self, exc, loc=None):
    super().__init__(exc)
    self.exc = exc
    self.loc = loc or ctx().loc

  def tname(self):
    e = self.exc
    return e.cls.name if isinstance(e, IInst) else type(e).__name__


class ForkLimit(Unsupported):
  pass


class Forker:
  """Replays a function over all outcomes of its undecided conditions."""

  def __init__(self, max_paths=4096):
    self.max_paths = max_paths
    self.script = []
    self.pos = 0
    self.trail = []

  def decide(self, n=2):
    if self.pos < len(self.script):
      c = self.script[self.pos]
    else:
      c = 0
      self.script.append(0)
    if self.pos >= len(self.trail):
      self.trail.append(n)
    else:
      self.trail[self.pos] = n
    self.pos += 1
    return c

  def run(self, fn):
    """Yields fn() for every path."""
    paths = 0
    while True:
      self.pos = 0
      self.trail = []
      yield fn()
      paths += 1
      if paths > self.max_paths:
        raise ForkLimit('too many paths')
      del self.script[self.pos:]
      while self.script and self.script[-1] + 1 >= self.trail[len(self.script) - 1]:
        self.script.pop()
      if not self.script:
        return
      self.script[-1] += 1


class Env:
  __slots__ = ('vars', 'parent', 'fn', 'mod', 'globals_', 'nonlocals', 'locals_',
               'yields', 'cls')

  def __init__(self, parent, mod, locals_=None, fn=None):
    self.vars = {}
    self.parent = parent
    self.mod = mod
    self.fn = fn
    self.locals_ = locals_
    self.globals_ = ()
    self.nonlocals = ()
    self.yields = None
    self.cls = None


class IModule:
  def __init__(self, name, path=None):
    self.name = name
    self.path = path
    self.ns = {}

  def __repr__(self):
    return f'<module {self.name}>'


class NModule:
  """A modelled (native) module."""

  def __init__(self, name, attrs, strict=True):
    self.name = name
    self.attrs = attrs
    self.portable = None          # names every numpy-like backend has
    self.documented = None        # names of the NumpyLike protocol

  def __repr__(self):
    return f'<model {self.name}>'


class Native:
  """A modelled callable."""

  def __init__(self, fn, name=None, attrs=None):
    self.fn = fn
    self.name = name or getattr(fn, '__name__', 'native')
    self.attrs = attrs or {}

  def __repr__(self):
    return f'<native {self.name}>'


class BType:
  """A builtin type: callable and usable in isinstance."""

  def __init__(self, name, check, ctor):
    self.name = name
    self.check = check
    self.ctor = ctor

  def __repr__(self):
    return f'<type {self.name}>'


class TypingObj:
  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return f'<typing {self.name}>'

  def __getitem__(self, k):
    return TypingObj(self.name)


class IFunc:
  def __init__(self, name, node, env, mod, defaults, kw_defaults, qual):
    self.name = name
    self.node = node
    self.env = env
    self.mod = mod
    self.defaults = defaults
    self.kw_defaults = kw_defaults
    self.qual = qual
    self.attrs = {}
    self.wrapped = None

  def __repr__(self):
    return f'<function {self.qual}>'


class IBound:
  def __init__(self, func, self_):
    self.func = func
    self.self_ = self_

  def __repr__(self):
    return f'<bound {self.func!r}>'

  def __eq__(self, o):
    return isinstance(o, IBound) and o.func is self.func and o.self_ is self.self_

  def __hash__(self):
    return hash((id(self.func), id(self.self_)))


class IPartial:
  def __init__(self, func, args, kw):
    self.func = func
    self.args = args
    self.kw = kw

  def __repr__(self):
    return f'<partial {self.func!r}>'


class IClass:
  def __init__(self, name, bases, ns, mod, qual):
    self.name = name
    self.bases = bases
    self.ns = ns
    self.mod = mod
    self.qual = qual
    self.fields = None
    self.dc = None

  def mro(self):
    out = [self]
    for b in self.bases:
      if isinstance(b, IClass):
        for c in b.mro():
          if c not in out:
            out.append(c)
    return out

  def lookup(self, name):
    for c in self.mro():
      if name in c.ns:
        return c.ns[name]
    return _MISSING

  def subclass_of(self, other):
    return other in self.mro()

  def native_exc_base(self):
    for c in self.mro():
      for b in c.bases:
        if isinstance(b, type) and issubclass(b, BaseException):
          return b
    return None

  def __repr__(self):
    return f'<class {self.qual}>'


_MISSING = object()


class IInst:
  def __init__(self, cls):
    self.cls = cls
    self.attrs = {}

  def __repr__(self):
    return f'<{self.cls.name} ' + ' '.join(
        f'{k}={v!r}' for k, v in list(self.attrs.items())[:4]) + '>'

  def __eq__(self, o):
    f = self.cls.lookup('__eq__')
    if f is not _MISSING:
      r = INTERP[-1].call(f, [self, o], {})
      return r if r is not NotImplemented else self is o
    if self.cls.dc and self.cls.dc.get('eq', True):
      if not isinstance(o, IInst) or o.cls is not self.cls:
        return False
      return INTERP[-1].truth(tuple(self.attrs.get(f) for f in self.cls.fields)
                              == tuple(o.attrs.get(f) for f in self.cls.fields))
    return self is o

  def __hash__(self):
    f = self.cls.lookup('__hash__')
    if f is not _MISSING and f is not None:
      return INTERP[-1].call(f, [self], {})
    if self.cls.dc and self.cls.dc.get('eq', True):
      if self.cls.dc.get('frozen') or self.cls.dc.get('unsafe_hash'):
        return hash(tuple(self.attrs.get(f) for f in self.cls.fields))
      raise TypeError(f'unhashable type: {self.cls.name!r}')
    if self.cls.lookup('__eq__') is not _MISSING and f is _MISSING:
      raise TypeError(f'unhashable type: {self.cls.name!r}')
    return id(self)


INTERP = []


class Property:
  def __init__(self, fget):
    self.fget = fget


class StaticM:
  def __init__(self, f):
    self.f = f


class ClassM:
  def __init__(self, f):
    self.f = f


class Super:
  def __init__(self, cls, obj):
    self.cls = cls
    self.obj = obj


def _is_float(x):
  return isinstance(x, (Fraction, float)) and not isinstance(x, bool)


_BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
    ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
    ast.LShift: operator.lshift, ast.RShift: operator.rshift,
    ast.MatMult: operator.matmul,
}

_MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update',
             'add', 'discard', 'setdefault', 'popitem', 'sort', 'reverse',
             'difference_update', 'intersection_update',
             'symmetric_difference_update'}


class Interp:
  """One abstract machine: module table, models and summaries."""

  def __init__(self, models, repo=None, step_limit=60_000_000):
    self.repo = repo or REPO
    self.models = models          # module name -> NModule
    self.modules = {}
    self.summaries = {}           # qualname -> fn(interp, args, kwargs, call)
    self.functions_seen = {}
    self.callsites = set()
    self.steps = 0
    self.step_limit = step_limit
    self.depth = 0
    self.watch_mut = {}           # id(obj) -> description
    self.keep = []
    self.builtins = self._make_builtins()
    INTERP.append(self)

  # -- modules --------------------------------------------------------------

  def module_path(self, name):
    rel = name.replace('.', '/')
    p = os.path.join(self.repo, rel + '.py')
    if os.path.exists(p):
      return p
    p = os.path.join(self.repo, rel, '__init__.py')
    if os.path.exists(p):
      return p
    return None

  def import_module(self, name):
    if name in self.modules:
      return self.modules[name]
    if name in self.models:
      return self.models[name]
    path = self.module_path(name)
    if path is None:
      return NModule(name, {})
    if '.' in name:
      self.import_module(name.rsplit('.', 1)[0])
      if name in self.modules:      # imported by its own package
        return self.modules[name]
    m = IModule(name, path)
    self.modules[name] = m
    with open(path) as f:
      src = f.read()
    tree = ast.parse(src, path)
    m.tree = tree
    m.ns['__name__'] = name
    env = Env(None, m)
    env.vars = m.ns
    self.exec_block(tree.body, env)
    if '.' in name:
      parent, child = name.rsplit('.', 1)
      pm = self.modules.get(parent)
      if pm is not None:
        pm.ns.setdefault(child, m)
    return m

  def mod_attr(self, modname, attr):
    m = self.import_module(modname)
    if attr not in m.ns:
      raise AnchorMissing(f'{modname}.{attr} not found')
    return m.ns[attr]

  # -- statements -----------------------------------------------------------

  def exec_block(self, body, env):
    for s in body:
      r = self.exec_stmt(s, env)
      if r is not None:
        return r
    return None

  def exec_stmt(self, s, env):
    self.steps += 1
    if self.steps > self.step_limit:
      raise Unsupported('step limit')
    ctx().loc = (env.mod.path, s.lineno,
                 env.fn.qual if env.fn is not None else '<module>')
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None:
      raise Unsupported('statement ' + type(s).__name__)
    return m(s, env)

  def s_Expr(self, s, env):
    if isinstance(s.value, ast.Constant):
      return None
    self.eval(s.value, env)

  def s_Pass(self, s, env):
    return None

  def s_Import(self, s, env):
    for a in s.names:
      m = self.import_module(a.name)
      if a.asname:
        self.store_name(a.asname, m, env)
      else:
        top = a.name.split('.')[0]
        self.store_name(top, self.import_module(top), env)

  def s_ImportFrom(self, s, env):
    name = s.module or ''
    if s.level:
      base = env.mod.name.split('.')
      is_pkg = env.mod.path.endswith('__init__.py')
      cut = len(base) - s.level + (1 if is_pkg else 0)
      name = '.'.join(base[:cut] + ([s.module] if s.module else []))
    m = self.import_module(name)
    for a in s.names:
      if a.name == '*':
        raise Unsupported('import *')
      ns = m.ns if isinstance(m, IModule) else m.attrs
      if a.name in ns:
        v = ns[a.name]
      else:
        sub = f'{name}.{a.name}'
        if getattr(m, 'missing', None) is not None and sub not in self.models:
          v = m.missing(a.name)
        elif sub in self.models or self.module_path(sub) or not isinstance(m, IModule):
          v = self.import_module(sub)
        else:
          raise PyExc(ImportError(f'cannot import {a.name} from {name}'))
      self.store_name(a.asname or a.name, v, env)

  def s_Assign(self, s, env):
    v = self.eval(s.value, env)
    for t in s.targets:
      self.assign(t, v, env)

  def s_AnnAssign(self, s, env):
    if s.value is not None:
      self.assign(s.target, self.eval(s.value, env), env)
    if env.cls is not None and isinstance(s.target, ast.Name):
      env.cls.append(s.target.id)

  def s_AugAssign(self, s, env):
    op = type(s.op)
    if isinstance(s.target, ast.Name):
      cur = self.load_name(s.target.id, env)
      v = self.eval(s.value, env)
      self.store_name(s.target.id, self.augop(op, cur, v), env)
    elif isinstance(s.target, ast.Attribute):
      o = self.eval(s.target.value, env)
      cur = self.getattr(o, s.target.attr)
      v = self.augop(op, cur, self.eval(s.value, env))
      self.setattr(o, s.target.attr, v)
    elif isinstance(s.target, ast.Subscript):
      o = self.eval(s.target.value, env)
      k = self.eval(s.target.slice, env)
      cur = self.getitem(o, k)
      v = self.augop(op, cur, self.eval(s.value, env))
      self.setitem(o, k, v)

  def augop(self, op, cur, v):
    if isinstance(cur, list) and op is ast.Add:
      self.note_mut(cur, '+=')
      cur.extend(self.iterate(v))
      return cur
    if isinstance(cur, (set, dict)) and op is ast.BitOr:
      self.note_mut(cur, '|=')
      cur.update(v)
      return cur
    r = self.binop(op, cur, v)
    if isinstance(cur, AArray) and not ctx().hooks.get('jnp') and (
        cur.ndim or cur.nd0 or ctx().user_data(cur.data)):
      # numpy arrays are updated in place
      r = d.as_arr(r)
      if cur.dtype in 'ib' and r.dtype == 'f':
        raise PyExc(TypeError('cannot cast the result of the in-place operation'))
      if r.shape != cur.shape:
        raise PyExc(ValueError('non-broadcastable output operand'))
      if not cur.data.flags.writeable:
        raise PyExc(ValueError('assignment destination is read-only'))
      cur.data[...] = r.data
      return cur
    return r

  def s_FunctionDef(self, s, env):
    f = self.make_func(s, env, s.name)
    v = f
    for dec in reversed(s.decorator_list):
      v = self.call(self.eval(dec, env), [v], {})
    self.store_name(s.name, v, env)

  s_AsyncFunctionDef = None

  def s_ClassDef(self, s, env):
    bases = []
    for b in s.bases:
      v = self.eval(b, env)
      bases.append(v)
    for k in s.keywords:
      self.eval(k.value, env)
    cenv = Env(env, env.mod, None, env.fn)
    cenv.cls = []
    self.exec_block(s.body, cenv)
    qual = self.qual(env, s.name)
    c = IClass(s.name, bases, cenv.vars, env.mod, qual)
    c.own_ann = cenv.cls
    for v in cenv.vars.values():
      if isinstance(v, IFunc) and '.' not in v.qual.replace(env.mod.name + '.', '', 1):
        v.qual = f'{qual}.{v.name}'
      if isinstance(v, IFunc):
        v.owner = c
    v = c
    for dec in reversed(s.decorator_list):
      v = self.call(self.eval(dec, env), [v], {})
    self.store_name(s.name, v, env)

  def s_Return(self, s, env):
    return ('return', None if s.value is None else self.eval(s.value, env))

  def s_If(self, s, env):
    if self.truth(self.eval(s.test, env)):
      return self.exec_block(s.body, env)
    return self.exec_block(s.orelse, env)

  def s_For(self, s, env):
    it = self.iterate(self.eval(s.iter, env))
    for v in it:
      self.steps += 1
      if self.steps > self.step_limit:
        raise Unsupported('step limit')
      self.assign(s.target, v, env)
      r = self.exec_block(s.body, env)
      if r is not None:
        if r[0] == 'break':
          return None
        if r[0] == 'continue':
          continue
        return r
    return self.exec_block(s.orelse, env)

  def s_While(self, s, env):
    n = 0
    while self.truth(self.eval(s.test, env)):
      n += 1
      lim = ctx().hooks.get('loop_limit', 100000)
      if n > lim:
        h = ctx().hooks.get('on_loop_limit')
        if h is not None:
          h(s, env)
        raise Unsupported('loop limit')
      r = self.exec_block(s.body, env)
      if r is not None:
        if r[0] == 'break':
          return None
        if r[0] == 'continue':
          continue
        return r
    return self.exec_block(s.orelse, env)

  def s_Break(self, s, env):
    return ('break',)

  def s_Continue(self, s, env):
    return ('continue',)

  def s_Assert(self, s, env):
    if not self.truth(self.eval(s.test, env)):
      msg = None
      if s.msg is not None:
        try:
          msg = self.eval(s.msg, env)
        except PyExc:
          pass
      raise PyExc(AssertionError(msg))

  def s_Raise(self, s, env):
    if s.exc is None:
      cur = getattr(self, 'handling', None)
      if cur:
        raise cur[-1]
      raise PyExc(RuntimeError('No active exception to reraise'))
    e = self.eval(s.exc, env)
    if isinstance(e, type) and issubclass(e, BaseException):
      e = e()
    if isinstance(e, IClass):
      e = self.call(e, [], {})
    raise PyExc(e)

  def s_Try(self, s, env):
    try:
      try:
        r = self.exec_block(s.body, env)
        if r is None:
          r = self.exec_block(s.orelse, env)
      except PyExc as e:
        for h in s.handlers:
          if h.type is None or self.exc_matches(e.exc, self.eval(h.type, env)):
            if h.name:
              self.store_name(h.name, e.exc, env)
            self.handling = getattr(self, 'handling', [])
            self.handling.append(e)
            try:
              r = self.exec_block(h.body, env)
            finally:
              self.handling.pop()
            break
        else:
          raise
    finally:
      if s.finalbody:
        fr = self.exec_block(s.finalbody, env)
        if fr is not None:
          return fr
    return r

  def exc_matches(self, e, t):
    if isinstance(t, tuple):
      return any(self.exc_matches(e, x) for x in t)
    if isinstance(t, type):
      if isinstance(e, IInst):
        nb = e.cls.native_exc_base()
        return nb is not None and issubclass(nb, t)
      return isinstance(e, t)
    if isinstance(t, IClass):
      return isinstance(e, IInst) and e.cls.subclass_of(t)
    return False

  def s_With(self, s, env):
    exits = []
    for it in s.items:
      cm = self.eval(it.context_expr, env)
      ent = self.call(self.getattr(cm, '__enter__'), [], {})
      if it.optional_vars is not None:
        self.assign(it.optional_vars, ent, env)
      exits.append(cm)
    try:
      return self.exec_block(s.body, env)
    finally:
      for cm in reversed(exits):
        self.call(self.getattr(cm, '__exit__'), [None, None, None], {})

  def s_Global(self, s, env):
    env.globals_ = tuple(env.globals_) + tuple(s.names)

  def s_Nonlocal(self, s, env):
    env.nonlocals = tuple(env.nonlocals) + tuple(s.names)

  def s_Delete(self, s, env):
    for t in s.targets:
      if isinstance(t, ast.Name):
        env.vars.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        o = self.eval(t.value, env)
        self.note_mut(o, 'del')
        k = self.eval(t.slice, env)
        self.native(lambda: o.__delitem__(k))
      else:
        raise Unsupported('del')

  def s_Match(self, s, env):
    subj = self.eval(s.subject, env)
    for case in s.cases:
      b = {}
      if self.match_pattern(case.pattern, subj, env, b):
        for k, v in b.items():
          self.store_name(k, v, env)
        if case.guard is None or self.truth(self.eval(case.guard, env)):
          return self.exec_block(case.body, env)
    return None

  def match_pattern(self, p, v, env, b):
    if isinstance(p, ast.MatchValue):
      return self.truth(self.compare_op(ast.Eq, v, self.eval(p.value, env)))
    if isinstance(p, ast.MatchSingleton):
      return v is p.value
    if isinstance(p, ast.MatchAs):
      if p.pattern is not None and not self.match_pattern(p.pattern, v, env, b):
        return False
      if p.name:
        b[p.name] = v
      return True
    if isinstance(p, ast.MatchOr):
      return any(self.match_pattern(q, v, env, b) for q in p.patterns)
    if isinstance(p, ast.MatchSequence):
      if not isinstance(v, (tuple, list)):
        return False
      star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
      if star:
        i = star[0]
        after = len(p.patterns) - i - 1
        if len(v) < i + after:
          return False
        mid = list(v[i:len(v) - after])
        if p.patterns[i].name:
          b[p.patterns[i].name] = mid
        return all(self.match_pattern(q, x, env, b) for q, x in
                   zip(p.patterns[:i], v[:i])) and all(
                       self.match_pattern(q, x, env, b) for q, x in
                       zip(p.patterns[i + 1:], v[len(v) - after:]))
      return len(v) == len(p.patterns) and all(
          self.match_pattern(q, x, env, b) for q, x in zip(p.patterns, v))
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
      return self.isinstance_(v, self.eval(p.cls, env))
    raise Unsupported('match pattern')

  # -- names ---------------------------------------------------------------

  def qual(self, env, name):
    if env.fn is not None:
      return f'{env.fn.qual}.{name}'
    return f'{env.mod.name}.{name}'

  def store_name(self, name, v, env):
    if name in env.globals_:
      env.mod.ns[name] = v
      ctx().event('global-write', f'global {name} rebound')
      return
    if name in env.nonlocals:
      e = env.parent
      while e is not None:
        if name in e.vars and e.cls is None:
          e.vars[name] = v
          return
        e = e.parent
    env.vars[name] = v

  def load_name(self, name, env):
    e = env
    first = True
    if name in env.globals_:
      if name in env.mod.ns:
        return env.mod.ns[name]
    while e is not None:
      if name in e.vars and (first or e.cls is None):
        return e.vars[name]
      if e.locals_ is not None and name in e.locals_ and first and (
          name not in e.nonlocals) and (name not in e.globals_):
        raise PyExc(UnboundLocalError(name))
      e = e.parent
      first = False
    if name in env.mod.ns:
      return env.mod.ns[name]
    if name in self.builtins:
      return self.builtins[name]
    raise PyExc(NameError(f"name '{name}' is not defined"))

  def assign(self, t, v, env):
    if isinstance(t, ast.Name):
      self.store_name(t.id, v, env)
    elif isinstance(t, (ast.Tuple, ast.List)):
      vals = list(self.iterate(v))
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if star:
        i = star[0]
        after = len(t.elts) - i - 1
        if len(vals) < i + after:
          raise PyExc(ValueError('not enough values to unpack'))
        for e, x in zip(t.elts[:i], vals[:i]):
          self.assign(e, x, env)
        self.assign(t.elts[i].value, vals[i:len(vals) - after], env)
        for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
          self.assign(e, x, env)
      else:
        if len(vals) != len(t.elts):
          raise PyExc(ValueError(
              f'cannot unpack {len(vals)} values into {len(t.elts)} targets'))
        for e, x in zip(t.elts, vals):
          self.assign(e, x, env)
    elif isinstance(t, ast.Attribute):
      self.setattr(self.eval(t.value, env), t.attr, v)
    elif isinstance(t, ast.Subscript):
      self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, env)
    else:
      raise Unsupported('assign target')

  def note_mut(self, o, what):
    if id(o) in self.watch_mut:
      ctx().event('mutation', f'{what} on {self.watch_mut[id(o)]}')

  def setattr(self, o, name, v):
    self.note_mut(o, f'attribute store .{name}')
    if isinstance(o, IInst):
      if o.cls.dc and o.cls.dc.get('frozen') and not getattr(o, 'initing', False):
        raise PyExc(AttributeError(f'cannot assign to field {name!r}'))
      o.attrs[name] = v
    elif isinstance(o, IFunc):
      o.attrs[name] = v
    elif isinstance(o, IClass):
      o.ns[name] = v
    elif isinstance(o, IModule):
      o.ns[name] = v
      ctx().event('global-write', f'{o.name}.{name}')
    elif hasattr(o, 'model_setattr'):
      o.model_setattr(name, v)
    elif isinstance(o, NModule):
      raise Unsupported('store into a modelled module')
    else:
      raise Unsupported(f'attribute store on {type(o).__name__}')

  def plain_index(self, k):
    if isinstance(k, AArray):
      raise Unsupported('store at an array index')
    return k

  def setitem(self, o, k, v):
    self.note_mut(o, 'item store')
    if isinstance(o, (list, dict)):
      self.native(lambda: o.__setitem__(k, v))
    elif isinstance(o, IInst):
      self.call(self.getattr(o, '__setitem__'), [k, v], {})
    elif isinstance(o, AArray):
      ctx().event('array-store', 'in-place array assignment')
      if ctx().hooks.get('jnp'):
        raise PyExc(TypeError('JAX arrays are immutable'))
      key = tuple(self.plain_index(x) for x in k) if isinstance(k, tuple) else (
          self.plain_index(k))
      try:
        o.data[key] = d.as_arr(v).data if d.as_arr(v).ndim else d.as_arr(v).data[()]
      except (IndexError, ValueError) as ex:
        raise PyExc(ex)
    else:
      raise PyExc(TypeError('object does not support item assignment'))

  # -- expressions -----------------------------------------------------------

  def eval(self, e, env):
    return getattr(self, 'e_' + type(e).__name__, self.e_unsupported)(e, env)

  def e_unsupported(self, e, env):
    raise Unsupported('expression ' + type(e).__name__)

  def e_Constant(self, e, env):
    v = e.value
    if isinstance(v, float):
      if v in (math.inf, -math.inf):
        return v
      try:
        return Fraction(repr(v))
      except ValueError:
        return v
    return v

  def e_Name(self, e, env):
    return self.load_name(e.id, env)

  def e_Tuple(self, e, env):
    return tuple(self.eval_items(e.elts, env))

  def e_List(self, e, env):
    return self.eval_items(e.elts, env)

  def e_Set(self, e, env):
    return self.native(lambda: set(self.eval_items(e.elts, env)))

  def eval_items(self, elts, env):
    out = []
    for x in elts:
      if isinstance(x, ast.Starred):
        out.extend(self.iterate(self.eval(x.value, env)))
      else:
        out.append(self.eval(x, env))
    return out

  def e_Dict(self, e, env):
    out = {}
    for k, v in zip(e.keys, e.values):
      if k is None:
        out.update(self.eval(v, env))
      else:
        kk = self.eval(k, env)
        vv = self.eval(v, env)
        self.native(lambda: out.__setitem__(kk, vv))
    return out

  def e_JoinedStr(self, e, env):
    parts = []
    for v in e.values:
      if isinstance(v, ast.Constant):
        parts.append(str(v.value))
      else:
        x = self.eval(v.value, env)
        parts.append(self.to_str(x))
    return ''.join(parts)

  def e_FormattedValue(self, e, env):
    return self.to_str(self.eval(e.value, env))

  def to_str(self, x):
    if isinstance(x, str):
      return x
    if isinstance(x, Fraction):
      return repr(float(x))
    return repr(x)

  def e_NamedExpr(self, e, env):
    v = self.eval(e.value, env)
    t = env
    while t.fn is not None and getattr(t, 'locals_', None) == 'comp':
      t = t.parent
    self.store_name(e.target.id, v, t)
    return v

  def e_IfExp(self, e, env):
    return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse,
                     env)

  def e_BoolOp(self, e, env):
    is_and = isinstance(e.op, ast.And)
    v = None
    for x in e.values[:-1]:
      v = self.eval(x, env)
      if self.truth(v) != is_and:
        return v
    return self.eval(e.values[-1], env)

  def e_UnaryOp(self, e, env):
    v = self.eval(e.operand, env)
    if isinstance(e.op, ast.Not):
      return not self.truth(v)
    if isinstance(e.op, ast.USub):
      if isinstance(v, AArray):
        return d.a_neg(v)
      if isinstance(v, IInst):
        return self.call(self.getattr(v, '__neg__'), [], {})
      return self.native(lambda: -v)
    if isinstance(e.op, ast.UAdd):
      return v
    if isinstance(e.op, ast.Invert):
      if isinstance(v, AArray):
        if v.dtype != 'b':
          raise Unsupported('~ on a numeric array')
        return d.ew(d.b_not, v, dtype='b')
      return self.native(lambda: ~v)
    raise Unsupported('unary op')

  def e_BinOp(self, e, env):
    a = self.eval(e.left, env)
    b = self.eval(e.right, env)
    ctx().loc = (env.mod.path, e.lineno,
                 env.fn.qual if env.fn is not None else '<module>')
    return self.binop(type(e.op), a, b)

  _NAMES = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__',
            ast.Div: '__truediv__', ast.Pow: '__pow__',
            ast.MatMult: '__matmul__', ast.BitOr: '__or__',
            ast.BitAnd: '__and__', ast.BitXor: '__xor__', ast.Mod: '__mod__',
            ast.FloorDiv: '__floordiv__'}

  def binop(self, op, a, b):
    if isinstance(a, AArray) or isinstance(b, AArray):
      if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        # numpy would convert; jax raises.
        raise PyExc(TypeError('unsupported operand: sequence and array'))
      if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        raise PyExc(TypeError('unsupported operand'))
      try:
        if op is ast.Add:
          return d.a_add(a, b)
        if op is ast.Sub:
          return d.a_sub(a, b)
        if op is ast.Mult:
          return d.a_mul(a, b)
        if op is ast.Div:
          return d.a_div(a, b)
        if op is ast.Pow:
          return d.a_pow(a, b)
        if op is ast.MatMult:
          return self.models['jax.numpy'].attrs['matmul'].fn(a, b)
        if op is ast.BitAnd:
          return d.ew(d.b_and, a, b, dtype='b')
        if op is ast.BitOr:
          return d.ew(d.b_or, a, b, dtype='b')
        if op is ast.BitXor:
          return d.ew(lambda x, y: d.b_or(d.b_and(x, d.b_not(y)),
                                          d.b_and(d.b_not(x), y)), a, b,
                      dtype='b')
      except (ValueError, TypeError, ZeroDivisionError) as ex:
        raise PyExc(ex)
      raise Unsupported('array operator ' + op.__name__)
    if isinstance(a, IInst) or isinstance(b, IInst):
      nm = self._NAMES.get(op)
      if isinstance(a, IInst) and nm and a.cls.lookup(nm) is not _MISSING:
        return self.call(self.getattr(a, nm), [b], {})
      if isinstance(b, IInst) and nm:
        r = '__r' + nm[2:]
        if b.cls.lookup(r) is not _MISSING:
          return self.call(self.getattr(b, r), [a], {})
      raise PyExc(TypeError('unsupported operand'))
    if isinstance(a, TypingObj) or isinstance(b, TypingObj) or (
        op is ast.BitOr and isinstance(a, (BType, IClass, type))):
      return TypingObj('union')
    if op is ast.Div and isinstance(a, int) and isinstance(b, int):
      if b == 0:
        raise PyExc(ZeroDivisionError('division by zero'))
      return Fraction(a, b)
    if op is ast.Pow and isinstance(a, (int, Fraction)) and isinstance(
        b, (int, Fraction)):
      if isinstance(b, Fraction) and b.denominator == 1:
        r = Fraction(a) ** int(b)
        return r
      if isinstance(b, int):
        if b < 0:
          if a == 0:
            raise PyExc(ZeroDivisionError('0 ** negative'))
          return Fraction(a) ** b
        return a ** b
      raise Unsupported('fractional power of a number')
    return self.native(lambda: _BINOPS[op](a, b))

  def e_Compare(self, e, env):
    left = self.eval(e.left, env)
    res = True
    for op, r in zip(e.ops, e.comparators):
      right = self.eval(r, env)
      res = self.compare_op(type(op), left, right)
      if len(e.ops) > 1:
        if not self.truth(res):
          return res
      left = right
    return res

  def compare_op(self, op, a, b):
    if op is ast.Is:
      return self.is_(a, b)
    if op is ast.IsNot:
      return not self.is_(a, b)
    if op is ast.In:
      return self.contains(b, a)
    if op is ast.NotIn:
      return not self.contains(b, a)
    if isinstance(a, AArray) or isinstance(b, AArray):
      if not isinstance(a, (AArray, int, Fraction, float, bool)) or not (
          isinstance(b, (AArray, int, Fraction, float, bool))):
        if op is ast.Eq:
          return False
        if op is ast.NotEq:
          return True
        raise PyExc(TypeError('comparison of array and sequence'))
      nm = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge',
            ast.Eq: 'eq', ast.NotEq: 'ne'}[op]
      try:
        return d.a_cmp(nm)(a, b)
      except (ValueError, TypeError) as ex:
        raise PyExc(ex)
    if isinstance(a, IInst) and op in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
      nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__',
            ast.GtE: '__ge__'}[op]
      return self.call(self.getattr(a, nm), [b], {})
    f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
         ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne}[op]
    if op in (ast.Eq, ast.NotEq) and isinstance(a, (tuple, list)) and isinstance(
        b, (tuple, list)):
      eq = type(a) is type(b) and len(a) == len(b) and all(
          x is y or self.truth(self.compare_op(ast.Eq, x, y))
          for x, y in zip(a, b))
      return eq if op is ast.Eq else not eq
    return self.native(lambda: f(a, b))

  def is_(self, a, b):
    if a is b:
      return True
    if isinstance(a, (int, str, bool, type(None))) and type(a) is type(b):
      return a == b
    return False

  def contains(self, c, x):
    if isinstance(c, IInst):
      return self.truth(self.call(self.getattr(c, '__contains__'), [x], {}))
    if isinstance(c, (tuple, list)):
      return any(y is x or self.truth(self.compare_op(ast.Eq, y, x)) for y in c)
    if isinstance(c, AArray):
      raise Unsupported('membership in an array')
    return self.native(lambda: x in c)

  def e_Attribute(self, e, env):
    return self.getattr(self.eval(e.value, env), e.attr)

  def e_Subscript(self, e, env):
    o = self.eval(e.value, env)
    k = self.eval(e.slice, env)
    ctx().loc = (env.mod.path, e.lineno,
                 env.fn.qual if env.fn is not None else '<module>')
    return self.getitem(o, k)

  def e_Slice(self, e, env):
    g = lambda x: None if x is None else self.index_(self.eval(x, env))
    return slice(g(e.lower), g(e.upper), g(e.step))

  def index_(self, x):
    if isinstance(x, AArray):
      raise PyExc(TypeError('array used as index'))
    return x

  def getitem(self, o, k):
    if isinstance(o, AArray):
      if isinstance(k, Fraction):
        raise PyExc(IndexError('float index'))
      try:
        return d.a_getitem(o, k)
      except (IndexError, TypeError, ValueError) as ex:
        raise PyExc(ex)
    if isinstance(o, (TypingObj, BType)) or (isinstance(o, type)):
      return TypingObj(getattr(o, 'name', 'generic'))
    if isinstance(o, IInst):
      return self.call(self.getattr(o, '__getitem__'), [k], {})
    if isinstance(o, IClass):
      return o
    if isinstance(k, AArray):
      if k.ndim == 0 and k.data[()].__class__ is V and k.data[()].is_exact() and k.data[()].ex.is_const():
        k = int(k.data[()].ex.const_value())
      else:
        raise Unsupported('array index into a python container')
    if hasattr(o, 'model_getitem'):
      return o.model_getitem(k)
    return self.native(lambda: o[k])

  def e_Starred(self, e, env):
    raise Unsupported('starred')

  def e_Lambda(self, e, env):
    return self.make_func(e, env, '<lambda>')

  def e_Call(self, e, env):
    f = self.eval(e.func, env)
    if isinstance(f, Native) and f.name == 'super' and not e.args:
      owner = None
      en = env
      while en is not None and owner is None:
        owner = getattr(en.fn, 'owner', None) if en.fn is not None else None
        selfv = None
        if owner is not None and en.fn.node.args.args:
          selfv = en.vars.get(en.fn.node.args.args[0].arg)
        en = en.parent
      return Super(owner, selfv)
    args = self.eval_items(e.args, env)
    kw = {}
    for k in e.keywords:
      if k.arg is None:
        kw.update(self.eval(k.value, env))
      else:
        kw[k.arg] = self.eval(k.value, env)
    loc = (env.mod.path, e.lineno,
           env.fn.qual if env.fn is not None else '<module>')
    ctx().loc = loc
    self.callsites.add((env.mod.path, e.lineno, e.col_offset))
    r = self.call(f, args, kw)
    ctx().loc = loc
    return r

  def comp(self, gens, env, emit):
    cenv = Env(env, env.mod, None, env.fn)
    cenv.globals_ = env.globals_

    def rec(i):
      if i == len(gens):
        emit(cenv)
        return
      g = gens[i]
      it = self.eval(g.iter, env if i == 0 else cenv)
      for v in self.iterate(it):
        self.assign(g.target, v, cenv)
        if all(self.truth(self.eval(c, cenv)) for c in g.ifs):
          rec(i + 1)
    rec(0)

  def e_ListComp(self, e, env):
    out = []
    self.comp(e.generators, env, lambda c: out.append(self.eval(e.elt, c)))
    return out

  def e_GeneratorExp(self, e, env):
    # evaluated lazily so that any()/all()/next() short-circuit
    return self._lazy_gen(e, env)

  def _lazy_gen(self, e, env):
    cenv = Env(env, env.mod, None, env.fn)
    first = self.eval(e.generators[0].iter, env)

    def rec(i, it):
      g = e.generators[i]
      for v in self.iterate(it):
        self.assign(g.target, v, cenv)
        if all(self.truth(self.eval(c, cenv)) for c in g.ifs):
          if i + 1 == len(e.generators):
            yield self.eval(e.elt, cenv)
          else:
            yield from rec(i + 1, self.eval(e.generators[i + 1].iter, cenv))
    return rec(0, first)

  def e_SetComp(self, e, env):
    out = set()
    self.comp(e.generators, env, lambda c: out.add(self.eval(e.elt, c)))
    return out

  def e_DictComp(self, e, env):
    out = {}
    def emit(c):
      k = self.eval(e.key, c)
      v = self.eval(e.value, c)
      self.native(lambda: out.__setitem__(k, v))
    self.comp(e.generators, env, emit)
    return out

  def e_Yield(self, e, env):
    v = None if e.value is None else self.eval(e.value, env)
    en = env
    while en.yields is None:
      en = en.parent
    en.yields.append(v)
    if len(en.yields) > 100000:
      raise Unsupported('unbounded generator')
    return None

  def e_YieldFrom(self, e, env):
    en = env
    while en.yields is None:
      en = en.parent
    for v in self.iterate(self.eval(e.value, env)):
      en.yields.append(v)
    return None

  # -- functions ---------------------------------------------------------------

  def make_func(self, node, env, name):
    a = node.args
    defaults = [self.eval(x, env) for x in a.defaults]
    kwd = [None if x is None else self.eval(x, env) for x in a.kw_defaults]
    e = env
    f = IFunc(name, node, e, env.mod, defaults, kwd, self.qual(env, name))
    if not hasattr(node, '_locals'):
      node._locals, node._isgen = _scan(node)
    return f

  def call(self, f, args, kw):
    self.steps += 1
    if isinstance(f, IFunc):
      return self.call_func(f, args, kw)
    if isinstance(f, IBound):
      return self.call(f.func, [f.self_] + list(args), kw)
    if isinstance(f, IPartial):
      k = dict(f.kw)
      k.update(kw)
      return self.call(f.func, list(f.args) + list(args), k)
    if isinstance(f, Native):
      return self.native(lambda: f.fn(*args, **kw))
    if isinstance(f, BType):
      return self.native(lambda: f.ctor(*args, **kw))
    if isinstance(f, IClass):
      return self.instantiate(f, args, kw)
    if isinstance(f, type) and issubclass(f, BaseException):
      try:
        return f(*args)
      except TypeError:
        return f()
    if isinstance(f, IInst):
      c = f.cls.lookup('__call__')
      if c is _MISSING:
        raise PyExc(TypeError(f'{f.cls.name!r} object is not callable'))
      return self.call(c, [f] + list(args), kw)
    if isinstance(f, TypingObj):
      return args[0] if args else None
    if hasattr(f, 'model_call'):
      return self.native(lambda: f.model_call(self, args, kw))
    if f is None or isinstance(f, (int, str, Fraction, tuple, list, dict, AArray)):
      raise PyExc(TypeError(f'{type(f).__name__} object is not callable'))
    raise Unsupported(f'call of {type(f).__name__}')

  def bind(self, f, args, kw):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
    kwonly = [x.arg for x in a.kwonlyargs]
    out = {}
    args = list(args)
    kw = dict(kw)
    for n, v in zip(pos, args):
      out[n] = v
    extra = args[len(pos):]
    if a.vararg:
      out[a.vararg.arg] = tuple(extra)
    elif extra:
      raise PyExc(TypeError(f'{f.name}() takes {len(pos)} positional arguments '
                            f'but {len(args)} were given'))
    rest = {}
    for k, v in kw.items():
      if k in out and k in pos[:len(args)]:
        raise PyExc(TypeError(f'{f.name}() got multiple values for {k!r}'))
      if k in pos or k in kwonly:
        out[k] = v
      elif a.kwarg:
        rest[k] = v
      else:
        raise PyExc(TypeError(f'{f.name}() got an unexpected keyword {k!r}'))
    if a.kwarg:
      out[a.kwarg.arg] = rest
    nd = len(f.defaults)
    for i, n in enumerate(pos):
      if n not in out:
        j = i - (len(pos) - nd)
        if j < 0:
          raise PyExc(TypeError(f'{f.name}() missing argument {n!r}'))
        out[n] = f.defaults[j]
    for i, n in enumerate(kwonly):
      if n not in out:
        if a.kw_defaults[i] is None:
          raise PyExc(TypeError(f'{f.name}() missing keyword argument {n!r}'))
        out[n] = f.kw_defaults[i]
    return out

  def call_func(self, f, args, kw):
    s = self.summaries.get(f.qual)
    if s is not None:
      r = s(self, f, args, kw)
      if r is not NotImplemented:
        return r
    return self.run_func(f, args, kw)

  def run_func(self, f, args, kw):
    vars_ = self.bind(f, args, kw)
    env = Env(f.env, f.mod, f.node._locals, f)
    # a class body scope is not visible from methods
    while env.parent is not None and env.parent.cls is not None:
      env.parent = env.parent.parent
    env.vars = vars_
    self.functions_seen[f.qual] = self.functions_seen.get(f.qual, 0) + 1
    self.depth += 1
    if self.depth > 150:
      self.depth -= 1
      raise Unsupported('recursion depth')
    try:
      if isinstance(f.node, ast.Lambda):
        return self.eval(f.node.body, env)
      if f.node._isgen:
        env.yields = []
        self.exec_block(f.node.body, env)
        return iter(env.yields)
      r = self.exec_block(f.node.body, env)
      return r[1] if r is not None and r[0] == 'return' else None
    finally:
      self.depth -= 1

  def instantiate(self, c, args, kw):
    nb = c.native_exc_base()
    o = IInst(c)
    self.keep.append(o) if len(self.keep) < 10 else None
    init = c.lookup('__init__')
    if init is not _MISSING and not (c.dc and '__init__' not in c.ns and init is _MISSING):
      if c.dc is None or '__init__' in c.ns:
        self.call(init, [o] + list(args), kw)
        return o
    if c.dc is not None:
      o.initing = True
      vals = dict(zip(c.fields, args))
      if len(args) > len(c.fields):
        raise PyExc(TypeError('too many arguments'))
      for k, v in kw.items():
        if k not in c.fields or k in vals:
          raise PyExc(TypeError(f'unexpected keyword {k!r}'))
        vals[k] = v
      for fl in c.fields:
        if fl not in vals:
          dv = c.lookup(fl)
          if dv is _MISSING:
            raise PyExc(TypeError(f'missing argument {fl!r}'))
          if isinstance(dv, DCField):
            dv = self.call(dv.factory, [], {}) if dv.factory is not None else dv.default
          vals[fl] = dv
        o.attrs[fl] = vals[fl]
      post = c.lookup('__post_init__')
      if post is not _MISSING:
        self.call(post, [o], {})
      o.initing = False
      return o
    if nb is not None:
      o.attrs['args'] = tuple(args)
      return o
    nt = getattr(c, 'namedtuple_fields', None)
    if args or kw:
      raise PyExc(TypeError(f'{c.name}() takes no arguments'))
    return o

  # -- attributes ---------------------------------------------------------------

  def getattr(self, o, name, default=_MISSING):
    r = self._getattr(o, name)
    if r is _MISSING:
      if default is not _MISSING:
        return default
      raise PyExc(AttributeError(
          f'{getattr(o, "name", type(o).__name__)!r} object has no attribute '
          f'{name!r}'))
    return r

  def _getattr(self, o, name):
    if isinstance(o, IModule):
      if name in o.ns:
        return o.ns[name]
      sub = f'{o.name}.{name}'
      if sub in self.modules:
        return self.modules[sub]
      return _MISSING
    if isinstance(o, NModule):
      if o.documented is not None and name not in o.documented:
        ctx().event('backend', f'{name} is not part of the numpy-like interface')
      if name in o.attrs and (o.portable is None or name in o.portable):
        return o.attrs[name]
      sub = f'{o.name}.{name}'
      if o.portable is not None and name not in o.portable:
        raise PyExc(AttributeError(f'the numpy-like backend has no attribute {name!r}'))
      if sub in self.models:
        return self.models[sub]
      h = getattr(o, 'missing', None)
      if h is not None:
        return h(name)
      raise Unsupported(f'{o.name}.{name} is not modelled')
    if isinstance(o, IInst):
      if name in o.attrs:
        return o.attrs[name]
      if name == '__class__':
        return o.cls
      if name == '__dict__':
        return o.attrs
      v = o.cls.lookup(name)
      if v is _MISSING:
        return _MISSING
      return self.bind_attr(v, o, o.cls)
    if isinstance(o, IClass):
      if name == '__name__':
        return o.name
      v = o.lookup(name)
      if v is _MISSING:
        return _MISSING
      if isinstance(v, StaticM):
        return v.f
      if isinstance(v, ClassM):
        return IBound(v.f, o)
      return v
    if isinstance(o, IFunc):
      if name == '__name__':
        return o.name
      return o.attrs.get(name, _MISSING)
    if isinstance(o, Native):
      if name == '__name__':
        return o.name
      return o.attrs.get(name, _MISSING)
    if isinstance(o, IPartial):
      return {'func': o.func, 'args': tuple(o.args), 'keywords': o.kw}.get(
          name, _MISSING)
    if isinstance(o, Super):
      for c in o.obj.cls.mro()[1:] if o.obj is not None else []:
        if name in c.ns:
          return self.bind_attr(c.ns[name], o.obj, c)
      if name == '__init__':
        return Native(lambda *a, **k: None)
      return _MISSING
    if isinstance(o, AArray):
      return self.array_attr(o, name)
    if isinstance(o, TypingObj):
      return TypingObj(name)
    if hasattr(o, 'model_getattr'):
      r = o.model_getattr(name)
      return _MISSING if r is NotImplemented else r
    if isinstance(o, type) and issubclass(o, BaseException):
      return getattr(o, name, _MISSING)
    if isinstance(o, BType):
      if name == '__name__':
        return o.name
      if o.name == 'dict' and name == 'fromkeys':
        return Native(lambda ks, v=None: dict.fromkeys(self.iterate(ks), v))
      if o.name == 'str' and name == 'join':
        return Native(lambda s, it: s.join(self.iterate(it)))
      raise Unsupported(f'{o.name}.{name}')
    if isinstance(o, (int, Fraction, float)):
      if name in ('shape',):
        return _MISSING
      if name in ('dtype', 'ndim', 'aval', 'size', 'T'):
        return _MISSING
      if name in ('real',):
        return o
      if name == 'is_integer' and isinstance(o, Fraction):
        return Native(lambda: o.denominator == 1)
      if name in ('bit_length', 'numerator', 'denominator') and isinstance(o, int):
        v = getattr(o, name)
        return Native(v) if callable(v) else v
      return _MISSING
    if isinstance(o, (str, list, dict, set, frozenset, tuple, slice, range)):
      if not hasattr(o, name):
        return _MISSING
      v = getattr(o, name)
      if callable(v):
        return Native(self._container_method(o, name, v), name)
      return v
    if isinstance(o, BaseException):
      return getattr(o, name, _MISSING)
    if o is None:
      return _MISSING
    raise Unsupported(f'attribute {name} of {type(o).__name__}')

  def _container_method(self, o, name, m):
    def f(*args, **kw):
      if name in _MUTATORS and isinstance(o, (list, dict, set)):
        self.note_mut(o, f'.{name}()')
      if name == 'sort':
        o[:] = self.sorted_(o, **kw)
        return None
      if name in ('extend', 'update', 'union', 'intersection', 'difference',
                  'join', 'issubset', 'issuperset', 'isdisjoint',
                  'symmetric_difference', 'difference_update',
                  'intersection_update'):
        args = [a if isinstance(a, (dict, str)) else list(self.iterate(a))
                for a in args]
      if name == 'format':
        return m(*[self.to_str(a) for a in args],
                 **{k: self.to_str(v) for k, v in kw.items()})
      if name in ('index', 'count', 'remove') and isinstance(o, (list, tuple)):
        hits = [i for i, y in enumerate(o)
                if y is args[0] or self.truth(self.compare_op(ast.Eq, y, args[0]))]
        if name == 'count':
          return len(hits)
        if not hits:
          raise PyExc(ValueError('not in list'))
        if name == 'index':
          return hits[0]
        del o[hits[0]]
        return None
      return m(*args, **kw)
    return f

  def bind_attr(self, v, o, cls):
    if isinstance(v, IFunc):
      return IBound(v, o)
    if isinstance(v, Property):
      return self.call(v.fget, [o], {})
    if isinstance(v, StaticM):
      return v.f
    if isinstance(v, ClassM):
      return IBound(v.f, o.cls)
    if isinstance(v, Native) and getattr(v, 'is_method', False):
      return IBound(v, o)
    return v

  def array_attr(self, o, name):
    if name == 'shape':
      return o.shape
    if name == 'ndim':
      return o.ndim
    if name == 'size':
      return o.size
    if name == 'dtype':
      return o.dtype if isinstance(o.dtype, DType) else DType(o.dtype)
    if name == 'T':
      return d.a_transpose(o)
    np_ = self.models['jax.numpy'].attrs
    if name in ('reshape',):
      return Native(lambda *s, **k: d.a_reshape(
          o, s[0] if len(s) == 1 else s))
    if name == 'transpose':
      return Native(lambda *s: d.a_transpose(
          o, None if not s else (s[0] if len(s) == 1 and not isinstance(s[0], int) else s)))
    if name in ('sum', 'prod', 'min', 'max', 'any', 'all', 'mean', 'ravel',
                'flatten', 'squeeze', 'clip', 'swapaxes', 'dot', 'copy',
                'round'):
      fn = np_.get('ravel' if name == 'flatten' else name)
      if fn is None:
        raise Unsupported(f'array method {name}')
      return Native(lambda *a, **k: fn.fn(o, *a, **k))
    if name == 'astype':
      return Native(lambda t, *a, **k: np_['astype'].fn(o, t))
    if name in ('item', 'tolist'):
      def conc(v):
        if isinstance(v, B):
          v = v.val
          if v is not None:
            return v
        else:
          v = d.to_v(v)
          if v.is_inf():
            return {'inf': float('inf'), '-inf': -float('inf')}.get(v.ex, float('nan'))
          if v.is_exact() and v.ex.is_const() and not (v.D or v.U):
            c = v.ex.const_value()
            return int(c) if o.dtype == 'i' and c.denominator == 1 else c
          if v.is_exact() and not (v.D or v.U) and v.ex.atoms() <= ctx().hooks.get(
              'concrete', frozenset()):
            return v.ex
        ctx().event('concretize', f'.{name}() on an array')
        raise Unsupported(f'.{name}() of a symbolic array')
      def item():
        if name == 'item' and o.size != 1:
          raise ValueError('can only convert an array of size 1 to a Python scalar')
        def nest(x):
          return [nest(y) for y in x] if isinstance(x, np.ndarray) and x.ndim else conc(
              x.item() if isinstance(x, np.ndarray) else x)
        return nest(o.data) if name == 'tolist' else conc(o.data.reshape(-1)[0])
      return Native(item)
    if name == 'aval':
      return AvalOf(o)
    if name == 'at':
      if not ctx().hooks.get('jnp'):
        ctx().event('backend', '.at is not an attribute of every backend\'s arrays')
      raise Unsupported('.at')
    if name in ('weak_type',):
      return False
    return _MISSING

  # -- helpers -----------------------------------------------------------------

  def native(self, fn):
    try:
      return fn()
    except (PyExc, Unsupported):
      raise
    except RecursionError:
      raise Unsupported('analysis recursion')
    except (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError,
            AttributeError, NotImplementedError, AssertionError, StopIteration,
            OverflowError) as e:
      raise PyExc(e)

  def truth(self, v):
    if v is None or v is True or v is False:
      return bool(v)
    if isinstance(v, (AArray,)):
      if d.symbolic(v):
        ctx().event('truth', 'truth value of an array')
      vals = [d.to_b(x).val for x in v.data.reshape(-1)]
      if len(vals) != 1:
        raise PyExc(ValueError('truth value of an array is ambiguous'))
      return self.decide_b(vals[0], v)
    if isinstance(v, B):
      return self.decide_b(v.val, v)
    if isinstance(v, IInst):
      for m in ('__bool__', '__len__'):
        f = v.cls.lookup(m)
        if f is not _MISSING:
          return bool(self.call(f, [v], {}))
      return True
    if isinstance(v, (IFunc, IBound, Native, IClass, IPartial, IModule, NModule,
                      BType, TypingObj)):
      return True
    if v is NotImplemented:
      return True
    if hasattr(v, 'model_truth'):
      return v.model_truth()
    return bool(v)

  def decide_b(self, val, v):
    if val is not None:
      return val
    fk = ctx().forker
    if fk is None:
      raise Unsupported('undecided branch on an array value')
    return bool(fk.decide(2))

  def iterate(self, v):
    if isinstance(v, AArray):
      if v.ndim == 0:
        raise PyExc(TypeError('iteration over a 0-d array'))
      return [d.a_getitem(v, i) for i in range(v.shape[0])]
    if isinstance(v, IInst):
      f = v.cls.lookup('__iter__')
      if f is _MISSING:
        raise PyExc(TypeError(f'{v.cls.name!r} object is not iterable'))
      return self.iterate(self.call(f, [v], {}))
    if isinstance(v, (int, Fraction, float, type(None), IFunc, V, B)):
      raise PyExc(TypeError(f'{type(v).__name__} object is not iterable'))
    if hasattr(v, 'model_iter'):
      return v.model_iter()
    try:
      return _wrapiter(iter(v))
    except TypeError as e:
      raise PyExc(e)

  def isinstance_(self, v, t):
    if isinstance(t, tuple):
      return any(self.isinstance_(v, x) for x in t)
    if isinstance(t, BType):
      return t.check(v)
    if isinstance(t, IClass):
      return isinstance(v, IInst) and v.cls.subclass_of(t)
    if isinstance(t, type):
      return isinstance(v, t)
    if isinstance(t, TypingObj):
      raise Unsupported('isinstance with a typing object')
    if hasattr(t, 'model_instancecheck'):
      return t.model_instancecheck(v)
    raise Unsupported(f'isinstance against {t!r}')

  def sorted_(self, it, key=None, reverse=False):
    items = list(self.iterate(it))
    ks = [x if key is None else self.call(key, [x], {}) for x in items]

    def lt(i, j):
      return self.truth(self.compare_op(ast.Lt, ks[i], ks[j]))
    idx = list(range(len(items)))
    cmp_ = lambda i, j: -1 if lt(i, j) else (1 if lt(j, i) else 0)
    if reverse:
      idx.sort(key=functools.cmp_to_key(lambda i, j: cmp_(j, i)))
    else:
      idx.sort(key=functools.cmp_to_key(cmp_))
    return [items[i] for i in idx]

  def _make_builtins(self):
    I = self
    b = {}

    def reg(name, fn):
      b[name] = Native(fn, name)

    def num_ctor(x=0, *a):
      if isinstance(x, AArray):
        if d.symbolic(x):
          ctx().event('concretize', 'float()/int() of an array value')
        if x.size == 1:
          e = d.to_v(x.data.reshape(-1)[0])
          if e.is_exact() and e.ex.is_const():
            return e.ex.const_value()
        if x.size != 1:
          raise TypeError('only arrays with one element can be converted to numbers')
        raise Unsupported('conversion of an abstract array to a number')
      if isinstance(x, str):
        return Fraction(x) if x not in ('inf', '-inf', 'nan') else float(x)
      if isinstance(x, IInst):
        return I.call(I.getattr(x, '__float__'), [], {})
      return x

    def float_(x=0):
      r = num_ctor(x)
      if isinstance(r, float):
        return r
      if isinstance(r, (int, Fraction)):
        return Fraction(r)
      raise TypeError('float() argument')

    def int_(x=0, *a):
      if isinstance(x, str):
        return int(x, *a)
      r = num_ctor(x)
      if isinstance(r, float):
        raise OverflowError('int of inf')
      return int(r)

    def len_(x):
      if isinstance(x, AArray):
        if x.ndim == 0:
          raise TypeError('len() of unsized object')
        return x.shape[0]
      if isinstance(x, IInst):
        return I.call(I.getattr(x, '__len__'), [], {})
      if isinstance(x, (IFunc, V, B)):
        raise TypeError('no len()')
      if hasattr(x, 'model_len'):
        return x.model_len()
      return len(x)

    def seq(x=()):
      return list(I.iterate(x))

    def minmax(is_max):
      def f(*args, key=None, **kw):
        items = list(I.iterate(args[0])) if len(args) == 1 else list(args)
        if not items:
          if 'default' in kw:
            return kw['default']
          raise ValueError('empty sequence')
        best = items[0]
        kf = (lambda x: x) if key is None else (lambda x: I.call(key, [x], {}))
        bk = kf(best)
        for x in items[1:]:
          k = kf(x)
          c = I.compare_op(ast.Gt if is_max else ast.Lt, k, bk)
          if I.truth(c):
            best, bk = x, k
        return best
      return f

    def sum_(it, start=0):
      tot = start
      for x in I.iterate(it):
        tot = I.binop(ast.Add, tot, x)
      return tot

    def abs_(x):
      if isinstance(x, AArray):
        return d.ew(lambda e: d.v_abs(d.to_v(e)), x)
      return abs(x)

    def zip_(*its, strict=False):
      ls = [list(I.iterate(i)) for i in its]
      if strict and len({len(l) for l in ls}) > 1:
        raise ValueError('zip() argument lengths differ')
      return iter(list(zip(*ls)))

    def next_(it, *dflt):
      try:
        return next(it)
      except StopIteration:
        if dflt:
          return dflt[0]
        raise

    def getattr_(o, name, *dflt):
      return I.getattr(o, name, *(dflt if dflt else ()))

    def hasattr_(o, name):
      return I._getattr(o, name) is not _MISSING

    def setattr_(o, n, v):
      I.setattr(o, n, v)

    def type_(o):
      if isinstance(o, IInst):
        return o.cls
      for t in ('bool', 'int', 'float', 'str', 'tuple', 'list', 'dict', 'set'):
        if b[t].check(o):
          return b[t]
      if isinstance(o, BaseException):
        return type(o)
      raise Unsupported('type()')

    def all_(it):
      for x in I.iterate(it):
        if not I.truth(x):
          return False
      return True

    def any_(it):
      for x in I.iterate(it):
        if I.truth(x):
          return True
      return False

    def map_(f, *its):
      ls = [I.iterate(i) for i in its]
      return iter([I.call(f, list(xs), {}) for xs in zip(*ls)])

    def filter_(f, it):
      return iter([x for x in I.iterate(it)
                   if I.truth(x if f is None else I.call(f, [x], {}))])

    def dict_(*a, **kw):
      if a:
        src = a[0]
        if isinstance(src, dict):
          r = dict(src)
        else:
          r = {}
          for kv in I.iterate(src):
            k, v = I.iterate(kv)
            r[k] = v
      else:
        r = {}
      r.update(kw)
      return r

    def callable_(x):
      return isinstance(x, (IFunc, IBound, Native, IPartial, IClass, BType)) or (
          isinstance(x, IInst) and x.cls.lookup('__call__') is not _MISSING) or (
              hasattr(x, 'model_call'))

    def pow_(a, n, *m):
      return I.binop(ast.Pow, a, n)

    def round_(x, *n):
      return round(x, *n)

    def range_(*a):
      return range(*[operator.index(x) if not isinstance(x, AArray) else
                     (_ for _ in ()).throw(TypeError('array in range()'))
                     for x in a])

    def print_(*a, **k):
      ctx().event('io', 'print')

    def bool_(x=False):
      return I.truth(x)

    def hash_(x):
      if isinstance(x, AArray):
        raise TypeError('unhashable type: array')
      return hash(x)

    def isinst(v, t):
      return I.isinstance_(v, t)

    def issub(c, t):
      if isinstance(c, IClass) and isinstance(t, IClass):
        return c.subclass_of(t)
      raise Unsupported('issubclass')

    b['int'] = BType('int', lambda v: isinstance(v, int), int_)
    b['bool'] = BType('bool', lambda v: isinstance(v, bool), bool_)
    b['float'] = BType('float', _is_float, float_)
    b['complex'] = BType('complex', lambda v: False, None)
    b['str'] = BType('str', lambda v: isinstance(v, str), lambda x='': I.to_str(x))
    b['bytes'] = BType('bytes', lambda v: isinstance(v, bytes), None)
    b['tuple'] = BType('tuple', lambda v: isinstance(v, tuple), lambda x=(): tuple(seq(x)))
    b['list'] = BType('list', lambda v: isinstance(v, list), seq)
    b['dict'] = BType('dict', lambda v: isinstance(v, dict), dict_)
    b['set'] = BType('set', lambda v: isinstance(v, set), lambda x=(): set(seq(x)))
    b['frozenset'] = BType('frozenset', lambda v: isinstance(v, frozenset),
                           lambda x=(): frozenset(seq(x)))
    b['slice'] = BType('slice', lambda v: isinstance(v, slice), slice)
    b['object'] = BType('object', lambda v: True, lambda: object())
    b['range'] = BType('range', lambda v: isinstance(v, range), range_)
    b['type'] = BType('type', lambda v: isinstance(v, (IClass, BType, type)), type_)
    b['property'] = BType('property', lambda v: isinstance(v, Property), Property)
    b['staticmethod'] = BType('staticmethod', lambda v: False, StaticM)
    b['classmethod'] = BType('classmethod', lambda v: False, ClassM)
    for n, f in dict(len=len_, min=minmax(False), max=minmax(True), sum=sum_,
                     abs=abs_, zip=zip_, next=next_, getattr=getattr_,
                     hasattr=hasattr_, setattr=setattr_, all=all_, any=any_,
                     map=map_, filter=filter_, callable=callable_, pow=pow_,
                     round=round_, print=print_, hash=hash_, isinstance=isinst,
                     issubclass=issub, super=lambda *a: None,
                     sorted=lambda it, **k: I.sorted_(it, **k),
                     reversed=lambda x: iter(list(I.iterate(x))[::-1]),
                     enumerate=lambda it, start=0: iter(
                         list(enumerate(I.iterate(it), start))),
                     iter=lambda x: iter(I.iterate(x)), id=id, ord=ord, chr=chr,
                     repr=lambda x: I.to_str(x), divmod=divmod,
                     ).items():
      reg(n, f)
    for n in dir(_bi):
      o = getattr(_bi, n)
      if isinstance(o, type) and issubclass(o, BaseException):
        b[n] = o
    b['NotImplemented'] = NotImplemented
    b['Ellipsis'] = Ellipsis
    b['None'] = None
    b['__name__'] = '__main__'
    return b


def _wrapiter(it):
  """Turns exceptions raised while iterating native iterators into PyExc."""
  while True:
    try:
      v = next(it)
    except StopIteration:
      return
    except RuntimeError as e:
      if isinstance(e.__cause__, StopIteration):
        return
      raise
    yield v


class AnchorMissing(Exception):
  """A named anchor of a property no longer exists: the analysis is broken."""


class DType:
  """Modelled dtype."""
  KINDS = {'f': 'float', 'i': 'int', 'b': 'bool'}

  def __init__(self, kind):
    self.kind = kind

  def __eq__(self, o):
    return isinstance(o, DType) and o.kind == self.kind

  def __hash__(self):
    return hash(('dtype', self.kind))

  def __repr__(self):
    return f'dtype({self.kind})'

  def model_getattr(self, name):
    if name == 'kind':
      return self.kind
    if name == 'name':
      return DType.KINDS[self.kind]
    if name == 'type':
      return self
    return NotImplemented


class AvalOf:
  def __init__(self, a):
    self.a = a

  def model_getattr(self, name):
    if name == 'shape':
      return self.a.shape
    if name == 'dtype':
      return DType(self.a.dtype)
    if name == 'ndim':
      return self.a.ndim
    return NotImplemented


class DCField:
  def __init__(self, default=_MISSING, factory=None):
    self.default = default
    self.factory = factory


def _scan(node):
  """Local names and generator-ness of a function node."""
  locals_ = set()
  isgen = False
  a = node.args
  for x in a.posonlyargs + a.args + a.kwonlyargs:
    locals_.add(x.arg)
  if a.vararg:
    locals_.add(a.vararg.arg)
  if a.kwarg:
    locals_.add(a.kwarg.arg)
  if isinstance(node, ast.Lambda):
    return locals_, False

  def visit(n):
    nonlocal isgen
    for c in ast.iter_child_nodes(n):
      if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        locals_.add(c.name)
        continue
      if isinstance(c, ast.Lambda):
        continue
      if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp,
                        ast.GeneratorExp)):
        for w in ast.walk(c):
          if isinstance(w, ast.NamedExpr):
            locals_.add(w.target.id)
        continue
      if isinstance(c, (ast.Yield, ast.YieldFrom)):
        isgen = True
      if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
        locals_.add(c.id)
      if isinstance(c, ast.ExceptHandler) and c.name:
        locals_.add(c.name)
      if isinstance(c, (ast.Import, ast.ImportFrom)):
        for al in c.names:
          locals_.add((al.asname or al.name).split('.')[0])
      if isinstance(c, ast.MatchAs) and c.name:
        locals_.add(c.name)
      visit(c)
  for st in node.body:
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
      locals_.add(st.name)
    else:
      wrapper = ast.Module([st], [])
      visit(wrapper)
  return locals_, isgen
