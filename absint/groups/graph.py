"""Obligations about graph_editor and jax.jaxpr_editor.

Graphs are abstract: an operation is an uninterpreted function symbol and only
the equality pattern of the variables matters, so one abstract graph stands for
every graph with the same shape and equality pattern.  The meaning of a graph
is the tuple of (Herbrand) terms of its outputs; a replacement is interpreted so
that it computes the terms of its pattern.
"""

import itertools
import random

import numpy as np

from .. import jaxmodel as jm
from ..core import (Violation, atoms_array, check, core_interp, expect_raises, new_ctx,
                    soft)
from ..domain import AArray, Unsupported, V, ctx
from ..interp import Native, PyExc
from fractions import Fraction

_check = check

GE = 'autobound.graph_editor'
JE = 'autobound.jax.jaxpr_editor'


def partitions(n):
  """Equality patterns of n slots (restricted growth strings)."""
  def rec(pre, m):
    if len(pre) == n:
      yield tuple(pre)
      return
    for k in range(m + 1):
      yield from rec(pre + [k], max(m, k + 1))
  yield from rec([], 0)


class GW:
  def __init__(self, report, extra=None):
    self.ip = core_interp(extra)
    report.interps.append(self.ip)

  def op(self, data, ins, outs, kind=list):
    return self.ip.call(self.ip.mod_attr(GE, 'Operation'),
                        [data, kind(ins), kind(outs)], {})

  def graph(self, ins, outs, ops, data=None):
    return self.ip.call(self.ip.mod_attr(GE, 'ComputationGraph'),
                        [ins, outs, ops, data], {})

  def read_op(self, o):
    g = self.ip.getattr
    return (g(o, 'data'), tuple(self.ip.iterate(g(o, 'inputs'))),
            tuple(self.ip.iterate(g(o, 'outputs'))))

  def fn(self, name):
    return self.ip.mod_attr(GE, name)


def mk_ops(gw, struct, labels, names, kind=list):
  ops, raw, k = [], [], 0
  for (i, o), lab in zip(struct, labels):
    a, b = names[k:k + i], names[k + i:k + i + o]
    k += i + o
    ops.append(gw.op(lab, a, b, kind))
    raw.append((lab, tuple(a), tuple(b)))
  return ops, raw


def oracle_match(p, s, can_bind):
  if len(p) != len(s):
    return None
  m = {}
  for (d0, i0, o0), (d1, i1, o1) in zip(p, s):
    if d0 != d1 or len(i0) != len(i1) or len(o0) != len(o1):
      return None
    for u, v in zip(i0 + o0, i1 + o1):
      if u in m and m[u] != v or not can_bind(u, v):
        return None
      m[u] = v
  return m


STRUCTS = [(), ((1, 1),), ((2, 1),), ((0, 1),), ((1, 2),), ((1, 0),),
           ((1, 1), (1, 1)), ((2, 1), (1, 1)), ((1, 1), (2, 1)), ((0, 1), (1, 1)),
           ((0, 1), (0, 1), (2, 1))]


def binders():
  yield 'any', lambda u, v: True
  yield 'parity', lambda u, v: (int(u[1:]) + int(v[1:])) % 2 == 0
  yield 'constants', lambda u, v: u != 'p0' or v == 's1'


def match_group(report):
  G = 'gr.match'
  gw = GW(report)
  at = 'graph_editor.match'
  f = gw.fn('match')

  def run(p, praw, s, sraw, bname, bind):
    def nb(u, v):
      if bname == 'odd names':
        return True
      if not (isinstance(u, str) and u[0] == 'p' and v[0] == 's'):
        raise Violation('can_bind is not called with (pattern variable, subject '
                        'variable)')
      return bind(u, v)
    got = gw.ip.call(f, [p, s, Native(nb)], {})
    want = oracle_match(praw, sraw, bind)
    if got is not None and not isinstance(got, dict):
      raise Violation('match() returns neither a dict nor None')
    if (got is None) != (want is None):
      raise Violation(f'match of {praw} with {sraw} (can_bind: {bname}) gives {got}; '
                      f'expected {want}')
    if got is not None and dict(got) != want:
      raise Violation(f'match of {praw} with {sraw} gives mapping {got}')
  for sp in STRUCTS:
    np_ = sum(i + o for i, o in sp)
    labs = list(itertools.product('fg', repeat=len(sp)))
    for bname, bind in binders():
      if np_ >= 5 and bname != 'any' and report.tier == 'quick':
        continue
      def same(c, sp=sp, np_=np_, bind=bind, bname=bname, labs=labs):
        parts = list(partitions(np_))
        if np_ >= 5 and report.tier == 'quick':
          parts = [q for q in parts if len(set(q)) >= 3]
          parts = parts[::3]
        for pp in parts:
          pn = [f'p{k}' for k in pp]
          p, praw = mk_ops(gw, sp, labs[0], pn)
          for ss in parts:
            sn = [f's{k}' for k in ss]
            s, sraw = mk_ops(gw, sp, labs[0], sn)
            run(p, praw, s, sraw, bname, bind)
      check(report, G, 'G-match', at, f'shape {sp}, every equality pattern, can_bind '
            f'{bname}', same, gw.ip)
    def odd(c, sp=sp, np_=np_, labs=labs):
      # variables may be any hashable values, false ones included
      if np_ > 4 and report.tier == 'quick':
        return
      for pool in ((0, '', (), frozenset()), (1, 'a', ('a',), 0)):
        parts = [q for q in partitions(np_) if not q or max(q) < len(pool)]
        for pp in parts:
          p, praw = mk_ops(gw, sp, labs[0], [pool[k] for k in pp])
          for ss in parts:
            s, sraw = mk_ops(gw, sp, labs[0], [pool[-1 - k] for k in ss])
            run(p, praw, s, sraw, 'odd names', lambda u, v: True)
    check(report, G, 'G-match', at, f'shape {sp}, variables of any kind', odd, gw.ip)
    def labels(c, sp=sp, np_=np_, labs=labs):
      names = [f'p{k}' for k in range(np_)]
      sn = [f's{k}' for k in range(np_)]
      for a in labs:
        for b in labs:
          p, praw = mk_ops(gw, sp, a, names)
          s, sraw = mk_ops(gw, sp, b, sn, tuple)
          run(p, praw, s, sraw, 'any', lambda u, v: True)
    check(report, G, 'G-match', at, f'shape {sp}, labels', labels, gw.ip)
    def odd_labels(c, sp=sp, np_=np_):
      # labels may be anything that can be compared, false values included
      names = [f'p{k}' for k in range(np_)]
      sn = [f's{k}' for k in range(np_)]
      pool = (None, 0, '', 'f', ('f', None), ())
      for a in itertools.product(pool, repeat=len(sp)):
        for b in itertools.product(pool, repeat=len(sp)):
          if len(sp) > 2 and (len(set(a)) > 2 or len(set(b)) > 2):
            continue
          p, praw = mk_ops(gw, sp, a, names)
          s, sraw = mk_ops(gw, sp, b, sn, tuple)
          run(p, praw, s, sraw, 'any', lambda u, v: True)
    check(report, G, 'G-match', at, f'shape {sp}, labels of any kind', odd_labels, gw.ip)
    def shapes(c, sp=sp, np_=np_):
      for sq in STRUCTS:
        if sq == sp:
          continue
        nq = sum(i + o for i, o in sq)
        p, praw = mk_ops(gw, sp, 'f' * len(sp), [f'p{k}' for k in range(np_)])
        s, sraw = mk_ops(gw, sq, 'f' * len(sq), [f's{k}' for k in range(nq)])
        run(p, praw, s, sraw, 'any', lambda u, v: True)
    check(report, G, 'G-match', at, f'shape {sp}, other shapes', shapes, gw.ip)


# -- replace -------------------------------------------------------------------------


def term_eval(ops, env, interp):
  """Herbrand evaluation; interp: label -> fn(terms) -> tuple of terms."""
  env = dict(env)
  for lab, ins, outs in ops:
    vals = []
    for u in ins:
      if u not in env:
        raise Violation(f'operation {lab} uses {u}, which is not defined before it')
      vals.append(env[u])
    res = interp[lab](*vals) if lab in interp else tuple(
        (lab, k) + tuple(vals) for k in range(len(outs)))
    if len(res) != len(outs):
      raise Unsupported('interpretation of a replacement operation')
    for v, r in zip(outs, res):
      env[v] = r
  return env


T = lambda lab, *a, k=0: (lab, k) + a

# (name, pattern, replacement, interpretation of the new labels)
RULES = [
    ('one for one', [('f', 'a', 'o')], [('F', 'a', 'o')],
     {'F': lambda a: (T('f', a),)}),
    ('chain', [('f', 'a', 't'), ('g', 't', 'o')], [('F', 'a', 'o')],
     {'F': lambda a: (T('g', T('f', a)),)}),
    ('to a chain', [('f', 'a', 'o')], [('F', 'a', 'u'), ('G', 'u', 'o')],
     {'F': lambda a: (('half', a),), 'G': lambda u: (T('f', u[1]),)}),
    ('chain to a chain', [('f', 'a', 't'), ('f', 't', 'o')],
     [('F', 'a', 'u'), ('G', 'u', 'o')],
     {'F': lambda a: (('half', a),), 'G': lambda u: (T('f', T('f', u[1])),)}),
    ('repeated input', [('f', 'a', 't'), ('g', 'at', 'o')], [('F', 'a', 'o')],
     {'F': lambda a: (T('g', a, T('f', a)),)}),
    ('two inputs', [('f', 'a', 't'), ('g', 'tb', 'o')], [('F', 'ab', 'o')],
     {'F': lambda a, b: (T('g', T('f', a), b),)}),
    ('swapped inputs', [('g', 'ab', 'o')], [('F', 'ba', 'o')],
     {'F': lambda b, a: (T('g', a, b),)}),
    ('two outputs', [('f', 'a', 'o'), ('g', 'ob', 'q')], [('F', 'ab', 'oq')],
     {'F': lambda a, b: (T('f', a), T('g', T('f', a), b))}),
    ('removes an operation', [('f', 'a', 't'), ('g', 'ab', 'o')], [('F', 'ab', 'o')],
     {'F': lambda a, b: (T('g', a, b),)}),
    ('keeps the operation', [('f', 'a', 'o')], [('f', 'a', 'o')], {}),
    ('renamed intermediate', [('f', 'a', 't'), ('g', 'tb', 'o')],
     [('f', 'a', 'u'), ('G', 'ub', 'o')], {'G': lambda u, b: (T('g', u, b),)}),
    ('to three operations', [('f', 'a', 't'), ('g', 'tb', 'o')],
     [('F', 'ab', 'u'), ('G', 'u', 'w'), ('H', 'uw', 'o')],
     {'F': lambda a, b: (('pair', a, b),), 'G': lambda u: (('half',) + u,),
      'H': lambda u, w: (T('g', T('f', u[1]), u[2]) if w == ('half',) + u else ('bad',),)}),
    ('to four operations', [('f', 'a', 'o')],
     [('F', 'a', 'u'), ('G', 'ua', 'w'), ('H', 'w', 's'), ('K', 'sua', 'o')],
     {'F': lambda a: (('one', a),), 'G': lambda u, a: (('two', u, a),),
      'H': lambda w: (('three', w),),
      'K': lambda s, u, a: (T('f', a) if s == ('three', ('two', ('one', a), a)) and
                            u == ('one', a) else ('bad',),)}),
    ('two intermediates', [('f', 'a', 't'), ('g', 'tb', 'o')],
     [('F', 'b', 'u'), ('G', 'a', 'w'), ('H', 'wu', 'o')],
     {'F': lambda b: (('of b', b),), 'G': lambda a: (('of a', a),),
      'H': lambda w, u: (T('g', T('f', w[1]), u[1]) if w[0] == 'of a' else ('bad',),)}),
]


def rule_vars(rule):
  return {v: f'p_{v}' for _, i, o in rule[1] + rule[2] for v in i + o}


def inputs_defined(pat, rep, m):
  """No replacement operation reads a variable of the occurrence before it is set."""
  mine = {m[v] for _, _, o in pat for v in o}
  for _, ins, outs in rep:
    if any(m.get(u, u) in mine for u in ins):
      return False
    mine -= {m.get(v, v) for v in outs}
  return True


def subjects():
  """(inputs, ops, outputs) over unary f, binary g and binary/unary h."""
  X = ['x', 'y']
  out = []
  shapes = [('f',), ('g',), ('f', 'f'), ('f', 'g'), ('g', 'f'), ('f', 'h'), ('h', 'f', 'g'),
            ('f', 'f', 'f'), ('f', 'g', 'f'), ('f', 'f', 'g'), ('f', 'g', 'g'),
            ('g', 'g', 'f')]
  ar = {'f': 1, 'g': 2, 'h': 1}
  for sh in shapes:
    def rec(k, ops):
      if k == len(sh):
        yield list(ops)
        return
      avail = X + [f'v{j}' for j in range(k)]
      for ins in itertools.product(avail, repeat=ar[sh[k]]):
        yield from rec(k + 1, ops + [(sh[k], tuple(ins), (f'v{k}',))])
    for ops in rec(0, []):
      if len(sh) == 3:
        # the last operation must use an intermediate, y only in second place
        if not any(u.startswith('v') for u in ops[2][1]) or ops[0][1][0] != 'x':
          continue
      out.append(ops)
  return X, out


def mid_of(first, mid, start):
  """The chain `mid` fed by `start`."""
  return [(mid[0][0], (start,), mid[0][2])] + list(mid[1:])


def replace_group(report):
  G = 'gr.replace'
  gw = GW(report)
  at = 'graph_editor.replace'
  f = gw.fn('replace')
  X, subs = subjects()

  def run(rule, X, ops, outs, strict=True, kind=list, odd=False):
    name, pat, rep, interp = rule
    nm = rule_vars(rule)
    if odd:
      # variables may be any hashable values, false ones included
      pool = [0, '', (), frozenset(), b'', 1, 'a', ('a',), 2, 'b']
      nu = dict(zip(sorted({u for o in ops for u in o[1] + o[2]} | set(X) | set(outs)),
                    pool))
      X = [nu[v] for v in X]
      outs = [nu[v] for v in outs]
      ops = [(l, tuple(nu[u] for u in a), tuple(nu[u] for u in b_)) for l, a, b_ in ops]
      pool2 = [(), 0, frozenset(), '', 1.5, b'', 'z']
      nm = dict(zip(sorted(nm), pool2))
    P = [gw.op(l, [nm[v] for v in i], [nm[v] for v in o], kind) for l, i, o in pat]
    R = [gw.op(l, [nm[v] for v in i], [nm[v] for v in o], kind) for l, i, o in rep]
    praw = [(l, tuple(nm[v] for v in i), tuple(nm[v] for v in o)) for l, i, o in pat]
    S = [gw.op(l, i, o, kind) for l, i, o in ops]
    data = ('side data',)
    g = gw.graph(kind(X), kind(outs), S, data)
    what = f'{name}: subject {ops} -> {outs}'
    res = gw.ip.call(f, [P, R, g, Native(lambda u, v: True)], {})
    ga = gw.ip.getattr
    new = [gw.read_op(o) for o in gw.ip.iterate(ga(res, 'operations'))]
    if [gw.read_op(o) for o in S] != [(l, tuple(i), tuple(o)) for l, i, o in ops] or (
        [gw.read_op(o) for o in gw.ip.iterate(ga(g, 'operations'))] !=
        [gw.read_op(o) for o in S]):
      raise Violation(f'{what}: the subject is modified')
    if [gw.read_op(o) for o in P] != praw:
      raise Violation(f'{what}: the pattern is modified')
    if list(gw.ip.iterate(ga(res, 'inputs'))) != list(X):
      raise Violation(f'{what}: the inputs of the graph change')
    if ga(res, 'data') is not data:
      raise Violation(f'{what}: the data of the graph is lost')
    ro = list(gw.ip.iterate(ga(res, 'outputs')))
    if len(ro) != len(outs):
      raise Violation(f'{what}: the number of outputs changes')
    env0 = {x: ('in', x) for x in X}
    want = term_eval(ops, env0, {})
    got = term_eval(new, env0, interp)
    for a, b in zip(ro, outs):
      if a not in got:
        raise Violation(f'{what}: output {a} of the result is not defined')
      if got[a] != want[b]:
        raise Violation(f'{what}: output {b} computes another value: {got[a]} instead '
                        f'of {want[b]}')
    if not strict:
      return
    # completeness: greedy replacement of contiguous occurrences whose discarded
    # results are not used elsewhere
    k, i, n, wantn = len(pat), 0, 0, []
    rraw = [(l, tuple(nm[v] for v in i), tuple(nm[v] for v in o)) for l, i, o in rep]
    kept = {nm[v] for _, _, o in rep for v in o}
    while i < len(ops):
      m = oracle_match(praw, [(l, tuple(a), tuple(b)) for l, a, b in ops[i:i + k]],
                       lambda u, v: True)
      used = set(outs) | {u for o in ops[:i] + ops[i + k:] for u in o[1]}
      if m is not None and not inputs_defined(praw, rraw, m):
        m = None
      if m is not None and not any(m[v] in used for _, _, o in praw for v in o
                                   if v not in kept):
        n += 1
        wantn += [l for l, _, _ in rep]
        i += k
      else:
        wantn.append(ops[i][0])
        i += 1
    if sorted(map(str, (l for l, _, _ in new))) != sorted(wantn):
      soft('complete', f'{what}: the operations of the result are '
           f'{[l for l, _, _ in new]}; every separate occurrence of the pattern should '
           f'be replaced ({wantn})')
  for rule in RULES:
    def go(c, rule=rule):
      for ops in subs:
        run(rule, X, ops, [ops[-1][2][0]])
    check(report, G, 'G-replace', at, f'{rule[0]}: last result is the output', go, gw.ip)
    def go2(c, rule=rule):
      for ops in subs:
        if len(ops) > 2 and report.tier == 'quick' and len(ops[1][1]) > 1 and (
            len(ops[2][1]) > 1):
          continue
        run(rule, X, ops, [o[2][0] for o in ops])
        run(rule, X, ops, [ops[0][2][0], 'x'], kind=tuple)
    check(report, G, 'G-replace', at, f'{rule[0]}: intermediate results are outputs', go2,
          gw.ip)
    def odd(c, rule=rule):
      for ops in subs[::3]:
        if len({u for o in ops for u in o[1] + o[2]} | set(X)) > 10:
          continue
        if any(v not in {u for o in rule[1] for u in o[1] + o[2]}
               for o in rule[2] for v in o[1] + o[2]):
          return        # its own intermediate variable could be a subject variable
        run(rule, X, ops, [ops[-1][2][0]], odd=True)
    check(report, G, 'G-replace', at, f'{rule[0]}: variables of any kind', odd, gw.ip)
    def many(c, rule=rule):
      name, pat, rep, interp = rule
      n = 3
      ops, prev = [], 'x'
      for r in range(n):
        loc = {'a': prev, 'b': 'y'}
        for l, i, o in pat:
          for v in o:
            loc[v] = f'{v}{r}'
          ops.append((l, tuple(loc[v] for v in i), tuple(loc[v] for v in o)))
        prev = loc['o']
      run(rule, X, ops, [prev])
      run(rule, X, ops + [('h', (prev,), ('end',))], ['end'])
      run(rule, X, [('h', ('x',), ('x2',))] + [
          (l, tuple('x2' if v == 'x' else v for v in i), o) for l, i, o in ops],
          [prev, 'x2'])
      for j in range(1, len(ops)):
        ops2 = ops[:j] + [('h', ('y',), ('mid',))] + ops[j:] + [
            ('g', (prev, 'mid'), ('end',))]
        run(rule, X, ops2, ['end'])
    check(report, G, 'G-replace', at, f'{rule[0]}: several occurrences', many, gw.ip)
    def long(c, rule=rule):
      # occurrences at both ends of a long graph; results of the first occurrence are
      # used, or are results of the graph, only at the very end
      name, pat, rep, interp = rule
      for n in (1, 5, 12, 17, 33, 70):
        def occurrence(r, start):
          loc, ops = {'a': start, 'b': 'y'}, []
          for l, i, o in pat:
            for v in o:
              loc[v] = f'{v}{r}'
            ops.append((l, tuple(loc[v] for v in i), tuple(loc[v] for v in o)))
          return ops, [loc[v] for _, _, o in pat for v in o]
        first, res = occurrence(0, 'x')
        mid, prev = [], res[-1]
        for k in range(n):
          mid.append(('h' if k % 3 else 'k', (prev,), (f'm{k}',)))
          prev = f'm{k}'
        last, res2 = occurrence(1, prev)
        run(rule, X, first + mid + last, [res2[-1]])
        run(rule, X, mid_of(first, mid, 'x') + first + last, [res2[-1], mid[-1][2][0]])
        for v in res:
          run(rule, X, first + mid + last, [res2[-1], v])
          run(rule, X, first + mid + [('k', (prev, v), ('end',))], ['end'])
          run(rule, X, first + mid + last + [('k', (res2[-1], v), ('end',))], ['end'])
          if n > 1:
            run(rule, X, first + mid[:n // 2] + [('k', (v,), ('z',))] + mid[n // 2:] + last,
                [res2[-1]])
    check(report, G, 'G-replace', at, f'{rule[0]}: long graphs', long, gw.ip)
  def none(c):
    run(RULES[1], X, [], ['x'])
    run(RULES[1], X, [('h', ('x',), ('v',))], ['v'])
    run(RULES[0], X, [('f', ('x',), ('v', 'w'))], ['v', 'w'])
    run(RULES[7], X, [('f', ('x',), ('v',)), ('g', ('v', 'x'), ('w',))], ['v', 'w'])
  check(report, G, 'G-replace', at, 'no occurrence', none, gw.ip)
  def empty(c):
    g = gw.graph(['x'], ['v'], [gw.op('f', ['x'], ['v'])])
    try:
      res = gw.ip.call(f, [[], [gw.op('h', ['x'], ['u'])], g, Native(lambda u, v: True)], {})
    except PyExc as e:
      if e.tname() != 'ValueError':
        raise
  steps = gw.ip.max_steps if hasattr(gw.ip, 'max_steps') else None
  def empty_(c):
    try:
      empty(c)
    except Unsupported as e:
      if 'step' in str(e) or 'loop' in str(e) or 'iteration' in str(e):
        raise Violation('replace() with an empty pattern does not terminate')
      raise
  check(report, G, 'G-replace', at, 'empty pattern', empty_, gw.ip)
  def constants(c):
    # can_bind decides which subject constants a pattern constant stands for
    P = [gw.op('f', ['a', 'c1'], ['o'])]
    R = [gw.op('F', ['a'], ['o'])]
    for val, hit in (('c1', True), ('c2', False)):
      g = gw.graph(['x'], ['v'], [gw.op('f', ['x', val], ['v'])])
      res = gw.ip.call(f, [P, R, g, Native(
          lambda u, v: u == v if u[0] == 'c' else v[0] != 'c')], {})
      labs = [gw.read_op(o)[0] for o in gw.ip.iterate(gw.ip.getattr(res, 'operations'))]
      if labs != (['F'] if hit else ['f']):
        raise Violation(f'pattern constant c1 and subject constant {val}: {labs}')
  check(report, G, 'G-replace', at, 'constants', constants, gw.ip)
  def subs_(c):
    o = gw.op('f', ['a', 'b', 'a'], ['o', 'b'])
    r = gw.ip.call(gw.ip.getattr(o, 'subs'), [{'a': 'z', 'b': 'a', 'q': 'r'}], {})
    if gw.read_op(r) != ('f', ('z', 'a', 'z'), ('o', 'a')):
      raise Violation(f'subs gives {gw.read_op(r)}')
    if gw.read_op(o) != ('f', ('a', 'b', 'a'), ('o', 'b')):
      raise Violation('subs modifies its operation')
  check(report, G, 'G-replace', 'graph_editor.Operation.subs', 'substitution is '
        'simultaneous', subs_, gw.ip)
  def intv(c):
    g = gw.graph(['x', 'y'], ['v', 'k'], [gw.op('f', ['x', 'c'], ['v']),
                                         gw.op('g', ['v', 'w'], ['u'])])
    r = gw.ip.call(gw.ip.getattr(g, 'intermediate_variables'), [], {})
    if set(gw.ip.iterate(r)) != set('xyvkcwu'):
      raise Violation(f'intermediate_variables gives {sorted(gw.ip.iterate(r))}')
  check(report, G, 'G-replace', 'graph_editor.ComputationGraph.intermediate_variables',
        'all variables', intv, gw.ip)


# -- jaxprs ---------------------------------------------------------------------------


class EW:
  def __init__(self, report):
    self.P = jm.make_prims()
    # uninterpreted primitives
    self.ip = core_interp(jm.modules(self.P))
    report.interps.append(self.ip)
    self.f = None

  def b(self, n, *a, **k):
    return self.P[n].bind(*a, **k)

  def trace(self, fn, *shapes):
    args = [AArray(np.array([V(jm.rat(1))] * int(np.prod(s, dtype=int)), object).reshape(s))
            if s != () else arr_one() for s in shapes]
    return jm.trace(Native(fn), args)

  def replace(self, pat, rep, sub):
    return self.ip.call(self.ip.mod_attr(JE, 'replace'), [pat, rep, sub], {})


def arr_one():
  from ..core import arr0
  return arr0(1)


def sem(j, consts, args):
  """Terms computed by a Jaxpr: tuples (primitive, params, inputs)."""
  env = {}
  for v, x in list(zip(j.constvars, consts)) + list(zip(j.invars, args)):
    if v in env:
      raise Violation(f'{v} is defined twice')
    env[v] = x
  def rd(v):
    if isinstance(v, jm.JLit):
      return ('lit', repr(v.val.data if isinstance(v.val, AArray) else v.val),
              v.aval.shape, v.aval.dtype)
    if not isinstance(v, jm.JVar):
      raise Violation(f'{v!r} appears in the place of a variable')
    if v not in env:
      raise Violation(f'variable {v} is used before it is defined')
    return env[v]
  for e in j.eqns:
    if not isinstance(e, jm.JEqn):
      raise Violation('an equation of the result is not a JaxprEqn')
    ins = tuple(rd(v) for v in e.invars)
    p = params_key(e.params)
    for k, v in enumerate(e.outvars):
      if not isinstance(v, jm.JVar):
        raise Violation('an output of an equation is not a variable')
      if v in env:
        raise Violation(f'{v} is assigned twice')
      env[v] = meaning(e.primitive, p, ins, k)
  return tuple(rd(v) for v in j.outvars), env


MEAN = {}


def meaning(prim, p, ins, k):
  if prim in MEAN:
    return MEAN[prim](ins, k)
  return (prim.name, id(prim), p, ins, k)


def params_key(params):
  out = []
  for k, v in sorted(params.items()):
    if k in ('jvp_jaxpr_fun',):
      continue
    if isinstance(v, jm.ClosedJaxpr):
      v = ('closed', sem(v.jaxpr, [repr(c.data) for c in v.consts],
                         [('arg', i) for i in range(len(v.jaxpr.invars))])[0])
    elif isinstance(v, jm.Jaxpr):
      v = ('jaxpr', sem(v, [('c', i) for i in range(len(v.constvars))],
                        [('arg', i) for i in range(len(v.invars))])[0])
    else:
      v = repr(v)
    out.append((k, v))
  return tuple(out)


def shapes_of(j):
  return ([v.aval for v in j.invars], [v.aval for v in j.outvars],
          [v.aval for v in j.constvars])


def jaxpr_group(report, G='gr.jaxpr'):
  check = _check if G == 'gr.jaxpr' else lambda *a: None
  w = EW(report)
  P, b = w.P, w.b
  at = 'jaxpr_editor.replace'
  F = Fraction

  def jit(g, *args, name='g', **k):
    return jm.jit_call(P, Native(g), list(args), name, **k)

  def pattern(fn, n=1):
    return w.trace(fn, *[()] * n).jaxpr

  def rule(name, fn, n=1, outs=1):
    """Pattern fn and a replacement primitive that stands for it."""
    p = jm.JPrim(f'new_{name}', jm.ew1('new'), elementwise=True, multiple_results=outs > 1)
    pj = pattern(fn, n)
    p.abstract = Native(lambda *avs: ([avs[0]] * outs if outs > 1 else avs[0]))
    def mean(ins, k, pj=pj):
      return sem(pj, (), ins)[0][k]
    MEAN[p] = mean
    rj = pattern(p.bind, n)
    return pj, rj, p

  def run(pj, rj, cj, what, hits=None, prim=None):
    sub = cj.jaxpr
    before = repr(sub), params_dump(sub)
    res = w.replace(pj, rj, sub)
    if not isinstance(res, jm.Jaxpr):
      raise Violation(f'{what}: the result is not a Jaxpr')
    if (repr(sub), params_dump(sub)) != before:
      raise Violation(f'{what}: the subject is modified')
    if shapes_of(res) != shapes_of(sub):
      raise Violation(f'{what}: shapes or types of inputs, outputs or constants change: '
                      f'{shapes_of(res)} instead of {shapes_of(sub)}')
    consts = [('const', i) for i in range(len(sub.constvars))]
    args = [('in', i) for i in range(len(sub.invars))]
    want, _ = sem(sub, consts, args)
    got, _ = sem(res, consts, args)
    if len(got) != len(want):
      raise Violation(f'{what}: the number of outputs changes')
    for k, (x, y) in enumerate(zip(got, want)):
      if x != y:
        raise Violation(f'{what}: output {k} computes another function')
    for e in res.eqns:
      for v in e.outvars:
        if v.aval is None:
          raise Violation(f'{what}: a variable of the result has no type')
    if hits is not None:
      n = sum(1 for e in res.eqns if e.primitive is prim)
      if n != hits:
        soft('complete', f'{what}: {n} occurrences are replaced instead of {hits}')

  def params_dump(j):
    return [(e.primitive.name, repr(sorted(e.params))) for e in j.eqns]

  rules = {
      'exp': lambda x: b('exp', x, accuracy=None),
      'x*logistic(x)': lambda x: b('mul', x, b('logistic', x, accuracy=None)),
      'exp(exp)': lambda x: b('exp', b('exp', x, accuracy=None), accuracy=None),
      'x+1': lambda x: b('add', x, F(1)),
      'log(x+1)': lambda x: b('log', b('add', x, F(1)), accuracy=None),
      'x**2': lambda x: b('integer_pow', x, y=2),
      'jit': lambda x: jit(lambda a: b('mul', a, b('add', a, F(1))), x)[0],
      'jit of jit': lambda x: jit(lambda a: jit(lambda c: b('exp', c, accuracy=None),
                                                a, name='h')[0], x)[0],
      'jit two outputs': lambda x: jit(lambda a: (a, b('neg', a)), x)[1],
      'custom': lambda x: jm.custom_jvp(P, Native(lambda a: b('mul', a, a)), [x], 'cc')[0],
      'softplus': lambda x: w.ip.models['jax.nn'].attrs['softplus'].fn(x),
      'swish': lambda x: w.ip.models['jax.nn'].attrs['swish'].fn(x),
  }
  exp = rules['exp']
  # subject, and how often each rule applies (None: not required)
  subs = {
      'identity': (lambda x: x, {}),
      'constant': (lambda x: F(2), {}),
      'exp': (exp, {'exp': 1}),
      'exp+x': (lambda x: b('add', exp(x), x), {'exp': 1}),
      'exp exp': (lambda x: exp(exp(x)), {'exp': 2, 'exp(exp)': 1}),
      'exp exp exp': (lambda x: exp(exp(exp(x))), {'exp': 3, 'exp(exp)': 1}),
      'inner exp also used': (lambda x: (lambda e: b('mul', e, exp(e)))(exp(x)), {'exp': 2}),
      'two exps': (lambda x: b('sub', exp(x), exp(b('neg', x))), {'exp': 2}),
      'exp twice': (lambda x: b('sub', exp(x), exp(x)), {'exp': 2}),
      'swish open': (rules['x*logistic(x)'], {'x*logistic(x)': 1}),
      'swish reversed': (lambda x: b('mul', b('logistic', x, accuracy=None), x), {}),
      'swish other': (lambda x: b('mul', exp(x), b('logistic', x, accuracy=None)), {}),
      'swish of sum': (lambda x: rules['x*logistic(x)'](b('add', x, F(1))),
                       {'x*logistic(x)': 1, 'x+1': 1}),
      'logistic kept': (lambda x: (lambda s: b('add', b('mul', x, s), s))(
          b('logistic', x, accuracy=None)), {}),
      'swish twice': (lambda x: rules['x*logistic(x)'](rules['x*logistic(x)'](x)),
                      {'x*logistic(x)': 2}),
      'x+1': (rules['x+1'], {'x+1': 1}),
      'x+2': (lambda x: b('add', x, F(2)), {'x+1': 0}),
      '1+x': (lambda x: b('add', F(1), x), {'x+1': 0}),
      'x+x': (lambda x: b('add', x, x), {'x+1': 0}),
      'x+1+1': (lambda x: b('add', b('add', x, F(1)), F(1)), {'x+1': 2}),
      '1+1': (lambda x: b('add', x, b('add', F(1), F(1))), {}),
      'log1p open': (rules['log(x+1)'], {'log(x+1)': 1, 'x+1': 1}),
      'log of kept sum': (lambda x: (lambda s: b('mul', s, b('log', s, accuracy=None)))(
          b('add', x, F(1))), {'x+1': 1}),
      'log separated': (lambda x: (lambda s: b('sub', b('log', s[0], accuracy=None), s[1]))(
          (b('add', x, F(1)), exp(x))), {'exp': 1, 'x+1': 1}),
      'cube': (lambda x: b('integer_pow', x, y=3), {'x**2': 0}),
      'square': (lambda x: b('integer_pow', x, y=2), {'x**2': 1}),
      'jit same': (rules['jit'], {'jit': 1}),
      'jit other body': (lambda x: jit(lambda a: b('mul', a, b('add', a, F(2))), x)[0],
                         {'jit': 0}),
      'jit other op': (lambda x: jit(lambda a: b('sub', a, b('add', a, F(1))), x)[0],
                       {'jit': 0}),
      'jit other wiring': (lambda x: jit(lambda a: (lambda s: b('mul', s, s))(
          b('add', a, F(1))), x)[0], {'jit': 0}),
      'jit reversed': (lambda x: jit(lambda a: b('mul', b('add', a, F(1)), a), x)[0],
                       {'jit': 0}),
      'jit other output': (lambda x: jit(lambda a: (lambda s: (b('mul', a, s), s)[1])(
          b('add', a, F(1))), x)[0], {'jit': 0}),
      'jit longer': (lambda x: jit(lambda a: exp(b('mul', a, b('add', a, F(1)))), x)[0],
                     {'jit': 0}),
      'jit shorter': (lambda x: jit(lambda a: b('mul', a, F(1)), x)[0], {'jit': 0}),
      'jit returns argument': (lambda x: jit(lambda a: a, x)[0], {'jit': 0}),
      'jit returns literal': (lambda x: b('add', x, jit(lambda a: F(1), x)[0]), {'jit': 0}),
      'jit other name': (lambda x: jit(lambda a: b('mul', a, b('add', a, F(1))), x,
                                       name='other')[0], {}),
      'jit twice': (lambda x: b('add', rules['jit'](x), rules['jit'](b('neg', x))),
                    {'jit': 2}),
      'jit nested': (rules['jit of jit'], {'jit of jit': 1}),
      'jit nested other': (lambda x: jit(lambda a: jit(lambda c: b('log', c, accuracy=None),
                                                       a, name='h')[0], x)[0], {}),
      'jit out': (lambda x: jit(lambda a: (a, b('neg', a)), x)[1], {}),
      'jit out swapped': (lambda x: jit(lambda a: (b('neg', a), a), x)[1], {}),
      'jit out both': (lambda x: b('mul', *jit(lambda a: (a, b('neg', a)), x)), {}),
      'custom': (rules['custom'], {'custom': 1}),
      'custom other': (lambda x: jm.custom_jvp(P, Native(lambda a: b('add', a, a)), [x],
                                               'cc')[0], {'custom': 0}),
      'custom other name': (lambda x: jm.custom_jvp(P, Native(lambda a: b('mul', a, a)),
                                                    [x], 'dd')[0], {'custom': 0}),
      'softplus': (rules['softplus'], {'softplus': 1}),
      'softplus lookalike': (lambda x: jit(lambda a: jm.custom_jvp(
          P, Native(lambda u, v: b('max', u, v)), [a, F(0)], 'logaddexp')[0], x,
          name='softplus')[0], {'softplus': 0}),
      'logaddexp 1': (lambda x: jit(lambda a: jm.custom_jvp(
          P, w_body(w), [a, F(1)], 'logaddexp')[0], x, name='softplus')[0],
                      {'softplus': 0}),
      'swish': (rules['swish'], {'swish': 1}),
      'swish lookalike': (lambda x: jit(lambda a: b('mul', a, exp(a)), x, name='silu')[0],
                          {'swish': 0}),
      'swish chain': (lambda x: rules['swish'](rules['softplus'](rules['swish'](x))),
                      {'swish': 2, 'softplus': 1}),
  }
  for rn, rf in rules.items():
    for sn, (sf, want) in subs.items():
      for shp in ((), (2,)):
        if shp and rn in ('jit two outputs', 'exp(exp)', 'log(x+1)') and (
            report.tier == 'quick'):
          continue
        def go(c, rn=rn, rf=rf, sn=sn, sf=sf, want=want, shp=shp):
          pj, rj, p = rule('r', rf)
          cj = w.trace(sf, shp)
          try:
            run(pj, rj, cj, f'{rn} in {sn} {shp}', want.get(rn), p)
          finally:
            MEAN.pop(p, None)
        check(report, G, 'G-jaxpr', at, f'{rn} in {sn} {shp}', go, w.ip)

  # constants, several arguments and results, replacement with several equations
  def k2():
    if 'k2' not in ctx().hooks:
      ctx().hooks['k2'] = tuple(atoms_array(n, (2,))[0] for n in 'kqrst')
    return ctx().hooks['k2']
  def multi(name, pat, rep, sub, shapes, hits=None, n=1, means=None):
    def go(c):
      MEAN.clear()
      means_ = means() if means else {}
      MEAN.update(means_)
      try:
        pj, rj = pattern(pat, n), pattern(rep, n)
        cj = w.trace(sub, *shapes)
        prim = next(iter(means_), None)
        run(pj, rj, cj, name, hits, prim)
      finally:
        MEAN.clear()
    check(report, G, 'G-jaxpr', at, name, go, w.ip)
  multi('closure constants', exp, exp, lambda x: b('add', b('mul', x, k2()[0]), exp(
      b('sub', x, k2()[1]))), ((2,),))
  multi('closure constant shared', exp, exp, lambda x: b('add', b('mul', x, k2()[0]), exp(
      b('sub', k2()[0], x))), ((2,),))
  multi('constants swapped', exp, exp, lambda x: b('sub', b('sub', k2()[1], x),
                                                   exp(k2()[0])), ((2,),))
  multi('two arguments', exp, exp, lambda x, y: b('sub', exp(y), b('mul', x, y)),
        ((), (2,)))
  multi('two results', exp, exp, lambda x: (exp(x), x, b('neg', exp(x)), F(3)), ((2,),))
  multi('result twice', exp, exp, lambda x: (lambda e: (e, e))(exp(x)), ((),))
  h1 = jm.JPrim('half', elementwise=True)
  h2 = jm.JPrim('other_half', elementwise=True)
  def chain_means():
    return {h1: lambda ins, k: ('H', ins),
            h2: lambda ins, k: ('exp', id(P['exp']), params_key({'accuracy': None}),
                                ins[0][1], 0)}
  chain = lambda x: h2.bind(h1.bind(x))
  for nm, sf in {
      'one': exp, 'two': lambda x: b('add', exp(x), exp(b('neg', x))),
      'nested': lambda x: exp(exp(exp(x))),
      'with later uses': lambda x: (lambda e, q: b('add', b('mul', e, q), b('neg', e)))(
          exp(x), exp(b('neg', x))),
      'many variables': lambda x: b('add', exp(b('neg', b('neg', b('neg', x)))), exp(
          b('sub', x, F(1)))),
      'before other equations': lambda x: b('neg', b('add', b('neg', exp(x)), b('mul', x, x))),
      'both results': lambda x: (exp(x), exp(exp(x)), x)}.items():
    for shp in ((), (2,)):
      multi(f'replacement with intermediate results: {nm} {shp}', exp, chain, sf, (shp,),
            means=chain_means)
  # pattern and subject with clashing variable counts
  for off in (0, 1, 3, 7):
    def clash(c, off=off):
      MEAN.clear()
      MEAN.update(chain_means())
      pj, rj = pattern(exp), pattern(chain)
      cj = w.trace(lambda x: b('sub', exp(b('neg', x)), b('mul', exp(x), x)), (2,))
      def renumber(j, base):
        vs = []
        for v in list(j.invars) + list(j.constvars) + [
            v for e in j.eqns for v in e.outvars]:
          if v not in vs:
            vs.append(v)
        for i, v in enumerate(vs):
          v.count = base + i
      renumber(pj, 0)
      renumber(rj, off)
      renumber(cj.jaxpr, 0)
      try:
        run(pj, rj, cj, 'variables with equal numbers')
      finally:
        MEAN.clear()
    check(report, G, 'G-jaxpr', at, f'variable numbers overlap, offset {off}', clash, w.ip)
  # constants, variables numbered in any order
  for od, order in enumerate(((0, 1, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1))):
    def numbered(c, order=order):
      MEAN.clear()
      MEAN.update(chain_means())
      kq = [atoms_array(n, (2,))[0] for n in 'kqw']
      pj, rj = pattern(exp), pattern(chain)
      cj = w.trace(lambda x: b('sub', exp(b('mul', x, kq[0])), b('mul', exp(
          b('sub', x, kq[1])), kq[2])), (2,))
      cvs = cj.jaxpr.constvars
      if len(cvs) != 3:
        raise Unsupported('constants of the subject')
      rest = [v for e in cj.jaxpr.eqns for v in e.outvars] + list(cj.jaxpr.invars)
      for v, i in zip(cvs, order):
        v.count = i
      for i, v in enumerate(rest if order[0] else rest[::-1]):
        v.count = 3 + i
      try:
        run(pj, rj, cj, 'constants numbered in any order')
      finally:
        MEAN.clear()
    check(report, G, 'G-jaxpr', at, f'constants numbered {order}', numbered, w.ip)
  # programs of constants: no inputs at all
  def fixed(j, val):
    """The program with its input replaced by a literal."""
    x, = j.invars
    put = lambda v: jm.JLit(val() if callable(val) else val, x.aval) if v is x else v
    for e in j.eqns:
      e.invars = [put(v) for v in e.invars]
    j.outvars = [put(v) for v in j.outvars]
    j.invars = []
    return j
  closed_subjects = {
      'once': lambda x: exp(b('neg', x)),
      'twice': lambda x: b('sub', exp(b('neg', x)), exp(b('neg', exp(x)))),
      'first result kept': lambda x: (lambda n: b('sub', b('abs', n), exp(b('neg', n))))(
          b('neg', x)),
      'last': lambda x: b('mul', b('abs', b('floor', x)), exp(b('neg', x))),
      'before': lambda x: (lambda n: b('sub', exp(b('neg', x)), n))(b('abs', x))}
  for nm, sf in closed_subjects.items():
    for off in (0, 1, 3, -1, -2, -3):
      def go(c, sf=sf, off=off, nm=nm):
        MEAN.clear()
        MEAN.update({h1: lambda ins, k: ('H', ins), h2: lambda ins, k: (
            'exp', id(P['exp']), params_key({'accuracy': None}), (
                ('neg', id(P['neg']), params_key({}), ins[0][1], 0),), 0)})
        try:
          pj = fixed(pattern(lambda x: exp(b('neg', x))), F(2))
          rj = fixed(pattern(lambda x: h2.bind(h1.bind(x))), F(2))
          cj = w.trace(sf, ())
          fixed(cj.jaxpr, F(2))
          for j in (pj, rj, cj.jaxpr):
            vs = [v for e in j.eqns for v in e.outvars]
            for i, v in enumerate(vs if j is not cj.jaxpr or off >= 0 else vs[::-1]):
              v.count = i + (abs(off) if j is cj.jaxpr else 0)
          run(pj, rj, cj, f'programs without inputs: {nm}')
        finally:
          MEAN.clear()
      check(report, G, 'G-jaxpr', at, f'programs without inputs: {nm}, offset {off}', go,
            w.ip)
  # literals that hold arrays: every element takes part in the comparison
  def array_literals(c):
    arr = lambda *q: AArray(np.array([V(jm.rat(F(x))) for x in q], object), 'f')
    vals = [arr(1, 2), arr(1, 3), arr(2, 2), arr(1, 2, 2), arr(1), arr(2, 1)]
    for i, u in enumerate(vals):
      for k, v in enumerate(vals):
        MEAN.clear()
        p = jm.JPrim('new', elementwise=True)
        pj, rj = pattern(lambda x: b('mul', x, F(7))), pattern(p.bind)
        cj = w.trace(lambda x: b('neg', b('mul', b('neg', x), F(7))), ())
        for j, val in ((pj, u), (cj.jaxpr, v)):
          for e in j.eqns:
            e.invars = [jm.JLit(val) if isinstance(q, jm.JLit) else q for q in e.invars]
        MEAN[p] = lambda ins, k, pj=pj: sem(pj, (), ins)[0][k]
        try:
          run(pj, rj, cj, f'array literals {u.data} and {v.data}', int(i == k), p)
        finally:
          MEAN.clear()
  check(report, G, 'G-jaxpr', at, 'array literals', array_literals, w.ip)
  # long programs: many occurrences, uses far away
  for n in (3, 12, 24, 60):
    for rep_name in ('chain', 'one'):
      def go(c, n=n, rep_name=rep_name):
        MEAN.clear()
        MEAN.update(chain_means())
        def sub(x):
          first = v = exp(x)
          for i in range(n):
            v = b('neg', v) if i % 3 else exp(b('sub', v, F(i)))
          return b('mul', v, first), b('add', v, x)
        def sub2(x):
          keep = [x]
          for i in range(n):
            keep.append(exp(b('neg', keep[i // 2])))
          v = keep[0]
          for q in keep:
            v = b('sub', q, v)
          return exp(v)
        try:
          p = jm.JPrim('new', elementwise=True)
          MEAN[p] = lambda ins, k: ('exp', id(P['exp']), params_key({'accuracy': None}),
                                    ins, 0)
          for f in (sub, sub2):
            cj = w.trace(f, ())
            k = sum(1 for e in cj.jaxpr.eqns if e.primitive is P['exp'])
            run(pattern(exp), pattern(chain if rep_name == 'chain' else p.bind), cj,
                f'{n} steps', k, h2 if rep_name == 'chain' else p)
        finally:
          MEAN.clear()
      check(report, G, 'G-jaxpr', at, f'long programs: {n} steps, {rep_name}', go, w.ip)
  # several pattern inputs
  two = jm.JPrim('two', elementwise=True)
  def two_means():
    return {two: lambda ins, k: ('sub', id(P['sub']), params_key({}), (
        ('exp', id(P['exp']), params_key({'accuracy': None}), (ins[0],), 0), ins[1]), 0)}
  pat2 = lambda x, y: b('sub', exp(x), y)
  for nm, sf in {'x,y': lambda x, y: b('sub', exp(x), y),
                 'y,x': lambda x, y: b('sub', exp(y), x),
                 'x,x': lambda x, y: b('sub', exp(x), x),
                 'reversed': lambda x, y: b('sub', x, exp(y)),
                 'literal second': lambda x, y: b('sub', exp(x), F(1)),
                 'self': lambda x, y: (lambda e: b('sub', e, e))(exp(x)),
                 'nested': lambda x, y: b('sub', exp(b('sub', exp(x), y)), x)}.items():
    multi(f'two pattern inputs: {nm}', pat2, lambda x, y: two.bind(x, y), sf, ((), ()),
          n=2, means=two_means)
  # argument checks
  def bad_in(c):
    expect_raises(lambda: w.replace(pattern(exp), pattern(pat2, 2), pattern(exp)),
                  ['ValueError'])
  def bad_out(c):
    expect_raises(lambda: w.replace(pattern(exp), pattern(lambda x: (x, exp(x))),
                                    pattern(exp)), ['ValueError'])
  def bad_const(c):
    k = k2()[0]
    expect_raises(lambda: w.replace(
        w.trace(lambda x: b('mul', x, k), (2,)).jaxpr, pattern(exp), pattern(exp)),
        ['NotImplementedError'])
    expect_raises(lambda: w.replace(
        pattern(exp), w.trace(lambda x: b('mul', x, k), (2,)).jaxpr, pattern(exp)),
        ['NotImplementedError'])
  for nm, fn in (('number of inputs', bad_in), ('number of outputs', bad_out),
                 ('constants in the pattern', bad_const)):
    check(report, G, 'G-jaxpr-reject', at, nm, fn, w.ip)
  # equality of sub-programs up to renaming: types, shapes, constants
  def jit_of(body, *args, **k):
    return lambda x: jit(body, x, **k)[0]
  def conv(t):
    return lambda a: b('convert_element_type', a, new_dtype=w.ip.models['jax.numpy'].attrs[t])
  def four(*which):
    def f(a):
      for op, q in zip(('mul', 'add', 'sub', 'max'), which):
        a = b(op, a, k2()[q])
      return a
    return f
  pairs = {
      'conversion to another type': (conv('float32'), conv('int32'), False),
      'same conversion': (conv('float32'), conv('float32'), True),
      'constant differs': (lambda a: b('mul', a, k2()[0]), lambda a: b('mul', a, k2()[1]),
                           False),
      'constant agrees': (lambda a: b('mul', a, k2()[0]), lambda a: b('mul', a, k2()[0]),
                          True),
      'one constant fewer': (lambda a: b('add', b('mul', a, k2()[0]), k2()[1]),
                             lambda a: b('add', b('mul', a, k2()[0]), k2()[0]), False),
      **{f'constant {i} of 4 differs': (
          four(0, 1, 2, 3), four(*[4 if q == i else q for q in range(4)]), False)
         for i in range(4)},
      'same four constants': (four(3, 1, 0, 2), four(3, 1, 0, 2), True),
      'constants in another order': (four(0, 1, 2, 3), four(0, 2, 1, 3), False),
      'parameter differs': (lambda a: b('reduce_sum', b('reshape', a, new_sizes=(1, 2)),
                                        axes=(0,)),
                            lambda a: b('reduce_sum', b('reshape', a, new_sizes=(1, 2)),
                                        axes=(1,)), False),
      'intermediate swapped': (
          lambda a: (lambda u, v: b('sub', u, v))(exp(a), b('neg', a)),
          lambda a: (lambda u, v: b('sub', v, u))(exp(a), b('neg', a)), False),
      'more literals': (lambda a: b('sub', b('mul', a, F(2)), F(3)),
                        lambda a: b('sub', b('mul', a, F(3)), F(2)), False),
      'literal for variable': (lambda a: b('mul', a, a), lambda a: b('mul', a, F(2)), False),
      'variable for literal': (lambda a: b('mul', a, F(2)), lambda a: b('mul', a, a), False),
      'unused part differs': (lambda a: (exp(a), b('neg', a))[1],
                              lambda a: (b('log', a, accuracy=None), b('neg', a))[1], False),
      'number of inner results': (lambda a: jit(lambda q: (exp(q), q), a)[0],
                                  lambda a: jit(lambda q: exp(q), a)[0], False),
  }
  for nm, (pb, sb, same) in pairs.items():
    def go(c, pb=pb, sb=sb, same=same, nm=nm):
      MEAN.clear()
      p = jm.JPrim('new', jm.ew1('new'), elementwise=True)
      pj = w.trace(jit_of(pb), (2,)).jaxpr
      p.abstract = Native(lambda av: pj.outvars[0].aval)
      MEAN[p] = lambda ins, k: sem(pj, (), ins)[0][k]
      rj = w.trace(p.bind, (2,)).jaxpr
      try:
        run(pj, rj, w.trace(jit_of(sb), (2,)), f'jit bodies: {nm}', int(same), p)
      finally:
        MEAN.clear()
    check(report, G, 'G-equivalence', 'jaxpr_editor._same_jaxpr_up_to_variable_renaming',
          nm, go, w.ip)
  # the same for primitives whose parameter is an open Jaxpr
  def ck_of(body):
    return lambda x: jm.checkpoint(P, Native(body), [x])[0]
  pairs.update({
      'inner program differs': (lambda a: exp(b('neg', a)),
                                lambda a: exp(b('log', a, accuracy=None)), False),
      'inner program agrees': (lambda a: exp(b('neg', a)), lambda a: exp(b('neg', a)), True),
      'an operation more': (lambda a: exp(b('neg', a)), lambda a: exp(b('neg', exp(a))),
                            False),
      'another result': (lambda a: (b('neg', a), exp(a))[0],
                         lambda a: (b('neg', a), exp(a))[1], False),
  })
  for nm, (pb, sb, same) in pairs.items():
    if nm.startswith(('constant', 'one constant', 'same four')):
      continue
    for style in ('open', 'open in jit', 'mixed'):
      def go(c, pb=pb, sb=sb, same=same, nm=nm, style=style):
        MEAN.clear()
        wrap = (lambda f: jit_of(ck_of(f))) if style == 'open in jit' else ck_of
        p = jm.JPrim('new', jm.ew1('new'), elementwise=True)
        pj = w.trace(wrap(pb), (2,)).jaxpr
        p.abstract = Native(lambda av: pj.outvars[0].aval)
        MEAN[p] = lambda ins, k: sem(pj, (), ins)[0][k]
        rj = w.trace(p.bind, (2,)).jaxpr
        sub = w.trace(jit_of(sb) if style == 'mixed' else wrap(sb), (2,))
        try:
          run(pj, rj, sub, f'{style} bodies: {nm}', int(same and style != 'mixed'), p)
        finally:
          MEAN.clear()
      check(report, G, 'G-equivalence', 'jaxpr_editor._same_jaxpr_up_to_variable_renaming',
            f'{style} {nm}', go, w.ip)

  # every parameter and every literal takes part in the comparison
  np_ = w.ip.models['jax.numpy'].attrs
  values = {
      'integers': (0, 1, 2, -1, 3),
      'tuples': ((0,), (1,), (0, 1), (1, 0), (), ((0, 1), (1, 0)), ((1, 0), (0, 1)),
                 (((0,), (0,)), ((), ())), (((1,), (0,)), ((), ()))),
      'flags': (False, True), 'none': (None, 0, (0,), ()), 'strings': ('a', 'b'),
      'numbers': (F(1, 2), F(-1, 2), F(2), F(2) + F(1, 10 ** 6)),
      'types': (np_['float32'], np_['int32'], np_['bool_'], np_['float64']),
  }
  tuples, ints, flags = ('tuples', 'none'), ('integers',), ('flags',)
  names = {n: k for k, ns in {
      tuples: 'dimensions axes permutation dimension_numbers new_sizes shape '
              'broadcast_dimensions window_dimensions window_strides padding '
              'base_dilation window_dilation lhs_dilation rhs_dilation start_indices '
              'limit_indices strides sizes padding_config slice_sizes update_window_dims '
              'inserted_window_dims scatter_dims_to_operand_dims',
      ints: 'axis dimension y num_keys feature_group_count batch_group_count k n length '
            'num_consts num_carry exponent_bits mantissa_bits all_gather_dimension '
            'axis_size split_axis concat_axis size index cond_nconsts body_nconsts '
            'unroll_length',
      flags: 'reverse is_stable select_lower lower left_side transpose_a conjugate_a '
             'unit_diagonal use_static_index descending zero_based full_matrices linear '
             'inclusive',
      ('types',): 'new_dtype index_dtype dtype out_dtype key_type',
      ('strings', 'none'): 'mode comparator direction kind axis_name fft_type algorithm',
      ('numbers',): 'fill_value exponent value scale alpha epsilon'}.items()
           for n in ns.split()}
  op = jm.JPrim('op', elementwise=True)
  op.abstract = Native(lambda av, **k: av)
  def same_program(pat, subj, same, what):
    MEAN.clear()
    p = jm.JPrim('new', jm.ew1('new'), elementwise=True)
    pj = w.trace(pat, (2,)).jaxpr
    p.abstract = Native(lambda av: pj.outvars[0].aval)
    MEAN[p] = lambda ins, k: sem(pj, (), ins)[0][k]
    rj = w.trace(p.bind, (2,)).jaxpr
    try:
      run(pj, rj, w.trace(subj, (2,)), what, int(same), p)
    finally:
      MEAN.clear()
  levels = {'equation': lambda f: f, 'body of a call': jit_of, 'open body': ck_of,
            'nested body': lambda f: jit_of(jit_of(f))}
  for pn, kinds in names.items():
    for lv, wrap in levels.items():
      def go(c, pn=pn, kinds=kinds, wrap=wrap):
        for kind in kinds:
          vals = values[kind]
          for i, u in enumerate(vals):
            for v in (vals[(i + 1) % len(vals)], vals[(i + 2) % len(vals)]):
              if u is v or u == v:
                continue
              same_program(wrap(lambda a: op.bind(a, **{pn: u})),
                           wrap(lambda a: op.bind(a, **{pn: v})), False,
                           f'parameter {pn}: {u} and {v}')
        u = values[kinds[0]][0]
        same_program(wrap(lambda a: op.bind(a, **{pn: u})),
                     wrap(lambda a: op.bind(a, **{pn: u})), True, f'equal {pn}')
        same_program(wrap(lambda a: op.bind(a, **{pn: u, 'other': 1})),
                     wrap(lambda a: op.bind(a, **{pn: u, 'other': 2})), False,
                     f'second parameter besides {pn}')
      check(report, G, 'G-equivalence', 'jaxpr_editor._jaxpr_eqn_params_equiv',
            f'{lv}: parameter {pn}', go, w.ip)
  lits = (F(0), F(1), F(2), F(-2), F(-1), F(1, 2), F(-1, 2), F(2) + F(1, 10 ** 6),
          F(10 ** 6), F(1, 10 ** 6), F(3))
  for ln in ('add', 'mul', 'sub', 'div', 'pow', 'max'):
    for lv, wrap in levels.items():
      def go(c, ln=ln, wrap=wrap):
        for i, u in enumerate(lits):
          for v in lits[i + 1:]:
            for left in (False, True):
              bind = lambda a, q: b(ln, q, a) if left else b(ln, a, q)
              same_program(wrap(lambda a: bind(a, u)), wrap(lambda a: bind(a, v)), False,
                           f'{ln} of {u} and {v}')
        same_program(wrap(lambda a: b(ln, a, F(2))), wrap(lambda a: b(ln, a, F(2))), True,
                     f'{ln} of equal numbers')
        same_program(wrap(lambda a: b(ln, a, F(2))), wrap(lambda a: b(ln, F(2), a)), False,
                     f'{ln} reversed')
      check(report, G, 'G-equivalence', 'jaxpr_editor._equiv_literals',
            f'{lv}: literal of {ln}', go, w.ip)
  for ln in ('exp', 'neg', 'log', 'abs', 'sqrt', 'sin', 'floor'):
    for lv, wrap in levels.items():
      def go(c, ln=ln, wrap=wrap):
        for other in ('exp', 'neg', 'log', 'abs', 'sqrt', 'sin', 'floor', 'tanh'):
          if other != ln:
            same_program(wrap(lambda a: b(ln, a)), wrap(lambda a: b(other, a)), False,
                         f'{ln} and {other}')
        same_program(wrap(lambda a: b(ln, a)), wrap(lambda a: b(ln, a)), True, ln)
      check(report, G, 'G-equivalence',
            'jaxpr_editor._same_jaxpr_up_to_variable_renaming', f'{lv}: primitive {ln}', go,
            w.ip)
  if G == 'gr.bodies':
    bodies(_check, report, G, w, b, levels, same_program, k2)


UN, BI = ('exp', 'neg', 'abs', 'tanh'), ('sub', 'mul', 'add', 'max', 'div')


def random_body(rng, n, inputs):
  """A straight-line program: (operation, operands); an operand is the number of a
  value, or ('lit', number) or ('const', number)."""
  out = []
  for i in range(n):
    known = inputs + i
    pick = lambda: rng.choice(
        [rng.randrange(known)] * 3 + [known - 1] * 3 +
        [('lit', Fraction(rng.choice((2, 3, -1)))), ('const', rng.randrange(2))])
    last = known - 1 if i else rng.randrange(inputs)
    if rng.random() < .45:
      out.append((rng.choice(UN), (last,)))
    else:
      ops = [last, pick()]
      rng.shuffle(ops)
      out.append((rng.choice(BI), tuple(ops)))
  return out


def body_term(body, inputs):
  vals = [('in', i) for i in range(inputs)]
  for op, args in body:
    vals.append((op,) + tuple(a if isinstance(a, tuple) else vals[a] for a in args))
  return vals


def mutations(body, inputs):
  for i, (op, args) in enumerate(body):
    others = UN if len(args) == 1 else BI
    yield body[:i] + [(others[(others.index(op) + 1) % len(others)], args)] + body[i + 1:]
    if len(args) == 2:
      yield body[:i] + [(op, args[::-1])] + body[i + 1:]
    for j, a in enumerate(args):
      if isinstance(a, tuple) and a[0] == 'lit':
        news = [('lit', a[1] + 1), 0]
      elif isinstance(a, tuple):
        news = [('const', 1 - a[1]), 0]
      else:
        news = [k for k in (0, inputs + i - 1, inputs + i - 2) if 0 <= k != a][:2]
        news.append(('lit', Fraction(2)))
      for v in news:
        new = args[:j] + (v,) + args[j + 1:]
        if not any(isinstance(q, int) for q in new):
          continue
        yield body[:i] + [(op, new)] + body[i + 1:]


def bodies(check, report, G, w, b, levels, same_program, k2):
  """Bodies of several operations, against themselves and every small change."""
  rng = random.Random(5)
  thorough = report.tier != 'quick'
  def build(body):
    def f(a):
      vals = [a]
      for op, args in body:
        xs = [vals[q] if isinstance(q, int) else q[1] if q[0] == 'lit' else k2()[q[1]]
              for q in args]
        vals.append(b(op, *xs))
      return vals[-1]
    return f
  has_const = lambda body: any(
      isinstance(q, tuple) and q[0] == 'const' for _, a in body for q in a)
  for n in (2, 3, 4, 5, 6, 8):
    for r in range(12 if thorough else 4):
      body = random_body(rng, n, 1)
      for lv in ('body of a call', 'nested body', 'equation', 'open body'):
        if has_const(body) and lv in ('equation', 'open body'):
          continue
        def go(c, body=body, wrap=levels[lv], lv=lv):
          want = body_term(body, 1)[-1]
          same_program(wrap(build(body)), wrap(build(body)), True, 'same body')
          for m in mutations(body, 1):
            if has_const(m) and not has_const(body) or body_term(m, 1)[-1] == want:
              continue
            same_program(wrap(build(body)), wrap(build(m)), False, f'{body} against {m}')
        check(report, G, 'G-equivalence',
              'jaxpr_editor._same_jaxpr_up_to_variable_renaming',
              f'{lv}: {n} operations, program {r}', go, w.ip)


def w_body(w):
  def body(c, e):
    m = w.b('max', c, e)
    df = w.b('sub', c, e)
    return w.b('add', m, w.b('log1p', w.b('exp', w.b('neg', w.b('abs', df)), accuracy=None),
                             accuracy=None))
  return Native(body)


GROUPS = {'gr.match': match_group, 'gr.replace': replace_group, 'gr.jaxpr': jaxpr_group,
          'gr.bodies': lambda report: jaxpr_group(report, 'gr.bodies')}
