"""Which obligations decide which property."""

MODULE_OF = {'iv': 'interval', 'te': 'enclosure', 'poly': 'enclosure',
             'el': 'elementwise', 'jb': 'jaxlevel', 'gr': 'graph', 'fx': 'effects'}

# rough cost of a group in seconds (longest first)
COST = {'jb.dims': 38, 'el.generator': 40, 'jb.axes': 31, 'jb.jit': 30, 'jb.prim': 28, 'jb.deep': 50, 'jb.deeper': 45, 'jb.random': 30, 'jb.random2': 20,
        'el.pow': 32,
        'te.compose': 12, 'te.cells': 12, 'te.power': 11, 'te.linear': 10, 'jb.history': 9, 'jb.rewrite': 9, 'jb.shape': 8,
        'fx.args': 40, 'fx.history': 60, 'jb.reject': 7, 'gr.replace': 6, 'te.multiply': 4, 'gr.jaxpr': 32, 'gr.bodies': 7,
        'jb.dot': 4, 'iv.power': 2, 'iv.outer': 2, 'jb.api': 4, 'jb.conv': 3}

ASSUMPTIONS = [
    'real arithmetic: floating point rounding is not modelled',
    'the modelled numpy/jax primitives behave as documented',
    'operand shapes, degrees and coefficient kinds are those enumerated by the '
    'obligations; values are arbitrary within the abstract cells',
]

SOUND, SHARP, FORM = 'sound', 'sharp', 'form'
# Aspects other than these three are decided by their own events only: a
# violated obligation of another kind leaves them undecided.
COMPLETE, RECOGNISE, REJECT = 'complete', 'recognise', 'reject'
PURE, TRACE, BACKEND = 'pure', 'trace', 'backend'


def own(*items, aspects=(SOUND,)):
  """items: 'group' or ('group', 'rule', ...)."""
  out = []
  for i in items:
    if isinstance(i, str):
      out.append((i, None, aspects))
    else:
      out.append((i[0], list(i[1:]), aspects))
  return out


IV = own('iv.basic', 'iv.power', 'iv.bilinear', 'iv.outer')
PROGRAMS = ('jb.prim', 'jb.shape', 'jb.dot', 'jb.dims', 'jb.axes', 'jb.conv', 'jb.rewrite',
            'jb.jit', 'jb.deep', 'jb.deeper', 'jb.random', 'jb.random2')
CORE_PROGRAMS = ('jb.prim', 'jb.shape', 'jb.dot', 'jb.conv', 'jb.rewrite', 'jb.jit')
NUMERIC = ('iv.basic', 'iv.power', 'iv.bilinear', 'iv.outer', 'te.linear', 'te.helpers',
           'te.multiply', 'te.bilinear', 'te.power', 'te.compose', 'te.cells', 'poly.algebra',
           'poly.eval', 'el.generator', 'el.blocks', 'el.pow', 'el.table', 'el.range',
           'el.monotone', 'el.derivs')
LOWER = tuple(g for g in NUMERIC)
PROPS = {
    'I01': dict(own=own('iv.basic')),
    'I02': dict(own=own('iv.basic', 'iv.power', 'iv.outer', 'iv.bilinear',
                        aspects=(SHARP, FORM))),
    'I03': dict(own=own('iv.power', ('iv.outer', 'I-outer-power', 'I-outer-reject'))),
    'I04': dict(own=own('iv.bilinear', 'iv.outer')),
    'E01': dict(own=own('te.linear', 'te.helpers', ('te.cells', 'T-truncate', 'T-add', 'T-subtract'))),
    'E02': dict(own=own('te.multiply', 'te.bilinear', ('te.cells', 'T-multiply')),
                deps=own('iv.bilinear', ('iv.basic', 'I-add', 'I-multiply'),
                         ('iv.outer', 'I-outer-power'), 'poly.algebra', 'te.linear',
                         'te.helpers')),
    'E03': dict(own=own('te.power', ('te.cells', 'T-power')),
                deps=own('te.multiply', 'te.compose', 'iv.bilinear', 'iv.basic',
                         'iv.outer', 'el.pow', 'poly.algebra', 'te.linear',
                         'te.helpers')),
    'E04': dict(own=own('te.compose'),
                deps=own('te.multiply', 'te.power', 'te.linear', 'te.helpers',
                         'iv.bilinear', 'iv.basic', 'iv.outer', 'poly.algebra')),
    'E05': dict(own=own('te.linear', 'te.multiply', 'te.bilinear', 'te.power',
                        'te.compose', aspects=(FORM,)), strict=True),
    'F01': dict(own=own('el.generator', 'el.blocks'),
                deps=own('el.table', 'el.range', 'el.monotone', 'el.derivs')),
    'F02': dict(own=own('el.generator', 'el.blocks', 'el.pow', aspects=(SHARP,)),
                deps=own('el.range', 'el.monotone', 'el.table', aspects=(SHARP,))),
    'F03': dict(own=own('el.pow'), deps=own('el.blocks')),
    'F04': dict(own=own('el.table', 'el.range', 'el.monotone', aspects=(SHARP,)),
                deps=own('el.derivs')),
    'F05': dict(own=own('el.derivs')),
    'F06': dict(own=own('el.overflow')),
    'J01': dict(own=own('jb.prim', 'jb.shape', 'jb.dot', 'jb.dims', 'jb.axes', 'jb.conv',
                        'jb.deep', ('jb.deeper', 'J-shape', 'J-bilinear')),
                deps=own(('jb.reject', 'J-unsupported'), *LOWER)),
    'J02': dict(own=own('jb.reject', aspects=(SOUND, REJECT))),
    'J03': dict(own=own('jb.api'), deps=own('poly.eval')),
    'J04': dict(own=own(*[(g, 'J-propagate') for g in PROGRAMS]),
                deps=own('te.compose', 'te.helpers', 'te.linear', 'poly.eval')),
    'J05': dict(own=own('jb.rewrite', 'jb.jit', ('jb.deeper', 'J-rewrite', 'J-structure'),
                        ('jb.random', 'J-structure'), ('jb.random2', 'J-structure')),
                deps=own('gr.jaxpr', 'gr.bodies', 'gr.match', 'gr.replace')),
    'J06': dict(own=own(('jb.register', 'J-recognise'), aspects=(SOUND, RECOGNISE))),
    'J07': dict(own=own(('jb.register', 'J-register'), 'jb.history')),
    'J08': dict(own=own(*PROGRAMS, aspects=(FORM,)), strict=True),
    'G01': dict(own=own('gr.match')),
    'G02': dict(own=own('gr.replace', aspects=(SOUND, COMPLETE)), deps=own('gr.match')),
    'G03': dict(own=own('gr.jaxpr', 'gr.bodies', aspects=(SOUND, COMPLETE)),
                deps=own('gr.match', 'gr.replace')),
    'X01': dict(own=own(*NUMERIC, 'fx.args', aspects=(BACKEND,)) + own(
        ('fx.names', 'X-names')), strict=True),
    'X02': dict(own=own(*NUMERIC, *CORE_PROGRAMS, aspects=(PURE,)) + own(
        'fx.args', 'fx.history', ('fx.names', 'X-params'), aspects=(SOUND, PURE)),
                strict=True),
    'X03': dict(own=own(*NUMERIC, *CORE_PROGRAMS, 'fx.args', aspects=(TRACE,)) + own(
        ('fx.names', 'X-truth')), strict=True),
    'P01': dict(own=own('poly.algebra')),
    'P02': dict(own=own('poly.eval'),
                deps=own('iv.bilinear', 'iv.basic', 'iv.outer', 'poly.algebra',
                         'te.helpers')),
}


def selectors(pid):
  p = PROPS[pid]
  return [(g, r, a) for g, r, a in p['own'] + p.get('deps', [])]
