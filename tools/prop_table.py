def inp(text, *more):
  return {'over': ['inputs', *more], 'text': text}


def anch(files, mech, observe=(), state=()):
  return {'files': ['autobound/' + f for f in files],
          'mechanism': [{'name': n, 'where': w} for n, w in mech],
          'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
          'observe_at': list(observe), 'hook_needed': None}


IA = 'autobound/interval_arithmetic.py:IntervalArithmetic'
TA = 'autobound/enclosure_arithmetic.py:TaylorEnclosureArithmetic'
EFN = 'autobound/elementwise_functions.py'
PEN = 'autobound/primitive_enclosures.py'
POL = 'autobound/polynomials.py'
BASE = ('Sound for real arithmetic on the enumerated shapes/degrees/kinds, for every value '
        'in the abstract cells; rounding is not modelled.  Undecided obligations are '
        'reported in the evidence and are never alarms.  Trusted: the ast interpreter, '
        'the models of numpy/jax primitives and the reference definitions in absint/.')

TABLE = [
 dict(id='I01', title='Interval sums, differences, negation and products contain the result',
  statement='For all real members of the operand intervals (or exact operands), the exact '
   'sum, difference, negation and product lie in the interval that interval arithmetic '
   'returns, elementwise and with broadcasting. Operands may be exact, degenerate, or '
   'straddle zero.',
  quantifier=inp('all end points in every sign class, all member values, scalar and '
                 'broadcast shapes, exact or interval operands'),
  why_tests_cant='Tests use a few numeric intervals; a wrong corner in one sign class for '
   'one operand kind is visible only for particular sign combinations.',
  anchors=anch(['interval_arithmetic.py'], [('add/subtract/negative/multiply', IA)],
               ['returned interval end points']),
  note=BASE),
 dict(id='I02', title='Interval operations are exact: end points are attained, no widening',
  statement='The interval returned for a sum, difference, product, nonnegative integer '
   'power, outer product or product-like bilinear operation is the tightest one: each end '
   'point is a value taken at end points of the operands (or at zero for even powers). '
   'Operations whose operands are all exact return an exact value, not an interval.',
  quantifier=inp('all end points in every sign class; exact/interval operand combinations'),
  why_tests_cant='A needlessly wide interval is still valid and passes containment tests.',
  anchors=anch(['interval_arithmetic.py'], [('corner selection', IA)],
               ['returned interval end points']),
  note=BASE),
 dict(id='I03', title='Integer powers of intervals contain every power of a member',
  statement='For every nonnegative integer exponent, raising an interval (elementwise or '
   'as repeated outer product with itself) yields an interval containing the power of every '
   'member; even powers of intervals containing zero include zero and are nonnegative. '
   'Powers that cannot be bounded are rejected or unbounded.',
  quantifier=inp('all end points in every sign class, exponents 0..20 and around powers of two up to 64'),
  why_tests_cant='Sign/parity combinations are sampled at single numbers only.',
  anchors=anch(['interval_arithmetic.py'], [('power', IA + '.power'),
               ('outer_power', IA + '.outer_power')], ['returned end points']),
  note=BASE),
 dict(id='I04', title='Bilinear, tensor-dot and outer products of intervals are contained',
  statement='For any bilinear operation built from products with nonnegative structure '
   'constants (elementwise multiplication, tensor contraction, outer product), the interval '
   'computed for interval or exact operands contains the exact result for every choice of '
   'members. Shapes follow the exact operation.',
  quantifier=inp('all sign classes of every element of both operands, exact/interval '
                 'operands, several ranks, contraction patterns and bilinear maps'),
  why_tests_cant='The result mixes many elements of different signs; tests try a handful '
   'of numeric arrays.',
  anchors=anch(['interval_arithmetic.py'], [('arbitrary_bilinear', IA + '.arbitrary_bilinear'),
               ('tensordot', IA + '.tensordot'), ('outer_product', IA + '.outer_product')],
               ['returned end points']),
  note=BASE),
 dict(id='E01', title='Adding, subtracting, negating and truncating enclosures is sound',
  statement='If f and g are enclosed by Taylor enclosures over a trust region, the returned '
   'enclosure of f+g, f-g, -f, or of f truncated to a lower degree contains the '
   'corresponding function at every point of the trust region. This holds for scalar and '
   'array variables, mixed degrees, and exact or interval coefficients.',
  quantifier=inp('all coefficient values and members, all trust regions, degrees above and '
                 'below the maximum, ranks 0..2 of the variable'),
  why_tests_cant='Tests compare a few numeric enclosures; the claim quantifies over all '
   'member functions and points.',
  anchors=anch(['enclosure_arithmetic.py'], [('add/subtract/negative', TA),
               ('truncation', 'autobound/enclosure_arithmetic.py:enclose_enclosure')],
               ['coefficients of the returned enclosure']),
  note=BASE),
 dict(id='E02', title='Products and bilinear combinations of enclosures are sound',
  statement='The enclosure of a product (or of any supported bilinear combination) of two '
   'enclosed functions contains the exact product at every point of the trust region, '
   'including the terms of degree above the maximum folded into the last coefficient.',
  quantifier=inp('all coefficients/members/trust regions, all degree pairs up to the '
                 'enumerated maximum, scalar and array variables'),
  why_tests_cant='High-order cross terms only matter away from the expansion point and for '
   'particular degree/kind combinations.',
  anchors=anch(['enclosure_arithmetic.py', 'polynomials.py', 'interval_arithmetic.py'],
               [('multiply', TA + '.multiply'), ('arbitrary_bilinear', TA + '.arbitrary_bilinear'),
                ('term products', POL)], ['coefficients of the returned enclosure']),
  note=BASE),
 dict(id='E03', title='Powers and quotients of enclosures are sound',
  statement='Raising an enclosure to a nonnegative integer power, to a real power, or '
   'dividing by an enclosure that excludes zero yields an enclosure containing the exact '
   'function at every point of the trust region.',
  quantifier=inp('all coefficients/members/trust regions, integer exponents 0..11 and '
                 'several real exponents, maximum degrees 0..3'),
  why_tests_cant='Square-and-multiply paths and truncation interact; only a few exponents '
   'and numeric enclosures are tried.',
  anchors=anch(['enclosure_arithmetic.py', 'primitive_enclosures.py', 'polynomials.py'],
               [('power', TA + '.power'), ('divide', TA + '.divide'),
                ('pow_enclosure', PEN + ':pow_enclosure')],
               ['coefficients of the returned enclosure']),
  note=BASE),
 dict(id='E04', title='Composing a valid elementwise enclosure with an argument is sound',
  statement='If an elementwise function is validly enclosed over the range of its argument, '
   'applying it to an enclosed argument gives an enclosure that contains the composition at '
   'every point of the trust region. The range handed to the elementwise generator contains '
   'every value the argument takes.',
  quantifier=inp('all arguments, members, trust regions, maximum degrees 0..3, scalar and '
                 'array variables, elementwise enclosures of any length'),
  why_tests_cant='Dropping or misplacing a cross term is invisible for affine arguments or '
   'small regions.',
  anchors=anch(['enclosure_arithmetic.py'], [('compose_enclosures', TA + '.compose_enclosures'),
               ('get_elementwise_fun', TA + '.get_elementwise_fun')],
               ['coefficients of the returned enclosure']),
  note=BASE),
 dict(id='E05', title='Enclosures respect the maximum degree; low-order terms stay exact',
  statement='No operation returns an enclosure with degree above the maximum. When the '
   'operands are exact polynomials up to the last coefficient, every coefficient below the '
   'maximum degree of the result is an exact value rather than an interval.',
  quantifier=inp('all operations, operand kinds, degrees and maximum degrees'),
  why_tests_cant='A needlessly interval-valued low-order coefficient still encloses the '
   'function.',
  anchors=anch(['enclosure_arithmetic.py'], [('all operations', TA)],
               ['structure of the returned tuple']),
  note=BASE),
 dict(id='F01', title='Built-in elementwise functions: enclosures hold on the trust region',
  statement='For abs, exp, log, sigmoid, softplus and swish, every supported degree, every '
   'expansion point and every trust region containing it, the returned enclosure contains '
   'the function at every point of the region. Unsupported degrees are rejected.',
  quantifier=inp('all expansion points and trust regions, classified by their position '
                 'relative to the extrema of the derivative; all supported degrees'),
  why_tests_cant='Validity depends on where the region lies relative to the extrema of the '
   'derivative; tests sample a few regions per function.',
  anchors=anch(['primitive_enclosures.py', 'elementwise_functions.py'],
               [('generator', PEN + ':get_elementwise_taylor_enclosure'),
                ('remainder ratio', PEN + ':taylor_remainder_ratio')],
               ['final interval coefficient']),
  note=BASE + '  The shapes of the functions (extrema, monotone pieces) come from an '
   'independent derivation in absint/oracle.py.'),
 dict(id='F02', title='Enclosures are sharp where the derivative is monotone',
  statement='When the derivative of order equal to the degree is monotone over the trust '
   'region, both end points of the final coefficient are values of the remainder ratio '
   'attained in the region; ranges of functions are attained values as well.',
  quantifier=inp('all regions within one monotone piece; all functions and degrees; powers'),
  why_tests_cant='A looser bound is valid and passes every containment test.',
  anchors=anch(['primitive_enclosures.py', 'elementwise_functions.py'],
               [('sharp case', PEN + ':sharp_enclosure_monotonic_derivative'),
                ('selection', PEN + ':get_elementwise_taylor_enclosure'),
                ('range', EFN + ':get_range')], ['final interval coefficient']),
  note=BASE),
 dict(id='F03', title='Power function enclosures hold for every exponent and sign of region',
  statement='For every real exponent, degree, expansion point and trust region, the '
   'enclosure of x**p contains the function wherever it is defined: for positive, negative '
   'and zero-straddling regions, integer and fractional exponents. Near a pole or outside '
   'the domain the bound is infinite, never finite and wrong, and never NaN.',
  quantifier=inp('regions in every sign class, expansion points incl. zero and region ends, '
                 'a grid of exponents of every parity/sign/fraction class, degrees 0..5 '
                 '(some to 10), arrays of any shape'),
  why_tests_cant='Parity, sign of the exponent and position of zero interact in dozens of '
   'combinations; tests cover six.',
  anchors=anch(['primitive_enclosures.py'], [('pow_enclosure', PEN + ':pow_enclosure'),
               ('derivative sign', PEN + ':_pow_kth_deriv_sign')],
               ['final interval coefficient']),
  note=BASE),
 dict(id='F04', title='Extrema tables, monotonicity queries and ranges are exact',
  statement='The recorded local minima and maxima of every supported derivative are exactly '
   'its turning points, monotone and even flags are right, a region is reported monotone '
   'exactly when it lies within one monotone piece, and the computed range over a region is '
   'the exact range.',
  quantifier=inp('all functions and orders; all regions by position relative to extrema'),
  why_tests_cant='The tests accept a table that lists a subset of the extrema, and sample '
   'ranges at points.',
  anchors=anch(['elementwise_functions.py'], [('table', EFN + ':_FUNCTION_DATA'),
               ('monotone_over', EFN + ':FunctionData.monotone_over'),
               ('ranges', EFN + ':minimum_value,maximum_value,get_range')],
               ['returned range and flags']),
  note=BASE),
 dict(id='F05', title='Derivatives and Taylor coefficients are the exact ones',
  statement='For every built-in elementwise function and supported order, the derivative '
   'returned is identically the true derivative, and the Taylor coefficients at a point are '
   'the derivatives divided by factorials; unsupported orders are rejected, not wrong.',
  quantifier=inp('all real arguments, all supported orders'),
  why_tests_cant='Tests compare at seven points with tolerances.',
  anchors=anch(['elementwise_functions.py'], [('get_function', EFN + ':get_function'),
               ('coefficients', EFN + ':get_taylor_polynomial_coefficients')],
               ['returned values']),
  technique='abstract interpretation with an exact rational-function domain in x and '
            'exp(x) (identity of normal forms)',
  note=BASE),
 dict(id='F06', title='Sigmoid family values are finite and right for extreme arguments',
  statement='Where exp overflows or underflows, the sigmoid, softplus and swish functions '
   'and their derivatives evaluate to their limits (0, 1 or x), never to NaN or infinity.',
  quantifier=inp('all arguments of magnitude beyond the exp range, both signs, all orders'),
  why_tests_cant='Tests try +-1000 for some orders on one backend.',
  anchors=anch(['elementwise_functions.py'], [('stable sigmoid', EFN + ':_sigmoid'),
               ('stable softplus', EFN + ':_softplus')], ['returned values']),
  technique='abstract interpretation with an overflow-aware domain for exp',
  note=BASE),
 dict(id='P01', title='Polynomial products, powers and evaluation are identities',
  statement='Multiplying, raising to an integer power and evaluating polynomials given by '
   'coefficient sequences produce exactly the coefficients/values of the mathematical '
   'polynomial, for any user-supplied coefficient ring operations, including the empty '
   'polynomial conventions.',
  quantifier=inp('all coefficient values, lengths 0..6, exponents 0..10, custom operations'),
  why_tests_cant='Tests use small integer coefficients.',
  anchors=anch(['polynomials.py'], [('product', POL + ':arbitrary_bilinear'),
               ('power', POL + ':integer_power'), ('evaluation', POL + ':eval_polynomial')],
               ['returned coefficients']),
  note=BASE),
 dict(id='P02', title='Evaluating an enclosure at a point or interval contains all values',
  statement='Evaluating a Taylor enclosure (elementwise or multivariate) at a point or over '
   'an interval of points returns a value or interval containing every value a member '
   'polynomial takes there, with batch dimensions preserved.',
  quantifier=inp('all coefficients, members, points and intervals; variable ranks 0..2; '
                 'degrees 0..7 (scalar) and 0..5 (vector); batch shapes'),
  why_tests_cant='Tests evaluate a few numeric enclosures.',
  anchors=anch(['polynomials.py'], [('multivariate', POL + ':eval_taylor_enclosure'),
               ('elementwise', POL + ':eval_elementwise_taylor_enclosure')],
               ['returned interval']),
  note=BASE),
]

JB = 'autobound/jax/jax_bound.py'
JE = 'autobound/jax/jaxpr_editor.py'
GE = 'autobound/graph_editor.py'
JNOTE = ('Sound for real arithmetic on the enumerated programs, shapes, degrees and kinds, '
         'for all values; the JAX tracer and primitive semantics are modelled from the '
         'documentation (absint/jaxmodel.py).  Trusted: the ast interpreter, that model '
         'and the reference semantics.  Undecided obligations are reported, never alarms.')
GNOTE = ('Exhaustive over the enumerated subject and pattern graphs; symbolic values.  '
         'Trusted: the ast interpreter, the reference matcher and reference evaluator.')

TABLE += [
 dict(id='J01', title='taylor_bounds encloses every function built from supported primitives',
  statement='For a function built from the supported JAX primitives (arithmetic, powers, '
   'elementwise functions, reshapes, transposes, broadcasts, sums, window sums, '
   'convolutions and contractions), the bounds returned by taylor_bounds contain the function at every '
   'point of the trust region, with every operand position and parameter of the primitive '
   'taken into account. (The ranges derived for intermediate values must lie inside the '
   'domains of the functions applied to them; otherwise the bounds may be infinite or NaN.)',
  quantifier=inp('all values, trust regions and expansion points; scalar and vector '
                 'variables; maximum degrees 0..6', 'programs'),
  why_tests_cant='A rule wrong for one operand position, parameter or degree gives a bound '
   'that is only wrong for programs and points the tests do not contain.',
  anchors=anch(['jax/jax_bound.py', 'enclosure_arithmetic.py'],
               [('primitive table', JB + ':_pushforward_funs'),
                ('pass-through', JB + ':_pass_thru_pushforward_fun'),
                ('propagation', JB + ':taylor_bounds')],
               ['coefficients of the returned TaylorBounds']),
  note=JNOTE),
 dict(id='J02', title='Programs that cannot be bounded are rejected, never bounded wrongly',
  statement='A function containing a primitive for which no sound rule exists (non-smooth, '
   'integer-valued, control flow, or a supported primitive with unsupported operands that '
   'depend on the input), an argument of unsupported rank or an invalid degree raises an '
   'error instead of returning bounds.',
  quantifier=inp('all primitives of the modelled JAX set outside the table, all positions '
                 'of the dependent operand, degrees 0..3', 'programs'),
  why_tests_cant='Tests check two or three unsupported programs.',
  anchors=anch(['jax/jax_bound.py'], [('table lookup', JB + ':taylor_bounds')],
               ['the exception raised']),
  note=JNOTE),
 dict(id='J03', title='The TaylorBounds object evaluates to the bounds it describes',
  statement='Calling the returned bounds, lower, upper, final_interval and coefficients '
   'agree with the enclosure computed for (f, x0, trust region, '
   'degree): the value at x is an interval containing f(x) for x in the region, x0 and the '
   'region are the given ones, and numbers, arrays, tuples are accepted alike.',
  quantifier=inp('all values, shapes (scalar, vector, batched evaluation), degrees'),
  why_tests_cant='Tests evaluate numeric bounds at a few points.',
  anchors=anch(['jax/jax_bound.py'], [('TaylorBounds', JB + ':TaylorBounds')],
               ['the values returned by the methods']),
  note=JNOTE),
 dict(id='J04', title='Trust-region propagation keeps bounds valid',
  statement='With propagate_trust_regions, the range used for every intermediate value '
   'contains every value it takes over the trust region of the input, and the bounds '
   'returned are valid exactly as without propagation, for every supported program '
   'including those with constant intermediates.',
  quantifier=inp('all values and trust regions; degrees 1..6', 'programs'),
  why_tests_cant='A propagated region that is too small gives a bound that fails only far '
   'from the expansion point.',
  anchors=anch(['jax/jax_bound.py'], [('propagation', JB + ':taylor_bounds')],
               ['coefficients of the returned TaylorBounds']),
  note=JNOTE),
 dict(id='J05', title='Nested programs, constants and rewrites keep the meaning of f',
  statement='Functions containing jitted or nested calls, shared or unused results, closed '
   'over constants, constant subexpressions of any primitive, and calls of the specially '
   'recognised jax.nn functions get bounds valid for the function as written; variables of '
   'different (sub)programs are never confused.',
  quantifier=inp('all values; nesting, sharing and position of the calls, enumerated and '
                 'generated; degrees 0..6',
                 'programs'),
  why_tests_cant='Variable capture and lost results need particular nesting and sharing.',
  anchors=anch(['jax/jax_bound.py', 'jax/jaxpr_editor.py'],
               [('rewriting', JB + ':_rewrite_jaxpr'), ('inlining and constants',
                JB + ':taylor_bounds'), ('pattern replacement', JE + ':replace')],
               ['coefficients of the returned TaylorBounds']),
  note=JNOTE),
 dict(id='J06', title='jax.nn functions written in any supported way are recognised',
  statement='Every call of the jax.nn functions with a dedicated rule (sigmoid, softplus, '
   'swish/silu) is bounded through that rule wherever it appears in the program: applied '
   'to constants or variables, inside expressions, repeated, or nested.',
  quantifier=inp('positions, arguments and wrappings of the call', 'programs'),
  why_tests_cant='An unrecognised call is bounded through its parts: valid but looser or '
   'rejected, depending on the surrounding program.',
  anchors=anch(['jax/jax_bound.py', 'jax/jaxpr_editor.py'],
               [('rules', JB + ':_rewrite_jaxpr')], ['the primitive used']),
  note=JNOTE),
 dict(id='J07', title='Registration and earlier calls never leak into other bounds',
  statement='Registering an elementwise primitive makes it boundable with exactly the given '
   'enclosure, replaces an older registration, and leaves other primitives alone. Bounding '
   'a function gives the same result whatever was bounded before, including failed calls '
   'and interleaved bound functions.',
  quantifier=inp('sequences of registrations and calls', 'histories'),
  why_tests_cant='Each test runs one history.',
  anchors=anch(['jax/jax_bound.py'], [('registry', JB +
               ':register_elementwise_primitive'), ('propagation', JB + ':taylor_bounds')],
               ['the bounds returned'],
               [('rule tables', 'primitive -> enclosure rule', JB +
                 ':_ELEMENTWISE_PRIMITIVE_ENCLOSURES')]),
  note=JNOTE),
 dict(id='J08', title='taylor_bounds honours max_degree; low-order terms are exact',
  statement='The bounds have at most max_degree + 1 coefficients, and every coefficient '
   'below the last is the exact Taylor coefficient of the function rather than an interval '
   'whenever the function is smooth; polynomials of degree at most max_degree built from '
   'exact operations come back without interval terms.',
  quantifier=inp('all values; degrees 0..6', 'programs'),
  why_tests_cant='Interval low-order terms are valid and pass containment tests.',
  anchors=anch(['jax/jax_bound.py', 'enclosure_arithmetic.py'],
               [('propagation', JB + ':taylor_bounds')],
               ['structure of the coefficients']),
  note=JNOTE),
 dict(id='G01', title='Pattern matching finds exactly the consistent bindings',
  statement='Matching an operation or sequence of operations against a pattern succeeds '
   'exactly when labels agree and there is one consistent assignment of pattern variables '
   'to subject variables allowed by the binding predicate, and returns that assignment.',
  quantifier=inp('all equality patterns among variables for operations of up to 3 inputs '
                 'and outputs'),
  why_tests_cant='Tests list a few patterns.',
  anchors=anch(['graph_editor.py'], [('match', GE + ':match')], ['returned mapping']),
  technique='abstract interpretation with exhaustive enumeration of equality patterns',
  note=GNOTE),
 dict(id='G02', title='Graph rewriting preserves what the graph computes',
  statement='Replacing occurrences of a pattern by an equivalent replacement leaves every '
   'output of the computation graph unchanged in value: no value used outside the '
   'occurrence is lost, every operation is defined before use, new intermediates are '
   'distinct, and occurrences that can be replaced safely are replaced.',
  quantifier=inp('all subject graphs of up to 3 operations over the pattern alphabets, '
                 'chosen outputs, and larger structured ones'),
  why_tests_cant='Capture and lost definitions depend on the arrangement of operations.',
  anchors=anch(['graph_editor.py'], [('replace', GE + ':replace'),
               ('operations', GE + ':Operation')], ['the rewritten graph']),
  technique='abstract interpretation over exhaustively enumerated graphs with symbolic '
            'values',
  note=GNOTE),
 dict(id='G03', title='Jaxpr pattern replacement is sound for every jaxpr',
  statement='Replacing pattern functions inside a jaxpr (with jit calls, constants, literals '
   'and shared sub-jaxprs) returns a jaxpr of equal meaning; occurrences equal up to '
   'renaming of variables are found; malformed patterns are rejected.',
  quantifier=inp('enumerated jaxprs: nesting, literals, shapes, constants, variable '
                 'numbering, repeated occurrences; bodies of up to 8 operations with every '
                 'small change; every parameter and literal position'),
  why_tests_cant='Tests replace a few fixed patterns.',
  anchors=anch(['jax/jaxpr_editor.py', 'graph_editor.py'],
               [('replace', JE + ':replace'), ('equivalence',
                JE + ':_same_jaxpr_up_to_variable_renaming')], ['the rewritten jaxpr']),
  technique='abstract interpretation over enumerated jaxprs with symbolic values',
  note=GNOTE),
 dict(id='X01', title='The numeric core only uses the numpy-like interface it is given',
  statement='Interval, enclosure, polynomial and elementwise code works with any backend '
   'implementing the documented numpy-like interface: it uses no other function of the '
   'backend, no concrete array library, no in-place array writes and no array methods '
   'outside the interface.',
  quantifier=inp('every execution path of the numeric core on the abstract states'),
  why_tests_cant='The test backends (numpy, jax, tensorflow) share many extra names; a '
   'path using one is not exercised on each of them.',
  anchors=anch(['types.py', 'interval_arithmetic.py', 'enclosure_arithmetic.py',
                'polynomials.py', 'primitive_enclosures.py', 'elementwise_functions.py'],
               [('NumpyLike', 'autobound/types.py:NumpyLike')], ['backend calls made']),
  technique='effect analysis by abstract interpretation',
  note=BASE),
 dict(id='X02', title='No function modifies its arguments or earlier results',
  statement='No public operation changes an array, tuple, list or enclosure passed to it or '
   'returned earlier, and calling it again with the same arguments gives the same result.',
  quantifier=inp('every execution path on the abstract states', 'histories'),
  why_tests_cant='Aliasing shows only when the caller reuses the argument afterwards.',
  anchors=anch(['interval_arithmetic.py', 'enclosure_arithmetic.py', 'polynomials.py',
                'primitive_enclosures.py', 'elementwise_functions.py'],
               [('all public functions', IA)], ['argument arrays after the call']),
  technique='effect and alias analysis by abstract interpretation',
  note=BASE),
 dict(id='X03', title='Bounds can be computed under jit/vmap: no value-dependent control flow',
  statement='Computing enclosures or bounds never converts an array value that depends on '
   'the inputs to a Python number or boolean, so it can be traced by jit, vmap and grad.',
  quantifier=inp('every execution path on the abstract states', 'programs'),
  why_tests_cant='Tests jit a few functions; a value-dependent branch in one case of one '
   'function is not traced.',
  anchors=anch(['interval_arithmetic.py', 'enclosure_arithmetic.py',
                'primitive_enclosures.py', 'elementwise_functions.py', 'jax/jax_bound.py'],
               [('all numeric code', IA)], ['truth tests and conversions of arrays']),
  technique='dependence (traceability) analysis by abstract interpretation',
  note=BASE),
]

NA = [
 dict(id='N01', title='Bounds hold in floating point despite rounding',
  statement='The returned bounds hold for the values computed in floating point, not only '
   'in exact real arithmetic.',
  quantifier=inp('all inputs in float32/float64'),
  why_tests_cant='Tests use tolerances.',
  anchors=anch(['interval_arithmetic.py', 'primitive_enclosures.py'],
               [('no outward rounding', IA)]),
  reason='The code performs no outward rounding; a bound on accumulated rounding error '
   'quantifies over run-time magnitudes no static argument in reach can bound, and the '
   'guarantee does not hold in floating point by design.'),
 dict(id='N02', title='Remainder ratios stay valid for expansion points next to an end point',
  statement='Enclosures stay valid when an end point of the trust region is within about '
   '1e-12 (to the power 1/degree) of the expansion point without being equal to it.',
  quantifier=inp('all regions with an end point very close to the expansion point'),
  why_tests_cant='Tests use well separated points.',
  anchors=anch(['primitive_enclosures.py'], [('capped denominator',
               PEN + ':taylor_remainder_ratio')]),
  reason='The source documents that capping 1/denominator at 1e12 gives up strict validity '
   'there; whether the resulting bound holds depends on run-time magnitudes.  The analysis '
   'covers regions where the end points equal the expansion point or are separated from it.'),
 dict(id='N03', title='Bounds cost a bounded multiple of evaluating the function',
  statement='Computing bounds needs time and memory proportional to evaluating the '
   'function and its derivatives of the requested degree.',
  quantifier=inp('all functions and degrees', 'programs'),
  why_tests_cant='Tests do not measure cost.',
  anchors=anch(['jax/jax_bound.py'], [('propagation', 'autobound/jax/jax_bound.py')]),
  reason='A performance property of compiled XLA programs; not decidable from this source.'),
]
