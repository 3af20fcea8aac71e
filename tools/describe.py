"""Writes properties.jsonl and MANIFEST.json from the descriptions below (run by hand after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BV, SMT, Z3, UT, ABC = ('hwtypes/bit_vector.py', 'hwtypes/smt_bit_vector.py', 'hwtypes/z3_bit_vector.py',
                        'hwtypes/bit_vector_util.py', 'hwtypes/bit_vector_abc.py')
SI, SU = 'hwtypes/smt_int.py', 'hwtypes/smt_utils.py'
FP, FPA, SFP = 'hwtypes/fp_vector.py', 'hwtypes/fp_vector_abc.py', 'hwtypes/smt_fp_vector.py'
UTIL = 'hwtypes/util.py'
ADT, META, ADTU, MOD = 'hwtypes/adt.py', 'hwtypes/adt_meta.py', 'hwtypes/adt_util.py', 'hwtypes/modifiers.py'

P = []


def p(pid, title, statement, over, text, why, files, mech, note, level='model_checking', na=None):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, level=level, na=na))


SAMPLE = 'the tests draw a few dozen random operands at a few widths; corner operands (zero, one, sign bit, all ones, ' \
         'amounts beyond the width) at each width are met only by luck'
STD = 'every path of the real methods is executed symbolically and every check decided by z3 for all values at each listed ' \
      'width; counterexamples and one input per path are run on the untouched code; trusted: z3, the value proxies'

p('C01', 'Vector addition, subtraction, multiplication and negation are modular',
  'For vectors of any width w, sum, difference, product, negation and complement equal the integer result modulo 2**w, have '
  'the type of the left operand, and leave the operands unchanged.  Methods and operators agree, and plain integers count '
  'modulo 2**w.', ['inputs', 'configurations'], 'every operand value, every width, unsigned/signed/plain vectors',
  SAMPLE, [BV], [('bvadd, bvsub, bvmul, bvneg, bvnot and their operators', BV)], STD)
p('C02', 'Bitwise operations act on each bit independently',
  'And, or, xor and their negated forms give, at every bit position, the boolean operation on the operand bits, as a vector '
  'of the left operand\'s type.', ['inputs', 'configurations'], 'every operand value, every width', SAMPLE,
  [BV, ABC], [('bvand, bvor, bvxor and derived nand/nor/xnor', BV)], STD)
p('C03', 'Unsigned division and remainder follow the SMT-LIB convention',
  'Unsigned quotient and remainder are those of the unsigned readings; dividing by zero gives all ones and the remainder is the '
  'dividend.', ['inputs', 'configurations'], 'every operand pair including zero divisors, every width', SAMPLE, [BV],
  [('bvudiv, bvurem, // and %', BV)], STD)
p('C04', 'Signed division rounds down and its remainder matches',
  'For signed vectors the quotient is the floor of the quotient of the two\'s complement readings modulo 2**w and the remainder '
  'satisfies a = q*b + r with the sign of the divisor; dividing by zero gives all ones and the dividend.',
  ['inputs', 'configurations'], 'every operand pair including the overflowing minimum by minus one, every width', SAMPLE, [BV],
  [('bvsdiv, bvsrem, operators of the signed type', BV)], STD)
p('C05', 'Shifts and rotations behave for every amount',
  'Left, logical right and arithmetic right shifts by any amount, also beyond the width, give the truncated, zero filled or '
  'sign filled result; rotations by any amount equal rotation by the amount modulo the width.  The shift operator of signed '
  'vectors is the arithmetic one.', ['inputs', 'configurations'], 'every value and every amount representable in the width',
  'random amounts below the width dominate the tests; huge amounts at large widths are not tried', [BV],
  [('bvshl, bvlshr, bvashr, bvrol, bvror', BV)], STD)
p('C06', 'Comparisons agree with the integer readings',
  'Equality and the four orders agree with the unsigned readings, their signed forms with the two\'s complement readings; '
  'operators of signed vectors are the signed forms; each result is a single bit.', ['inputs', 'configurations'],
  'every operand pair, every width', SAMPLE, [BV, ABC], [('bveq, bvult, bvslt and derived comparisons', BV)], STD)
p('C07', 'Construction and conversion of vectors preserve the bits',
  'A vector built from an integer, bits, a list or another vector holds that value modulo 2**w, and reading it back as '
  'unsigned, signed, bit list, truth value or text gives the same value.  Building without a width picks the least width that '
  'holds the magnitude; other objects are refused.', ['inputs', 'configurations'], 'every value, source form, width',
  'round trips are tested on samples of a few forms; truncation, sign and width corners are not covered', [BV, ABC],
  [('constructor, as_uint, as_sint, bits, texts', BV), ('implicit sizing', ABC)], STD)
p('C08', 'Indexing, slicing and bit assignment follow Python sequence rules',
  'Reading index i or a slice yields exactly the bits a Python list of the bits would; assigning a bit changes that bit and no '
  'other.  Out of range indices and values that are no bits are rejected without changing the vector.',
  ['inputs', 'configurations'], 'every value, index, slice bound and step', 'tests use a handful of in-range slices', [BV],
  [('__getitem__, __setitem__', BV)], STD)
p('C09', 'Concatenation, extension and repetition place every bit',
  'Concatenating puts the second operand above the first, extension keeps the value (zero or sign as the type says), repeating '
  'places n copies; the result width is exact and impossible counts are refused.', ['inputs', 'configurations'],
  'every value, width pair and count', SAMPLE, [BV], [('concat, zext, sext, ext, repeat', BV)], STD)
p('C10', 'Add with carry and the overflow predicate are exact',
  'Adding with carry returns the low bits of the true sum and the carry out as its top bit; the overflow predicate is true '
  'exactly when the signed sum leaves the range.', ['inputs', 'configurations'], 'every operand pair, carry, width', SAMPLE, [BV],
  [('adc, overflow', BV)], STD)
p('C11', 'Mixed operands are coerced or refused, never silently misread',
  'A plain integer, bool, bit or bit list on either side of an operator means the same vector value; the left vector decides '
  'type and meaning for mixed signedness.  Different widths are always refused with the size error and non-numbers with a type '
  'error.', ['inputs', 'configurations'], 'every operation, operand form, side and width pair',
  'reflected operators and refusals are tested for a few operators only', [BV],
  [('bv_cast, dispatch_oper, dispatch_roper', BV)], STD)
p('C12', 'Choosing between values yields the chosen branch',
  'Selecting with a bit or a vector condition (true iff non-zero) returns the chosen branch\'s value with the branches\' type, '
  'recursively through tuples and through user types offering the bit-vector protocol; branches of different shape are refused.',
  ['inputs', 'programs'], 'every condition, value and nested branch shape', 'tests use constant conditions on few shapes',
  [BV, UT], [('build_ite, push_ite, coerce_branch', UT)], STD)
p('C13', 'A choice between signed and unsigned behaves like the chosen one',
  'After choosing between a signed and an unsigned vector, comparison, right shift and extension on the result act as the chosen '
  'vector\'s own operations would, also for choices between choices.', ['inputs', 'programs'],
  'every condition, value, order of the kinds, nested choices', 'tests fix a few values at width 8', [UT, BV],
  [('PolyVector, build_VCall', UT)], STD)
p('C14', 'Single bits form the two-valued algebra',
  'And, or, xor, equality, inequality and inversion of bits follow the truth tables with bits, bools or 0/1 on either side; '
  'other numbers and objects are refused.', ['inputs'], 'every bit value and operand form',
  'the tables are tested, refusals and reflected forms are not', [BV], [('Bit, bit_cast', BV)], STD)
p('C15', 'Operations never share state with their operands; equal means equal hash',
  'Changing a result in place never changes an operand and the other way round, for every operation.  Vectors of one type are '
  'equal exactly when their values are, and equal ones have equal hashes, also after in-place changes.',
  ['inputs', 'histories'], 'every operation, value and changed bit', 'tests never modify results and re-read operands', [BV],
  [('constructors copy the value; __setitem__ rebinds it', BV)], STD)
p('C16', 'Any sequence of vector operations matches the same sequence on integers',
  'After any history of operations, copies, aliases and in-place bit changes on several variables, every variable holds what '
  'the same history on mathematical integers gives.', ['histories', 'inputs'],
  'every sequence of the listed operations up to the bound, every operand choice and value',
  'tests apply single operations to fresh vectors', [BV], [('value semantics of BitVector', BV)], STD)

STDS = STD + '; pysmt terms are read through pysmt\'s own z3 converter'
p('S01', 'Symbolic vectors: arithmetic and logic denote the SMT-LIB operations',
  'Terms built from symbolic vectors by arithmetic, bitwise and division operations and their operators evaluate, under every '
  'assignment, to the modular result, with SMT-LIB division (signed division rounding towards zero); type and width follow the '
  'left operand.', ['inputs', 'configurations'], 'every assignment of the variables, every constant, width, kind',
  'tests solve for a few random constants', [SMT], [('bvadd ... bvsrem, operators', SMT)], STDS)
p('S02', 'Symbolic vectors: shifts, rotations and comparisons denote the right functions',
  'Shifts by any amount, rotations by integers and all comparisons of symbolic vectors evaluate under every assignment to the '
  'reference result; signed kinds use the signed operators.', ['inputs', 'configurations'],
  'every assignment, amount, width, kind', 'tests solve for a few random constants', [SMT],
  [('bvshl ... bvror, comparisons', SMT)], STDS)
p('S03', 'Symbolic vectors: structure operations place every bit',
  'Index, slice, bit assignment, concatenation, extension and repetition of symbolic vectors denote exactly the selected or '
  'placed bits, with Python index rules and exact widths.', ['inputs', 'configurations'], 'every assignment, index, bound, count',
  'tests index random constants', [SMT], [('__getitem__, __setitem__, concat, ext, repeat', SMT)], STDS)
p('S04', 'Symbolic vectors: constants and conversions denote the given value',
  'A symbolic-backend vector built from an integer (also negative or too large), bits, lists, terms or other vectors denotes that '
  'value modulo 2**w; terms of another sort are refused, and a symbolic truth value never turns into a native one.',
  ['inputs', 'configurations'], 'every value, source form and width', 'tests use small constants in range', [SMT],
  [('constructors', SMT)], STDS)
p('S05', 'Symbolic bits, choices and carries denote the right functions',
  'Bit operations follow the truth tables, choices (nested, with vector conditions, between signed and unsigned) denote the '
  'chosen branch and behave like it, and add with carry is exact, under every assignment.', ['inputs', 'programs'],
  'every assignment, branch shape, width', 'tests check single constants or only types', [SMT, UT],
  [('SMTBit, ite, adc', SMT), ('build_ite, PolyVector', UT)], STDS)
p('S06', 'A fresh symbolic variable never captures a live one',
  'However variables were created, named and dropped before, a variable created without a name gets a name no live variable has, '
  'automatic names are not handed out twice, and asking for a live name is refused.', ['histories'],
  'every history of automatic, prefixed and named creations and drops', 'one scripted history is tested', [SMT, SI],
  [('_gen_name, _name_table', SMT)], STDS)
p('S07', 'Substitution replaces variables simultaneously and nothing else',
  'Substituting terms for variables yields the formula\'s value at the replacements, for several variables at once including '
  'swaps; variables not mentioned stay, and so does the type.  Replacements of another sort or size are refused, and later '
  'substitutions mean what they would have meant without.', ['programs', 'inputs'], 'every assignment, formula and replacement templates',
  'one example is tested', [SMT], [('substitute', SMT)], STDS)
p('S08', 'Unbounded symbolic integers agree with mathematical integers',
  'Arithmetic, floor division and comparison of symbolic integers, with integers on either side, denote the mathematical result; '
  'unsigned and signed integer readings of vectors denote the readings.', ['inputs', 'configurations'],
  'every integer assignment, divisor in the bound, vector value', 'tests check some concrete positive values', [SI, SMT],
  [('SMTInt operators', SI), ('as_uint, as_sint', SMT)], STDS)
p('S09', 'Formula builders denote their logical reading',
  'Conjunction, disjunction and implication builders, nested arbitrarily and with empty lists, convert to the bit with exactly '
  'that truth function, and to text that names every operand in its place; operands that are no bits are refused.', ['programs', 'inputs'], 'every assignment and formula shape '
  'in the bound', 'a few formulas are tested for one assignment', [SU], [('And, Or, Implies', SU)], STDS)
p('S10', 'Symbolic vectors: mixed operands are coerced or refused',
  'Integers, bools, bits and concrete vectors on either side of an operator mean the corresponding vector; other widths, also of '
  'concrete vectors, are refused with the size error and non-numbers with a type error, for every operation.  Symbolic choices '
  'refuse concrete branches, and operations after a refusal mean what they mean before.', ['inputs', 'configurations'],
  'every operation, operand form, side and width pair', 'reflected operators are hardly tested', [SMT],
  [('bv_cast, dispatch_oper, dispatch_roper', SMT)], STDS)
p('S11', 'Symbolic vectors: results never share state',
  'A vector returned by any operation, conversion or constant constructor is its own object: assigning one of its bits changes '
  'neither the operands nor the same result computed or the same constant made later, and assigning bits of the operands '
  'leaves earlier results alone.', ['inputs', 'histories'], 'every operation, changed bit, value, width and kind',
  'the tests never assign a bit of a symbolic result and look at its operands', [SMT],
  [('__setitem__, constructors, make_constant and every operation', SMT)], STDS)

p('Z01', 'z3 vectors: arithmetic, logic, shifts and comparisons denote the right functions',
  'Terms built from z3-backed vectors evaluate under every assignment to the reference result of the operation, with the left '
  'operand\'s type; signed quotients round towards zero and remainders match them (SMT-LIB).',
  ['inputs', 'configurations'], 'every assignment, constant, width, kind', 'tests compare a few random constants', [Z3],
  [('bvadd ... bvsge', Z3)], STD)
p('Z02', 'z3 vectors: structure operations place every bit',
  'Index, slice, bit assignment, concatenation, extension and repetition of z3-backed vectors denote exactly the selected or placed '
  'bits, with Python index rules and exact widths.', ['inputs', 'configurations'], 'every assignment, index, bound, count',
  'tests index random constants', [Z3], [('__getitem__, __setitem__, concat, ext, repeat', Z3)], STD)
p('Z03', 'z3 vectors: constants and conversions denote the given value',
  'A z3-backed vector built from an integer, bits, lists, terms or other vectors denotes that value modulo 2**w; terms of another '
  'width are refused.', ['inputs', 'configurations'], 'every value, source form, width', 'tests use small constants', [Z3],
  [('constructors', Z3)], STD)
p('Z04', 'z3 bits, choices, carries and operand coercion are exact',
  'Bit operations follow the truth tables, choices denote the chosen branch, add with carry is exact, and operands of other widths '
  'or other sorts are refused.', ['inputs', 'programs'], 'every assignment, branch, width, operand form', 'hardly tested', [Z3],
  [('z3Bit, ite, adc, _coerce', Z3)], STD)

p('Z05', 'z3 vectors: results never share state',
  'A vector returned by any operation, conversion or constant constructor is its own object: assigning one of its bits changes '
  'neither the operands nor the same result computed or the same constant made later, and assigning bits of the operands '
  'leaves earlier results alone.', ['inputs', 'histories'], 'every operation, changed bit, value, width and kind',
  'the tests never assign a bit of a z3 result and look at its operands', [Z3],
  [('__setitem__, constructors, make_constant and every operation', Z3)], STD)
p('Z06', 'A fresh z3 variable is none of the earlier ones',
  'A bit or vector created without a name gets a variable that no live variable has, also one explicitly given a name of the automatic '
  'form, and that was never given out before.  An explicit name is taken as given; one in use is refused and stays with its owner; a '
  'name and a value together, or a name that is no string, are refused.', ['histories'],
  'every history of creations and deletions in the bound', 'no test creates more than a handful of z3 variables', [Z3],
  [('_gen_name and the constructors of z3Bit, z3BitVector', Z3)], STD)

p('X01', 'All backends compute the same function',
  'The same program over vectors, evaluated concretely and as symbolic terms of either solver backend, gives the same value for '
  'every input.', ['programs', 'inputs'], 'every program of the bounded grammar and every operand value',
  'tests compare backends on single operations with random constants', [BV, SMT, Z3],
  [('parallel implementations of one interface', BV)], STDS)

p('X02', 'Symbolic values are never silently decided',
  'Asking for the truth of a symbolic bit, vector, integer or float, directly or through not, and, or, if, membership, sorting or '
  'comparison of containers, is refused for every value including constants; records holding symbolic values compare to the right '
  'answer, to a term of it, or are refused.', ['inputs', 'programs'], 'every value, width, kind, way of asking and record shape in the bound',
  'a wrong answer only shows when the other branch would have been right; one test asks one fresh bit', [SMT, Z3, SI, SFP, ADT],
  [('__bool__ of symbolic values', SMT), ('__eq__ of records', ADT)], STDS)

p('B01', 'Operations derived by the abstract vector interface match their names',
  'The operations AbstractBitVector and AbstractBit derive from primitive ones (nand, nor, xnor, not equal, and the unsigned and signed '
  'less-or-equal, greater and greater-or-equal) denote the named function for every backend, called on the abstract class or inherited '
  'by a backend that does not define them, with the type of the primitive operations and unchanged operands.', ['inputs'],
  'every pair of operand values at every width in the bound', 'every backend of the repository overrides most of them, so no test reaches them',
  [ABC], [('AbstractBitVector.bvnand, bvule, bvsge, ...; AbstractBit.__ne__', ABC)], STD)

STDF = STD + '; gmpy2/MPFR is replaced by a model on z3 floating-point terms (vf/fpmodel.py), trusted for the encoding and checked by ' \
    'replaying one input per path on the real library'
p('F01', 'Floating-point arithmetic rounds the exact result once, by the type\'s mode',
  'Sum, difference, product, quotient, square root, fused multiply-add, IEEE remainder and rounding to integral of FPVector values equal '
  'the exact result rounded once with the type\'s mode to the type\'s format, including infinities, NaN, signed zeros and subnormals '
  '(types without IEEE compliance have no subnormals and no NaN: infinity instead).  Methods and operators agree, operands and the '
  'caller\'s gmpy2 context are left alone, and the same operands always give the same result.', ['inputs', 'configurations', 'histories'],
  'every pair (triple) of values of a small format, every mode and kind of type, under different ambient gmpy2 contexts',
  'tests draw random operands, which rarely are subnormal, special or ties, under the default context', [FP],
  [('set_context, the arithmetic methods, context parameters in __init_subclass__', FP)], STDF)
p('F02', 'Bit patterns and floating-point values correspond',
  'reinterpret_from_bv gives exactly the value the format assigns to each bit pattern and reinterpret_as_bv its inverse: every '
  'pattern round trips (NaN to some NaN pattern, the same one for the same value; without IEEE compliance NaN becomes infinity and '
  'subnormals zero).  Patterns of another width are refused.', ['inputs', 'configurations'], 'every bit pattern of every listed format',
  'tests round trip random finite values of two formats', [FP], [('reinterpret_as_bv, reinterpret_from_bv', FP)], STDF)
p('F03', 'Floating-point classification, comparison, minimum and sign follow IEEE 754',
  'Exactly one of normal, subnormal, zero, infinite and NaN holds, sign tests, absolute value and negation follow IEEE 754; '
  'comparisons are those of the values with NaN unordered and zeros equal; minimum and maximum return the other operand for NaN.',
  ['inputs', 'configurations'], 'every value and pair of values of small formats', 'tests draw random finite operands', [FP],
  [('fp_is_..., comparisons, fp_abs, fp_neg, fp_min, fp_max', FP)], STDF)
p('F04', 'Conversions into and out of floating point round once, by the type\'s mode',
  'An FPVector built from a float, integer, bool, vector, fraction, numeral or FPVector of another format is the exact value rounded '
  'once by the type\'s mode; converting to integers rounds by the mode and keeps the low bits, float() is exact.  Other objects are '
  'refused, operations coerce plain numbers and refuse values of another format.', ['inputs', 'configurations'],
  'every float, every listed integer and vector, every value of other formats, every mode', 'tests use a few numerals and random floats',
  [FP], [('FPVector constructor, fp_cast, to_ubv, to_sbv, __float__', FP)], STDF)
p('F05', 'Symbolic floating-point formulas are sound for the real operations',
  'Every SMTFPVector operation is an uninterpreted function of its operands\' bits which FPVector of the same format satisfies: '
  'formulas never imply anything FPVector contradicts, also across formats and derived classes.  Equal operands give equal '
  'results, operators are the methods, bits and values convert unchanged, operands of other formats, sizes or kinds are refused.',
  ['inputs', 'programs', 'configurations'], 'every value (pair of values) of small formats, pairs of formats and derived classes',
  'tests only check result types of ten operators', [SFP], [('_SIGS, _uf_table, _fp_method, _bit_method, to_sbv, to_ubv', SFP)],
  STD + '; pysmt terms are read through pysmt\'s own z3 converter; FPVector run on every operand is the interpretation asked about')
p('F06', 'One floating-point type per format; derived types keep it',
  'Indexing a floating-point type by exponent size, mantissa size, mode and compliance always gives the same type with exactly those '
  'parameters, whatever types exist; malformed parameters, binding twice, reserved attributes and bases of different formats are '
  'refused; derived classes keep format and operations.', ['configurations', 'histories'], 'every pair of bindings in the bound',
  'tests index a few formats', [FPA, FP, SFP], [('AbstractFPVectorMeta', FPA), ('__init_subclass__', FP)], STD)

STDT = STD + '; shapes and member types are solver choices explored path by path (type level checks are decided on each path)'
p('A01', 'Tuples and products hold exactly the values they were built from',
  'A tuple, anonymous product or product built positionally, by keyword or inferred shows each given value unchanged by index, '
  'negative index, attribute and value_dict; assigning one item changes that item of that instance only; a copy is an equal instance of its own.  Values of another type, '
  'wrong counts and unknown or reserved names are refused with nothing changed; the type lists its fields in order, equal '
  'definitions give one type, and a product is a subtype of its anonymous product and tuple.  What is no field in a class body (names '
  'like _x_ or __x__, functions, values which are no types) stays an attribute.', ['inputs', 'programs'],
  'every shape in the bound and every field value', 'tests use a few fixed types over two-member enums', [ADT, META],
  [('Tuple, AnonymousProduct, Product', ADT), ('type construction and caches', META)], STDT)
p('A02', 'Sums and tagged unions hold one member and show only that one',
  'A sum or tagged union shows exactly the active member as matching, with the given value; reading another member\'s value, '
  'values of no member, unknown tags and wrong counts are refused.  Assigning a member or tag switches to it; tags with equal types '
  'stay apart; the order of members does not change the type.', ['inputs', 'histories'],
  'every shape in the bound, active member, next member and value', 'tests use a few fixed types over enums', [ADT, META],
  [('Sum, TaggedUnion, Match', ADT)], STDT)
p('A03', 'Value dictionaries round trip',
  'from_values(value_dict) rebuilds every value of every kind of type, whatever the order of the keys; missing, extra or foreign keys, '
  'values of another type and sums with no or several values are refused.', ['inputs', 'programs'],
  'every shape in the bound and every value', 'round trips are tested on a few constants', [ADT],
  [('value_dict, from_values, _from_kwargs', ADT)], STDT)
p('A04', 'Enumeration yields every value of a finite type once',
  'Enumerating a type over enums yields each of its values exactly once and nothing else; vectors and bits among the fields stand for their zero; enums list their members in order, and '
  'members are compared by value within one enum and never equal those of another.', ['configurations'],
  'every shape in the bound, enum size and member values', 'tests enumerate fixed types', [META, ADT],
  [('enumerate', META), ('Enum', ADT)], STDT)
p('A05', 'Equality of algebraic values is equality of their parts and agrees with hashing',
  'Two values of one type are equal exactly when they have the same active member and equal parts, inequality is the negation, equality '
  'is symmetric, equal values have equal hashes, also after assignments; a product equals the tuple of its fields.',
  ['inputs', 'histories'], 'every pair of values of every shape in the bound', 'tests compare a few constants', [ADT],
  [('__eq__, __ne__, __hash__', ADT)], STDT)
p('R01', 'Rebinding replaces exactly the matching types, everywhere',
  'rebind, rebind_bitvector, rebind_keep_modifiers and rebind_type replace every matching field type at every depth (vectors keep their '
  'width) and leave field names, order, enums and other types as they were; the original type is unchanged, and values and operations '
  'carry over to the new type.', ['programs', 'inputs'], 'every shape in the bound, every ordered pair of families, every value',
  'tests rebind a few fixed types', [ADTU, META], [('rebind_bitvector, rebind_type, rebind_keep_modifiers', ADTU), ('rebind', META)],
  STDT)
p('M01', 'Modifiers mark types without changing their behaviour',
  'Applying a modifier gives one distinct subtype per type and modifier; it can be recognised, unwrapped, stripped at every level, '
  'pushed to the leaves and kept under rebinding, exactly; values of modified types compute and read as those of the plain type and '
  'keep the modified type.', ['programs', 'inputs'], 'every stack and placement of modifiers in the bound, every value',
  'tests use fixed stacks and do not check the result of pushing', [MOD, ADTU],
  [('make_modifier, unwrap, wrap, strip, push', MOD), ('keep_modifiers', ADTU)], STDT)
p('V01', 'Visitors reach every part of a type or value exactly once',
  'Visiting a type reaches each member at every depth once, in order, under the method of its kind; visiting a value reaches the parts it '
  'holds and no inactive member.', ['programs', 'inputs'], 'every shape in the bound, every value', 'two fixed shapes are tested',
  [ADTU], [('_ADTVisitor, ADTVisitor, ADTInstVisitor', ADTU)], STDT)
p('T01', 'Sized vector types: one type per base and width',
  'Indexing a vector type by a width always gives the same type, of that size and base; X[n] is a subtype of Y[m] exactly when X is of '
  'Y and n equals m; sized types refuse resizing, negative and non-integer widths are refused, and user subclasses keep size and family.',
  ['configurations', 'inputs'], 'every pair of bases and widths in the bound', 'tests check a few widths', [ABC],
  [('AbstractBitVectorMeta', ABC)], STDT)

p('G01', 'Random values stay in range and every value can be drawn',
  'Whatever the source of randomness returns, a random bit or vector is a value of the requested type and width, and every value (every '
  'pair of values in two draws) comes up for some outcome; random floating-point numbers are normal numbers of the type, finite when '
  'infinities are excluded, and every normal number can come up.', ['inputs', 'configurations'],
  'every outcome of the random source, every target value, width, format',
  'a test draws a few numbers and can neither show the range nor that nothing is missing', [BV, FP],
  [('random of Bit, BitVector, UIntVector, SIntVector', BV), ('FPVector.random', FP)],
  'the functions drawing random numbers are replaced by arbitrary values; that every value can be drawn is a formula with the draws '
  'existentially quantified; ' + STD)
p('U01', 'Frozen mappings and typed properties keep their contract',
  'Frozen dictionaries hold exactly the entries they were built from, cannot be changed, compare as mappings (in order when both are '
  'ordered), and equal ones have equal hashes.  A typed property shows its type on the class, accepts only values of it and leaves '
  'everything unchanged when it refuses.', ['histories', 'inputs'], 'every history of entries or assignments in the bound, every value',
  'tests use single examples and never compare the two kinds of dictionaries', [UTIL],
  [('FrozenDict, OrderedFrozenDict', UTIL), ('TypedProperty', UTIL)], STDT)


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(dict(
                id=x['id'], title=x['title'], statement=x['statement'],
                quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                anchors=dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mech']]))) + '\n')
    checks, na = [], []
    for x in P:
        if x['na']:
            na.append(dict(property=x['id'], reason=x['na']))
            continue
        cmd = f'{PY} -m vf.run {x["id"]} --tier '
        checks.append(dict(property=x['id'], quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
                           technique='symbolic execution of the source, decided by z3', level=x['level'], level_note=x['note']))
    json.dump(dict(version=1, setup_cmd=f'{PY} -m vf.selftest', checks=checks, not_applicable=na,
                   notes='see DESIGN.md; KNOWN_FINDINGS lists recorded defects'),
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
