#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
CONF = ' and every build configuration of the instruction sets the library selects at compile time (SSE2 to AVX2+FMA, compiler choice, optimisation level)'
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=['dpm/' + f for f in files], mechanism=[dict(name=n, where='dpm/' + w) for n, w in mech], observe_at=observe, hook_needed=None)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

G, X = 'detail/generic/type.hpp', 'detail/x86/type.hpp'
p('C01', 'Vector arithmetic equals scalar arithmetic in every lane',
  'For every element type and every vector layout, +, -, *, /, %, unary + and -, ++ and --, their compound forms and their forms with one broadcast scalar give, in each lane, exactly what the scalar operator gives on that lane\'s operands (integers modulo 2^bits, floats with IEEE rounding), whatever the other lanes and the padding of the storage hold. The operands are changed only by the operators that assign, and an operation on valid lanes never traps.',
  ['inputs', 'configurations'], 'all element values of all 10 arithmetic types, all ABIs (scalar, packed, full/partial/multiple native vectors)' + CONF,
  'the tests apply each operator to one fixed value set per type and to two or three ABIs; 8-bit multiplication, 64-bit multiplication, division, vectors with a partial tail and scalar operands have separate code paths per instruction set that the samples do not reach',
  [G, X, 'detail/x86/addsub.hpp', 'detail/x86/muldiv.hpp'], [('generic lane loops', G), ('x86 overloads with emulated 8/64-bit multiplication', 'detail/x86/muldiv.hpp')], ['elements read back with operator[] and copy_to'])
p('C02', 'Bitwise operations and shifts act on each lane alone',
  'For every integer element type and layout, &, |, ^, ~, << and >> (by vector, by scalar, compound forms) and the constant logical/arithmetic shift functions give in each lane exactly the scalar result for that lane\'s value and shift amount, for every amount from 0 to width-1. Signed right shifts copy the sign bit, logical ones shift in zeros, and no bit moves between lanes.',
  ['inputs', 'configurations'], 'all integer types, all values, all valid shift amounts, all ABIs' + CONF,
  'shifts of 8- and 64-bit elements and variable shifts are emulated differently on every instruction set; tests use a few amounts',
  [G, X, 'detail/x86/bitwise.hpp'], [('emulated shifts', 'detail/x86/bitwise.hpp'), ('operator<< and >>', X)], ['elements'])
p('C03', 'Comparisons build a mask equal to the scalar comparison per lane',
  'For every element type and layout, ==, !=, <, <=, >, >= between vectors give a mask whose lane i is exactly the scalar comparison of lanes i, including signed and unsigned extremes, signed zeros, infinities and NaN (every ordered comparison with NaN false, != true). The mask agrees with itself through element access, stores, reductions and further mask operations.',
  ['inputs', 'configurations'], 'all pairs of element values, all types, all ABIs' + CONF,
  'unsigned and 64-bit comparisons are synthesised from signed/32-bit instructions on older targets, where only sign-boundary operands expose a mistake',
  [G, X, 'detail/x86/cmp.hpp'], [('synthesised comparisons', 'detail/x86/cmp.hpp')], ['mask elements, mask stores, mask reductions'])
p('C04', 'Masks behave as vectors of bool',
  'A mask of any type and layout behaves as a fixed-length array of bool under &, |, ^, ~, !, &&, ||, ==, !=, their compound forms, element reads and writes, construction from a value or a generator, and conversion between mask types and to a 0/1 or all-ones vector where offered. The laws of Boolean algebra hold lane by lane whatever the padding of the storage contains.',
  ['inputs', 'histories', 'configurations'], 'all mask values, all histories of mask operations, all types and ABIs' + CONF,
  'tests use a few hand-picked masks; inverted, merged or partially written masks with dirty padding lanes arise only from histories',
  [G, X], [('generic and x86 simd_mask', G), ('x86 simd_mask', X)], ['mask elements and stores'])
p('C05', 'Mask reductions count exactly the true lanes',
  'all_of, any_of, none_of, some_of, the number of true lanes and the index of the first and last true lane equal what a loop over the mask\'s elements gives, for every mask (for the index functions: every mask with at least one true lane), every element type and every layout. Padding lanes never influence the answer.',
  ['inputs', 'configurations'], 'all masks (exhaustively up to 10 lanes), all types, all ABIs, all padding contents' + CONF,
  'move-mask instructions yield a different number of bits per lane for each element size, and partial last vectors need masking; a test with full vectors cannot see either',
  [G, X, 'detail/x86/utility.hpp', 'detail/x86/mbase.hpp'], [('mask reductions', X), ('padding masks', 'detail/x86/transform.hpp')], ['return values'])
p('C06', 'Loads read exactly the addressed elements, converted like static_cast',
  'Constructing or filling a vector or mask from memory - with any alignment flag the address satisfies, from any source element type convertible to the element type, with or without a mask - sets each (selected) lane to the static_cast of the corresponding source element, leaves unselected lanes unchanged (when filling an existing object), and never touches memory outside the array of size() elements (outside the selected ones when masked).',
  ['inputs', 'configurations'], 'all element values, all source types, all masks, all addresses including ones adjoining an unmapped page, all ABIs' + CONF,
  'tests load from large aligned arrays, where reading past the end or with the wrong stride cannot be noticed, and sample few of the type pairs',
  [G, X, 'detail/x86/transform.hpp', 'detail/x86/cvt.hpp', 'detail/x86/utility.hpp'], [('copy_from', X), ('masked load', 'detail/x86/utility.hpp')], ['elements; accesses caught by guard pages'])
p('C07', 'Stores write exactly the addressed elements, converted like static_cast',
  'Storing a vector or mask to memory - with any alignment flag the address satisfies, to any destination element type convertible from the element type, with or without a mask - writes to each (selected) destination element the static_cast of the lane and changes no other byte of memory. Storing and loading back with the same type restores the vector exactly.',
  ['inputs', 'configurations'], 'all element values, all destination types, all masks, all destinations including ones adjoining an unmapped page, all ABIs' + CONF,
  'tests store into arrays that are exactly as large as the native vector or are overwritten later; a store of padding lanes or one lane too many goes unnoticed',
  [G, X, 'detail/x86/transform.hpp', 'detail/x86/cvt.hpp', 'detail/x86/utility.hpp'], [('copy_to', X), ('masked store', 'detail/x86/utility.hpp')], ['destination bytes, canaries and guard pages around them'])
p('C08', 'A vector is an array of its elements under any history of accesses',
  'After any sequence of broadcasts, generator constructions, element reads and writes through references (assign, compound assign, increment, swap), copies, loads, stores, masked updates and native-storage views, every element of every live vector equals the value an ordinary array would hold after the same sequence. The same holds for masks, for the memory vectors are copied to and from, and at every optimization level of the compiler. size() is the number of elements the layout declares, and constant and mutable access agree.',
  ['histories', 'configurations'], 'all operation sequences over several vectors and masks of all types and ABIs' + CONF,
  'the tests check each accessor once on a fresh object; aliasing between references, stale padding and lost writes need sequences',
  [G, X, 'utility.hpp', 'detail/alias.hpp'], [('element references', G), ('native storage views', X)], ['elements after every step'])
p('C09', 'Vector conversions equal per-lane static_cast',
  'Converting a vector or mask between element types, between layouts of the same length, and to or from the native, compatible, fixed-size and packed layouts gives, lane by lane, the static_cast of the element (for every value where that is defined), keeping order and count. Conversions that preserve the value round-trip exactly.',
  ['inputs', 'configurations'], 'all element values, all pairs of element types, all pairs of ABIs of equal length' + CONF,
  '100 type pairs times several layouts each have their own conversion; unsigned-to-float and 64-bit conversions are emulated below AVX512; the tests sample a few',
  [G, X, 'detail/x86/cvt.hpp', 'utility.hpp'], [('casts', G), ('emulated conversions', 'detail/x86/cvt.hpp')], ['elements'])
p('C10', 'Shuffle returns exactly the indexed elements',
  'For every list of compile-time indices (repeated, reversed, shorter or equal in length), every element type and every layout, a shuffle of a vector or a mask yields a result whose i-th element is the source element at the i-th index. No index pattern selects a different instruction sequence with a different result.',
  ['programs', 'inputs', 'configurations'], 'all index lists (each is a separate program), all element values, all types and ABIs' + CONF,
  'the implementation picks unpack, permute, byte-shuffle or memory code from the shape of the index list; the test suite holds a handful of lists',
  [G, X, 'detail/x86/transform.hpp'], [('shuffle dispatch', 'detail/x86/transform.hpp')], ['elements'])
p('C11', 'Blend selects each lane by its own mask lane',
  'Blending two vectors or two masks under a mask takes lane i from the first of the two exactly where mask lane i is true and from the second elsewhere, for every element type, layout and mask, including masks produced by comparisons, logic, loads and element writes, and masks whose lanes were set through their native data (every value other than zero is true). Conditional assignment and masked updates follow the same rule.',
  ['inputs', 'configurations'], 'all masks and operands, all types, all ABIs' + CONF,
  'the blend test of the repository does not even build; older targets emulate blending with bit logic that depends on canonical masks',
  [G, X, 'detail/x86/utility.hpp', 'detail/x86/bitwise.hpp'], [('blend', X)], ['elements'])
p('C12', 'Horizontal reductions combine every element exactly once',
  'Reducing a vector with +, *, &, |, ^, minimum or maximum, or with a caller\'s associative and commutative function, combines each of its elements exactly once and nothing else: integer results equal a sequential fold, floating-point results equal some bracketing of the fold (exact whenever all bracketings agree). Padding lanes never contribute.',
  ['inputs', 'configurations'], 'all element values (including identities\' edge cases: infinities, minimum and maximum values), all types, all ABIs' + CONF,
  'partial vectors are completed with identity elements chosen per operation and type; only values beyond the wrongly chosen identity reveal a mistake',
  [G, X, 'detail/x86/minmax.hpp', 'detail/x86/transform.hpp'], [('reduce', X), ('identity padding', X)], ['return values'])
p('C13', 'min, max, minmax and clamp agree with the scalar functions',
  'For every element type and layout, min, max, minmax and clamp, with vector or scalar bounds, give per lane the result of the standard scalar function on ordered operands: results are always one of the operands, min <= max, and clamp lies within its bounds. Signedness of the element type is respected at the extremes.',
  ['inputs', 'configurations'], 'all ordered operand values, all types, all ABIs' + CONF,
  'unsigned and 64-bit minima are synthesised on old targets; tests use small positive numbers',
  [G, X, 'detail/x86/minmax.hpp'], [('min/max', 'detail/x86/minmax.hpp')], ['elements'])
p('C14', 'Elementary float functions match the C++ standard functions',
  'abs, fabs, fmod, remainder, remquo, fused multiply-add and its negated/subtracting variants, fmax, fmin, fdim and lerp give per lane the result of the scalar standard function (bit-exact for the exactly specified ones, either fused or separately rounded for the multiply-add family, within a small relative bound for lerp), for all operands including zeros of both signs, subnormals, infinities and NaN. Scalar operands mean the same as a broadcast, and operands of different arithmetic types are promoted as the standard functions promote them.',
  ['inputs', 'configurations'], 'all operand values of float, double and long double and of mixed types, all ABIs' + CONF,
  'tests compare a small fixed grid of ordinary values',
  ['detail/generic/math.hpp', 'detail/x86/mbase.hpp', 'detail/x86/minmax.hpp', 'detail/x86/math.hpp'], [('generic wrappers', 'detail/generic/math.hpp'), ('x86 base math', 'detail/x86/mbase.hpp')], ['elements'])
p('C15', 'Rounding to an integral value is exact in every rounding mode',
  'ceil, floor, trunc and round return, for every float and double, exactly the integral value the standard function returns, independent of the current rounding mode, and rint and nearbyint follow the current mode. Values too large to have a fraction, infinities and NaN pass through, and the sign of zero results is kept; already integral values are fixed points. nearbyint raises no exception; rint raises the inexact exception when an element is not integral.',
  ['inputs', 'configurations'], 'all values, the four IEEE rounding modes, all ABIs' + CONF,
  'before SSE4.1 rounding is emulated through integer conversion or magic numbers, which fail only near 2^23/2^52, at halves, or under directed rounding; tests use ordinary values in the default mode',
  ['detail/x86/round.hpp', 'detail/generic/math.hpp'], [('rounding', 'detail/x86/round.hpp')], ['elements'])
p('C16', 'Rounding to integers gives the exactly rounded integer',
  'The functions that round floating-point vectors to int, long and long long vectors (nearest-even or current mode, nearest-away, toward zero, in 32- and 64-bit widths) give per lane the integer the standard scalar function gives, for every input whose result is representable, including values above 2^31, 2^52 and the ends of the integer range.',
  ['inputs', 'configurations'], 'all representable inputs, the four rounding modes for the current-mode functions, all ABIs' + CONF,
  '64-bit conversions are emulated with magic-number additions valid only on part of the range; tests use small numbers',
  ['detail/x86/round.hpp', 'detail/x86/cvt.hpp', 'detail/generic/math.hpp'], [('integer rounding', 'detail/x86/round.hpp')], ['elements'])
p('C17', 'Floating-point decomposition and composition are exact',
  'frexp, modf, logb, ilogb, ldexp, scalbn, scalbln, copysign and nextafter give per lane the standard scalar result for every input, including subnormal, zero and non-finite values and exponents beyond the representable range. Taking a value apart and putting it together again (frexp then ldexp, the two parts of modf) restores it exactly, and modf may overwrite its operand.',
  ['inputs', 'configurations'], 'all values, all exponents, all ABIs' + CONF,
  'bit manipulation of exponent fields is correct on normal numbers by construction and wrong on subnormals and specials by default; tests hold few of those, and exponents vary per lane in none',
  ['detail/x86/fmanip.hpp', 'detail/x86/frexp.cpp', 'detail/x86/modf.cpp', 'detail/x86/logb.cpp', 'detail/x86/scalbn.cpp', 'detail/x86/nextafter.cpp', 'detail/generic/math.hpp'], [('fp manipulation', 'detail/x86/fmanip.hpp')], ['elements'])
p('C18', 'Classification and quiet comparison functions are exact',
  'fpclassify, isnan, isinf, isfinite, isnormal, signbit, isunordered and the quiet comparisons give per lane exactly the scalar result for every bit pattern of float and double and every value of long double, including both zeros, all subnormals, infinities and NaNs of either sign with any payload. For every value exactly one class holds and the predicates agree with it. The quiet comparisons raise no floating-point exception for quiet NaNs.',
  ['inputs', 'configurations'], 'all bit patterns, all ABIs' + CONF,
  'each predicate is a bit trick on the exponent and mantissa fields; tests use one representative per class',
  ['detail/x86/class.hpp', 'detail/generic/math.hpp'], [('classification', 'detail/x86/class.hpp')], ['mask elements, class vectors'])
p('C19', 'Logarithms are accurate on the whole domain',
  'log, log2, log10 and log1p are accurate for every positive argument (log1p: every argument above -1), including subnormals: the error is at most 3 units in the last place of the exact value plus 2 machine epsilons (a result near zero comes from the difference of larger terms); within 0.001 of the argument with result zero, log, log10 and log1p (and log2 of floats) are within 4 units in the last place, so that tiny results keep their relative accuracy. log2 is within one unit in the last place at powers of two. log(1), log2(1), log10(1) and log1p(0) are exactly zero, zero gives minus infinity, a negative argument NaN, and infinity and NaN themselves.',
  ['inputs', 'configurations'], 'all values, all ABIs' + CONF,
  'polynomial kernels with exponent reduction are accurate at the sampled points and can lose all accuracy next to 1, at subnormals, or at reduction boundaries',
  ['detail/x86/log.cpp', 'detail/x86/log2.cpp', 'detail/x86/log10.cpp', 'detail/x86/log1p.cpp', 'detail/x86/logb.cpp', 'detail/x86/exp.hpp', 'detail/generic/math.hpp'], [('log kernels', 'detail/x86/log2.cpp')], ['elements against a higher-precision reference'])
p('C20', 'Sine, cosine and tangent are accurate and mutually consistent',
  'sin and cos are within 2 machine epsilons of the exact value for every finite argument of either sign, in every octant and of any magnitude (including arguments beyond the range of the vectorised argument reduction), and within a few units in the last place for arguments of magnitude up to pi/4; tan is within a bound of the same kind (a few units in the last place plus 3 (1 + tan^2) epsilons). sincos gives a sine and a cosine within the same bounds, also when one of its outputs is its operand, sin and tan are odd and cos even, the sine and tangent of a zero are that zero, and infinity and NaN give NaN.',
  ['inputs', 'configurations'], 'all arguments, all specials, all ABIs' + CONF,
  'octant selection and sign bookkeeping are per-lane bit logic; the tests sample few octants and no mixed vectors',
  ['detail/x86/sincos.cpp', 'detail/x86/tan.cpp', 'detail/x86/trig.hpp', 'detail/generic/math.hpp'], [('trigonometric kernels', 'detail/x86/sincos.cpp')], ['elements against a higher-precision reference'])
p('C21', 'Inverse trigonometric functions are accurate with standard specials',
  'asin, acos, atan and atan2 are within a few units in the last place of the exact value on their whole domain, in every quadrant and for both signs of zero, give NaN outside the domain, and keep their symmetries (asin and atan odd, acos(-x) = pi - acos(x), atan2 consistent with atan).',
  ['inputs', 'configurations'], 'all arguments, all quadrants, all specials, all ABIs' + CONF,
  'kernels switch formulas at several thresholds and patch specials with masks; tests sample ordinary points',
  ['detail/x86/asincos.cpp', 'detail/x86/atan.cpp', 'detail/x86/trig.hpp', 'detail/generic/math.hpp'], [('inverse kernels', 'detail/x86/asincos.cpp')], ['elements against a higher-precision reference'])
p('C22', 'Roots, reciprocals and hypot are accurate over the full range',
  'sqrt is correctly rounded for every input, hypot is within a few units in the last place without spurious overflow or underflow and is infinite whenever an argument is, and the approximate reciprocal and reciprocal square root stay within their documented relative error. Negative arguments, zeros, infinities and NaN give the standard results.',
  ['inputs', 'configurations'], 'all values over the full exponent range, all ABIs' + CONF,
  'overflow, underflow and special handling of hypot only shows at extreme operands; tests use ordinary ones',
  ['detail/x86/mbase.hpp', 'detail/x86/hypot.cpp', 'detail/x86/pow.hpp', 'detail/generic/math.hpp'], [('hypot kernel', 'detail/x86/hypot.cpp')], ['elements against a higher-precision reference'])
p('C23', 'Remaining transcendental functions equal the scalar function per lane',
  'exp, exp2, expm1, pow, cbrt, the hyperbolic functions and their inverses, erf, erfc, tgamma, lgamma and nexttoward give, in each lane of every layout, the value of the scalar standard function for that lane\'s arguments (within a unit in the last place), with every lane evaluated exactly once and in its own position.',
  ['inputs', 'configurations'], 'all arguments, all ABIs' + CONF,
  'the tests cover some of these functions not at all and the others on a few values in two layouts',
  ['detail/generic/math.hpp', 'detail/x86/exp.hpp', 'detail/x86/pow.hpp', 'detail/x86/hypbl.hpp', 'detail/x86/errfn.hpp'], [('per-lane wrappers', 'detail/generic/math.hpp')], ['elements'])
p('C24', 'A lane\'s result depends on that lane only',
  'For every element-wise operation and mathematical function, the result in one lane is bit-for-bit independent of the values in the other lanes, of the lane\'s position, of the number of lanes and of the contents of padding: permuting the lanes of the operands permutes the result, and evaluating one element in a vector of any other length of the same kernel gives the same bits.',
  ['inputs', 'configurations'], 'all operand values, all permutations and replacements of other lanes, all pairs of vector lengths' + CONF,
  'a kernel that tests a mask for "any lane is special" or branches on all lanes is invisible to tests that use uniform or ordered data',
  ['detail/x86/sincos.cpp', 'detail/x86/hypot.cpp', 'detail/x86/log1p.cpp', 'detail/x86/modf.cpp', 'detail/x86/trig.hpp', 'detail/x86/exp.hpp', 'detail/x86/mbase.hpp', G, X], [('vector kernels', 'detail/x86/math_fwd.hpp')], ['elements of related evaluations'])
p('C25', 'NaN propagates and domain errors yield NaN in exactly the affected lanes',
  'With NaN propagation enabled, every mathematical function given a NaN argument in a lane returns NaN in that lane (except where the standard defines a number), an argument outside the domain gives NaN, a pole gives the correctly signed infinity, and neighbouring lanes keep the results they have without the special value.',
  ['inputs', 'configurations'], 'every function, every placement of special values among ordinary lanes, all ABIs' + CONF,
  'tests feed specials one kind at a time in uniform vectors; leaks into neighbours need mixtures',
  ['detail/x86/except.hpp', 'detail/x86/sincos.cpp', 'detail/x86/tan.cpp', 'detail/x86/log2.cpp', 'detail/x86/asincos.cpp', 'detail/generic/math.hpp'], [('error handling', 'detail/x86/except.hpp')], ['elements'])
p('C26', 'Layout types and traits are consistent for every combination',
  'For every element type, length and alignment, the type-level interface is consistent: sizes, alignments, mask types, deduced, rebound and resized layouts, supported-layout and vector/mask predicates, memory alignment, and the native storage size agree with one another and with the run-time objects. The compatible layout is the same in every build for the architecture, the layouts named after a register fill one register of that name, and the native layout one register at least as wide as the compatible one; deducing a layout for their sizes gives them. Every combination of element type and layout the interface declares supported can be constructed, used and destroyed.',
  ['programs', 'configurations'], 'all generated combinations of element type, length and alignment' + CONF,
  'traits are templates: every combination is a separate program, and tests instantiate a few',
  ['traits.hpp', 'detail/generic/abi.hpp', 'detail/x86/abi.hpp', 'detail/x86/type_fwd.hpp', 'detail/generic/type.hpp'], [('ABI traits', 'detail/generic/abi.hpp')], ['compile-time constants observed at run time'])
p('C27', 'Debug builds never stop on valid use and agree with release builds',
  'In builds with assertions enabled, no operation on valid operands and no mathematical function on any operand (of any class: ordinary, subnormal, zero, infinite, NaN, outside the domain) stops the program, and the results satisfy the same specifications as in release builds, at every optimisation level.',
  ['inputs', 'histories', 'configurations'], 'all valid operation sequences and all operands of the mathematical functions on all ABIs; debug builds of the supported instruction sets',
  'the debug tests call each function once with ordinary values; the asserted lookup-table indices are computed from the bits of the operand, so that only subnormal, special or boundary operands leave the range',
  ['detail/config.hpp', 'detail/assert.cpp', 'detail/x86/lut.hpp', 'detail/x86/exp.hpp', 'detail/x86/log2.cpp'], [('assertions', 'detail/config.hpp'), ('lookup-table bounds', 'detail/x86/lut.hpp')], ['process stop, results'])
p('C28', 'Constant evaluation agrees with run-time evaluation',
  'Operations usable in constant expressions give the same elements when evaluated at compile time as when evaluated at run time on the same operands, for every element type and for the layouts that support constant evaluation.',
  ['programs', 'inputs'], 'generated operand tables evaluated both ways, all types, the generic layouts',
  'compile-time evaluation takes separate branches (the run-time ones use intrinsics); no test evaluates them',
  ['detail/generic/type.hpp', 'detail/fconst.hpp', 'detail/generic/math.hpp'], [('constant-evaluation branches', 'detail/generic/type.hpp')], ['static tables against run-time results'])
p('C29', 'Reported processor features match the processor and operating system',
  'The run-time feature query reports a feature exactly when the processor reports it (in the CPUID leaf that holds it, provided the processor has that leaf) and the operating system has enabled the register state it needs: for AVX, AVX2, FMA, F16C and AVX512 as XCR0 says (none of them without OSXSAVE), for the SSE family as XCR0 or, without OSXSAVE, the operating system\'s own list says. The maker is recognised by its full identification, and every query gives the same answer.',
  ['inputs', 'configurations'], 'all processors (register contents of CPUID, highest leaf, sub-leaves), all XCR0 values, all lists of flags of the operating system',
  'a test sees only the processor it runs on, where most of the conditions never vary',
  ['detail/x86/cpuid.cpp', 'detail/x86/cpuid.hpp'], [('cpuid query', 'detail/x86/cpuid.cpp'), ('feature bits', 'detail/x86/cpuid.hpp')], ['feature flags'])
p('C30', 'Build options change only what they document',
  'With error handling, NaN propagation or the inline extension namespace switched off, the library compiles and every function on valid operands gives the same specified results as with them on; NaN operands still propagate where NaN propagation is on. (Without error handling the results of erroneous operands are documented as undefined and not judged.)',
  ['inputs', 'configurations'], 'all combinations of DPM_HANDLE_ERRORS, DPM_PROPAGATE_NAN and DPM_INLINE_EXTENSIONS, all valid operands of every function, all ABIs' + CONF,
  'the test suite is built with one combination only; the others compile different branches of every kernel',
  ['detail/config.hpp', 'detail/x86/exp.hpp', 'detail/x86/log1p.cpp', 'detail/x86/logb.cpp', 'detail/x86/scalbn.cpp', 'detail/x86/frexp.cpp', 'detail/x86/sincos.cpp', 'detail/x86/asincos.cpp', 'detail/generic/math.hpp'], [('conditional branches', 'detail/x86/except.hpp'), ('options', 'detail/config.hpp')], ['elements, compilation'])
p('C31', 'Valid operations have no undefined behaviour',
  'No operation on valid operands reads or writes memory outside the objects it was given, accesses an object at an address its type does not allow, or evaluates an expression whose behaviour C++ leaves undefined (shifts by the width or more, signed overflow, conversions out of range, invalid values), for every element type, layout and instruction set, including partially filled last vectors.',
  ['inputs', 'histories', 'configurations'], 'all valid operands and operation sequences, all types, all ABIs' + CONF,
  'an access beyond the operand or an undefined shift usually gives the right answer on the machine at hand until the compiler or the neighbouring memory changes',
  [G, X, 'detail/generic/math.hpp', 'detail/x86/fmanip.hpp', 'detail/x86/cvt.hpp', 'detail/x86/utility.hpp', 'detail/x86/transform.hpp'], [('native vector loops over partial vectors', 'detail/x86/fmanip.hpp'), ('temporary element buffers', G)], ['sanitizer reports'])
p('C32', 'Results respect, and calls preserve, the floating-point environment',
  'Under each of the four rounding modes the arithmetic operators, comparisons, conversions, minima, exactly specified functions and per-lane functions give what the scalar operation gives under that mode, integer operations give the same result under every mode, a lane\'s result still depends on that lane only, and zero or pole results keep their sign. No call changes the rounding mode, exception masks, subnormal flushing or the x87 state, or lowers an exception flag.',
  ['inputs', 'configurations'], 'all operands, the four rounding modes, all types and ABIs' + CONF,
  'the tests never leave the default mode; conversions and special results built from magic-number arithmetic are right in the default mode only',
  [G, X, 'detail/x86/cvt.hpp', 'detail/x86/except.hpp', 'detail/x86/round.hpp', 'detail/x86/muldiv.hpp', 'detail/generic/math.hpp'], [('magic-number conversions', 'detail/x86/cvt.hpp'), ('special results', 'detail/x86/except.hpp')], ['elements, control registers'])
p('C33', 'A failed assertion reports itself and stops the program; others do nothing',
  'An assertion macro that is enabled in the build and whose condition is false writes to the standard error stream the file, line and function of the assertion (or those of the source location it was given), the text of the condition and the message exactly as given, and stops the program before the next statement. When the condition is true nothing is written and the program goes on; an enabled assertion evaluates its condition exactly once. The location form that debug builds alone check does not evaluate its condition in other builds.',
  ['inputs', 'configurations'], 'all assertion macros, conditions and messages (any characters, any length), in functions, lambdas and branches, in release and debug builds',
  'the tests pass only if no assertion fails, so what a failing one does is never run',
  ['utility.hpp', 'detail/assert.cpp'], [('assertion macros', 'utility.hpp'), ('report', 'detail/assert.cpp')], ['standard error of a child process, its wait status, evaluation count'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
