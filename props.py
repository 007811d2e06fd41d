"""What each property's check builds and runs."""
TYPES = {'i8': 'std::int8_t', 'u8': 'std::uint8_t', 'i16': 'std::int16_t', 'u16': 'std::uint16_t', 'i32': 'std::int32_t',
         'u32': 'std::uint32_t', 'i64': 'std::int64_t', 'u64': 'std::uint64_t', 'f32': 'float', 'f64': 'double',
         'll': 'long long', 'ull': 'unsigned long long', 'ch': 'char', 'wch': 'wchar_t', 'ch16': 'char16_t', 'ld': 'long double'}
CFGS = {
    'sse2': dict(flags=['-msse2']), 'sse3': dict(flags=['-msse3']), 'ssse3': dict(flags=['-mssse3']), 'sse41': dict(flags=['-msse4.1']),
    'sse42': dict(flags=['-msse4.2']), 'avx': dict(flags=['-mavx']), 'avx2nofma': dict(flags=['-mavx2']), 'avx2': dict(flags=['-mavx2', '-mfma']),
    'avx2O3': dict(flags=['-mavx2', '-mfma'], opt='-O3'), 'sse2O2': dict(flags=['-msse2'], opt='-O2'), 'sse42O2': dict(flags=['-msse4.2'], opt='-O2'), 'avxO2': dict(flags=['-mavx'], opt='-O2'),
    'clang-avx2': dict(flags=['-mavx2', '-mfma'], cxx='clang++'), 'clang-sse2': dict(flags=['-msse2'], cxx='clang++'),
    'sse2-none': dict(flags=['-msse2'], defs=[]), 'sse42-none': dict(flags=['-msse4.2'], defs=[]), 'avx-none': dict(flags=['-mavx'], defs=[]), 'avx2-none': dict(flags=['-mavx2', '-mfma'], defs=[]),
    'sse2-nan': dict(flags=['-msse2'], defs=['-DDPM_PROPAGATE_NAN']), 'sse42-nan': dict(flags=['-msse4.2'], defs=['-DDPM_PROPAGATE_NAN']), 'avx-nan': dict(flags=['-mavx'], defs=['-DDPM_PROPAGATE_NAN']),
    'avx2-nan': dict(flags=['-mavx2', '-mfma'], defs=['-DDPM_PROPAGATE_NAN']), 'clang-avx2-none': dict(flags=['-mavx2', '-mfma'], cxx='clang++', defs=[]),
    'sse2-debug': dict(flags=['-msse2'], debug=True, opt='-O0'), 'avx2-debug': dict(flags=['-mavx2', '-mfma', '-D_GLIBCXX_ASSERTIONS'], debug=True),
    'sse2-san': dict(flags=['-msse2', '-fsanitize=address,undefined', '-fsanitize-recover=address', '-fsanitize-undefined-trap-on-error', '-D_GLIBCXX_ASSERTIONS'], debug=True), 'avx2-san': dict(flags=['-mavx2', '-mfma', '-fsanitize=address,undefined', '-fsanitize-recover=address', '-fsanitize-undefined-trap-on-error', '-D_GLIBCXX_ASSERTIONS'], debug=True),
    # address sanitizer aligns every object on the stack to 32 bytes: without it, objects are aligned as declared
    'avx2-ubsan': dict(flags=['-mavx2', '-mfma', '-fsanitize=undefined', '-fsanitize-undefined-trap-on-error'], debug=True),
    'sse42-san': dict(flags=['-msse4.2', '-fsanitize=address,undefined', '-fsanitize-recover=address', '-fsanitize-undefined-trap-on-error', '-D_GLIBCXX_ASSERTIONS'], debug=True),
}
INT = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
FP = ['f32', 'f64']
ALL = INT + FP
SIZE = dict(i8=1, u8=1, i16=2, u16=2, i32=4, u32=4, f32=4, i64=8, u64=8, f64=8)
# integer types of the same sizes that are distinct types, so that other overloads may be chosen for them
ALIAS = ['ll', 'ull', 'ch', 'wch', 'ch16']
def alias(src, cases, **kw):
    return dict(src=src, types=ALIAS, cases=cases, cfgs_quick=['avx2'], cfgs_thorough=['sse2', 'sse42', 'avx2'], **kw)
# long double: generic storage, never a native vector
def ld(src, cases, **kw):
    return dict(src=src, types=['ld'], cases=cases, cfgs_quick=['sse2'], cfgs_thorough=['sse2', 'avx2', 'clang-avx2'], **kw)
# every fill level of the last vector: chunks of eight lengths
def sizes(src, cases, types=('i8', 'i16', 'u32', 'f32', 'i64', 'f64'), quick=None, qcfgs=('sse2', 'sse42', 'avx', 'avx2'), **kw):
    out = []
    for k in range(5):
        sse = [t for t in types if 8 * k + 1 <= 16 // SIZE[t] + 1]
        avx = [t for t in types if t not in sse and 8 * k + 1 <= 32 // SIZE[t] + 1]
        for ts, q, th in ((sse, ['sse2', 'sse42', 'avx', 'avx2'], ['sse2', 'ssse3', 'sse42', 'avx', 'avx2', 'clang-avx2']), (avx, ['avx', 'avx2'], ['avx', 'avx2', 'clang-avx2'])):
            if ts: out.append(dict(src=src, types=ts, types_quick=[t for t in ts if quick is None or t in quick], cases=cases, defs=['-DSIZES=%d' % k], cfgs_quick=[c for c in q if c in qcfgs], cfgs_thorough=th, **kw))
    return out
LANE_RULE = 'a case is one call on a whole vector; non-trivial: at least one operand byte is non-zero and the lanes are not all equal (or the vector has one lane); distinct by hash of subject and operand bytes'
TRUST = ' Assumes the compiler, the scalar C++ operators/libm used as reference, and this CPU; explores, does not prove absence.'
NOT_APPLICABLE = {}
PROPS = {
    'C01': dict(units=[ld('c01.cpp', 1000), dict(src='c01.cpp', types=ALL, cases=3000), alias('c01.cpp', 1000)], rule=LANE_RULE, technique='property-based testing: lane-wise differential against scalar operators, poisoned padding',
                note='Random and boundary operands for every operator x type x layout x instruction set, exact comparison.' + TRUST),
    'C02': dict(units=[dict(src='c02.cpp', types=INT, cases=2000), alias('c02.cpp', 700)], rule=LANE_RULE, technique='property-based testing: lane-wise differential against scalar bit operations',
                note='Random, boundary and all shift amounts per integer type x layout x instruction set, exact comparison.' + TRUST),
    'C03': dict(units=[ld('c03.cpp', 1000), dict(src='c03.cpp', types=ALL, cases=4000), alias('c03.cpp', 1000)], rule=LANE_RULE, technique='property-based testing: differential against scalar comparisons plus consumption of the masks',
                note='Boundary-biased operand pairs, exact comparison, masks also consumed by reductions, logic and blend.' + TRUST),
    'C04': dict(units=[ld('c04.cpp', 600), dict(src='c04.cpp', types=ALL, cases=2500)] + sizes('c04.cpp', 100, quick=['i8', 'f32'], qcfgs=['sse2', 'avx2']), rule='a case is a history of 1-12 mask operations (or one evaluation of a Boolean law); non-trivial: at least two steps change the model state (laws: as lane-wise); distinct by hash of the drawn operations and operands', technique='stateful (model-based) property testing of mask histories against arrays of bool',
                note='Histories of up to 12 operations over three masks, every live mask compared with the model after every step.' + TRUST),
    'C05': dict(units=[ld('c05.cpp', 2000), dict(src='c05.cpp', types=ALL, cases=10000)] + sizes('c05.cpp', 300), rule='a case is one mask built along one of six routes (or all masks of one length); non-trivial: the mask has both true and false lanes, or one lane only', technique='property-based testing: mask reductions against a loop, exhaustive for short masks',
                note='Random masks built along six routes with poisoned padding; all masks of up to 10 lanes exhaustively.' + TRUST),
    'C06': dict(units=[ld('c06.cpp', 400), dict(src='c06.cpp', types=ALL, cases=1500), alias('c06.cpp', 400)] + sizes('c06.cpp', 60, quick=[]), rule='a case is one load of one source array; non-trivial: the source elements are not all equal; distinct by hash of form, flag, placement, source and mask', technique='property-based testing: loads against a scalar static_cast loop, guard pages around the source',
                note='Every element/source type pair x layout x flag x (masked) load form, sources adjoining unmapped pages.' + TRUST),
    'C07': dict(units=[ld('c07.cpp', 400), dict(src='c07.cpp', types=ALL, cases=1500), alias('c07.cpp', 400)] + sizes('c07.cpp', 60, quick=[]), rule='a case is one store of one vector; non-trivial: the lanes are not all equal; distinct by hash of form, flag, placement, lanes and mask', technique='property-based testing: stores against a scalar static_cast loop, canaries and guard pages around the destination',
                note='Every element/destination type pair x layout x flag x (masked) store form; every byte within 256 of the destination is checked.' + TRUST),
    'C08': dict(units=[dict(src='c08p.cpp', types=ALL, cases=40, defs=['-DSHSEED={seed}'], cfgs_quick=['sse2O2', 'avx2O3'], cfgs_thorough=['sse2', 'sse2O2', 'sse42O2', 'avxO2', 'avx2', 'avx2O3', 'clang-avx2']), ld('c08.cpp', 800), dict(src='c08.cpp', types=ALL, cases=3000), alias('c08.cpp', 1000)] + sizes('c08.cpp', 100, quick=['i16', 'f32'], qcfgs=['sse42', 'avx']), rule='a case is a history of 1-14 accesses over three vectors; non-trivial: at least two steps change the model state; distinct by hash of the drawn operations and operands', technique='stateful (model-based) property testing of access histories against arrays',
                note='Histories of up to 14 operations over three vectors, every live vector compared with the model after every step.' + TRUST),
    'C09': dict(units=[ld('c09.cpp', 300), dict(src='c09.cpp', types=ALL, cases=1000), alias('c09.cpp', 300)] + sizes('c09.cpp', 60, quick=[]), rule=LANE_RULE, technique='property-based testing: differential against per-lane static_cast',
                note='Every element type pair x layout x conversion form, values over the whole range on which static_cast is defined.' + TRUST),
    'C10': dict(units=[ld('c10.cpp', 60, defs=['-DSHSEED={seed}']), dict(src='c10.cpp', types=ALL, cases=150, defs=['-DSHSEED={seed}'])], rule='a case is one evaluation of one generated index list on one vector and one mask; non-trivial: the lanes are not all equal', technique='property-based testing: generated index lists (program generation) against an indexing loop',
                note='Index lists of 18 kinds drawn from the seed and instantiated per type x layout x instruction set; the lists of one seed are a sample of an exponential space.' + TRUST),
    'C11': dict(units=[ld('c11.cpp', 600), dict(src='c11.cpp', types=ALL, cases=2000), alias('c11.cpp', 700)] + sizes('c11.cpp', 100), rule=LANE_RULE, technique='property-based testing: lane-wise differential against ?:, masks from every source',
                note='Random masks from loads, comparisons, logic, element writes and generators.' + TRUST),
    'C12': dict(units=[ld('c12.cpp', 1500), dict(src='c12.cpp', types=ALL, cases=4000), alias('c12.cpp', 1000)] + sizes('c12.cpp', 300), rule='a case is one vector reduced with every operation; non-trivial: the lanes are not all equal', technique='property-based testing: differential against sequential folds, poisoned padding',
                note='Integers exactly; floats exactly where every bracketing agrees, otherwise within the summation error bound.' + TRUST),
    'C13': dict(units=[ld('c13.cpp', 1500), dict(src='c13.cpp', types=ALL, cases=4000), alias('c13.cpp', 1000)], rule=LANE_RULE, technique='property-based testing: lane-wise differential against std::min/max/clamp',
                note='Boundary-biased operands without NaN, values compared (the sign of equal zeros is not specified).' + TRUST),
    'C14': dict(units=[ld('c14.cpp', 2000), dict(src='c14.cpp', types=['i8', 'i16', 'i32', 'i64'] + FP, cases=3000)], rule=LANE_RULE, technique='property-based testing: lane-wise differential against the C++ standard functions',
                note='All operands including specials and subnormals, exact except lerp (error bound) and fma (fused or separate).' + TRUST),
    'C15': dict(units=[ld('c15.cpp', 3000, pch=False, defs=['-frounding-math']), dict(src='c15.cpp', types=FP, cases=8000, pch=False, defs=['-frounding-math'])], rule=LANE_RULE, technique='property-based testing: lane-wise differential against the C++ standard functions under all four rounding modes',
                note='Values near halves, integers and the 2^23..2^64 boundaries, any bit pattern, exact comparison with the sign of zero.' + TRUST),
    'C16': dict(units=[ld('c16.cpp', 3000, pch=False, defs=['-frounding-math']), dict(src='c16.cpp', types=FP, cases=8000, pch=False, defs=['-frounding-math'])], rule=LANE_RULE, technique='property-based testing: lane-wise differential against the C++ standard functions under all four rounding modes',
                note='Values whose roundings are representable, near halves and the ends of the integer range, exact comparison.' + TRUST),
    'C17': dict(units=[ld('c17.cpp', 4000), dict(src='c17.cpp', types=FP, cases=8000)], rule=LANE_RULE, technique='property-based testing: lane-wise differential against the C++ standard functions, round trips',
                note='All values and exponents including subnormal and overflowing results, exact comparison.' + TRUST),
    'C18': dict(units=[ld('c18.cpp', 4000), dict(src='c18.cpp', types=FP, cases=10000)], rule=LANE_RULE, technique='property-based testing: lane-wise differential against the C++ standard classification, partition law',
                note='All bit patterns but signalling NaN, exact comparison; every class shown to partition the values.' + TRUST),
    'C19': dict(units=[dict(src='c19.cpp', types=FP, cases=12000)], rule=LANE_RULE, technique='property-based testing: lane-wise differential against 80-bit references with error bounds in units in the last place',
                note='Arguments of every exponent including subnormals, next to 1, powers of two, and all specials.' + TRUST),
    'C20': dict(units=[dict(src='c20.cpp', types=FP, cases=8000)], rule=LANE_RULE, technique='property-based testing: lane-wise differential against 80-bit references with absolute and relative error bounds, parity laws',
                note='Arguments of every magnitude: multiples of pi/4 and their neighbours, kernel thresholds, tiny, huge and special values in mixed lanes.' + TRUST),
    'C21': dict(units=[dict(src='c21.cpp', types=FP, cases=10000)], rule=LANE_RULE, technique='property-based testing: lane-wise differential against 80-bit references with error bounds in units in the last place, symmetry laws',
                note='Arguments over the whole domain, next to the kernels\' thresholds, all quadrants, signed zeros and specials in mixed lanes.' + TRUST),
    'C22': dict(units=[dict(src='c22.cpp', types=FP, cases=8000)], rule=LANE_RULE, technique='property-based testing: lane-wise differential against correctly rounded or 80-bit references, algebraic laws of hypot',
                note='Full exponent range including subnormals, exponent gaps around the kernels\' thresholds, specials.' + TRUST),
    'C23': dict(units=[ld('c23.cpp', 2000), dict(src='c23.cpp', types=FP, cases=4000), dict(src='c23p.cpp', types=['i8', 'u16', 'i32', 'u32', 'i64', 'u64'], cases=4000, cfgs_quick=['sse2', 'avx2'])], rule=LANE_RULE, technique='property-based testing: lane-wise differential against the scalar C++ standard functions',
                note='Typical, extreme and special arguments per function; promotion of integer and mixed operands to double.' + TRUST),
    'C24': dict(units=[ld('c24.cpp', 400), dict(src='c24.cpp', types=ALL, cases=2500)], rule='a case is four evaluations of one function (as drawn, lanes permuted, other lanes replaced, one lane broadcast); non-trivial: the drawn lanes are not all equal (or there is one lane); distinct by hash of subject and operand bytes', technique='metamorphic property-based testing: lane permutation, replacement of other lanes, broadcast',
                note='Every element-wise operation and mathematical function, each result compared bit for bit with the one the same operands give elsewhere; padding poisoned.' + TRUST),
    'C25': dict(units=[dict(src='c25.cpp', types=FP, cases=4000)], rule='a case is one function evaluated twice: on ordinary operands and with special values put into a random subset of lanes; non-trivial: at least one lane received a special value; distinct by hash of subject and operand bytes', technique='property-based testing: differential against the scalar functions on special values, metamorphic comparison of the untouched lanes',
                note='Every mathematical function, random placements of infinities, NaN payloads, zeros, subnormals, poles and out-of-domain values among ordinary lanes.' + TRUST),
    'C26': dict(units=[dict(src='c26.cpp', types=ALL + ['ll', 'ch', 'ld'], cases=300, defs=['-DSHSEED={seed}'])], rule='a case is every relation between the traits and the objects of one generated combination of element type, length and alignment, with random elements; distinct by the elements; every case is non-trivial',
                technique='property-based testing: programs generated over element type, length and alignment, invariants relating the traits to each other and to the run-time objects',
                note='Lengths 1 to 70 and alignments (default, packed, 8 to 128) drawn from the seed per element type; the combinations of one seed are a sample.' + TRUST),
    'C30': dict(units=[dict(src='c25.cpp', types=FP, cases=3000)] + [dict(src=x, types=['f32', 'i16', 'i64'], cases=300, cfgs=['avx2-none']) for x in ('c04.cpp', 'c09.cpp', 'c11.cpp')]
                    # names that are extensions must be reached by qualified names inside the library
                    + [dict(src='c%02d.cpp' % k, types_quick=q, types_thorough=ALL if k != 2 else INT, cases=c, cfgs_quick=['avx2-none'], cfgs_thorough=['sse2-none', 'avx2-none'], **(dict(defs=['-DSHSEED={seed}']) if k in (10, 26) else {})) for k, q, c in (
                    (1, ['f64', 'i8'], 300), (2, ['u8', 'i32'], 300), (3, ['f32', 'u16'], 300), (5, ['f32', 'i8'], 500), (6, ['f64', 'u16'], 200), (7, ['f32', 'i32'], 200), (8, ['f32', 'u64'], 300), (10, ['f32', 'i16', 'i64'], 40), (12, ['f32', 'i16'], 400), (13, ['f64', 'u32'], 400), (26, ['f32', 'i8', 'u64'], 100))], cfgs_quick=['sse2-none', 'sse42-nan', 'avx2-nan', 'avx2-none'], cfgs_thorough=['sse2-none', 'sse2-nan', 'sse42-none', 'sse42-nan', 'avx-none', 'avx-nan', 'avx2-none', 'avx2-nan', 'clang-avx2-none'], rule='as C25', technique='property-based testing: differential against the scalar functions with error handling and NaN propagation compiled out',
                note='Every mathematical function on valid operands (and NaN where propagation stays on) in builds without DPM_HANDLE_ERRORS, DPM_PROPAGATE_NAN or DPM_INLINE_EXTENSIONS.' + TRUST),
    'C33': dict(units=[dict(src='c33.cpp', cases=150, pch=False, cfgs_quick=['sse2', 'avx2', 'sse2-debug'], cfgs_thorough=['sse2', 'avx2', 'avx2O3', 'sse2-debug', 'clang-avx2'])], rule='a case is one assertion reached in a fresh process; non-trivial: it fails or has a message; distinct by kind, condition and message',
                technique='property-based testing: generated assertions (kind, condition, message) each evaluated in a child process, oracle on what the child wrote, how it ended and how often the condition was evaluated',
                note='All assertion macros, in functions, lambdas and branches, in release and debug builds.' + TRUST),
    'C28': dict(units=[dict(src='c28.cpp', types=ALL, cases=120, defs=['-DSHSEED={seed}'], cfgs_quick=['sse2', 'avx2'], cfgs_thorough=['sse2', 'avx2', 'clang-avx2'])], rule='a case is one operation on one row of generated operands, evaluated by the compiler and by the program; non-trivial: the operand lanes are not all equal (or there is one lane); distinct by operation and row',
                technique='property-based testing: operand tables generated from the seed, differential between constant and run-time evaluation of the same expression',
                note='Every operation usable in constant expressions on the scalar and packed layouts, 16 rows of operands per operation, type and layout drawn from the seed.' + TRUST),
    'C29': dict(units=[dict(src='c29.cpp', cases=250, pch=False, cfgs_quick=['sse2', 'avx2', 'sse2-debug'], cfgs_thorough=['sse2', 'sse42', 'avx', 'avx2', 'avx2O3', 'sse2-debug', 'clang-avx2'])], rule='a case is one generated machine on which the library initialises itself in a fresh process; every case is non-trivial; distinct by all registers, XCR0 and the flags of /proc/cpuinfo',
                technique='property-based testing with a simulated environment: CPUID, XGETBV and /proc/cpuinfo are answered by generated machines (single-stepped child process), differential against the processor manuals\' rules',
                note='Processors of every generation and with arbitrary feature bits, highest leaves 0 to 0x20, all kinds of XCR0, with and without OSXSAVE.' + TRUST),
    'C27': dict(units=[dict(src=x, types=FP, cases=2000) for x in ('c17.cpp', 'c19.cpp', 'c20.cpp', 'c21.cpp', 'c22.cpp', 'c25.cpp')] + [dict(src=x, types=['i16', 'u64', 'f32'], types_thorough=ALL, cases=600) for x in ('c01.cpp', 'c04.cpp', 'c08.cpp')] + [dict(src='c10.cpp', types=['i16', 'u64', 'f32'], types_thorough=ALL, cases=100, defs=['-DSHSEED={seed}'])],
                cfgs_quick=['sse2-debug', 'avx2-debug'], rule='as in C17, C19 to C22, C25 (mathematical functions), C01, C04, C08 and C10', technique='property-based testing of debug builds (assertions enabled): the generators and oracles of C01, C04, C08, C10, C17, C19 to C22 and C25, any stop of the program is a failure',
                note='Every operand class the release checks generate, in unoptimised and optimised builds without NDEBUG.' + TRUST),
    'C31': dict(units=[dict(src='c%02d.cpp' % k, types_quick=q, types_thorough=t, cases=c, cfgs_quick=['avx2-san' if k % 2 else 'sse2-san'], **(dict(pch=False, defs=['-frounding-math']) if k in (15, 16) else dict(defs=['-DSHSEED={seed}']) if k == 10 else {})) for k, q, t, c in (
                    (1, ['i8', 'f32'], ALL, 400), (2, ['u8', 'i64'], INT, 300), (3, ['u16', 'f64'], ALL, 500), (4, ['i8', 'f64'], ALL, 400), (5, ['i16', 'f32'], ALL, 2000), (6, ['u8', 'f32'], ALL, 250), (7, ['i16', 'f64'], ALL, 250),
                    (8, ['u8', 'i64'], ALL, 600), (9, ['i8', 'f32'], ALL, 200), (10, ['u8', 'i32'], ALL, 40), (11, ['i16', 'f64'], ALL, 500), (12, ['i8', 'f32'], ALL, 800), (13, ['i64', 'f32'], ALL, 1000), (14, FP, FP, 500),
                    (15, FP, FP, 1500), (16, FP, FP, 1500), (17, FP, FP, 3000), (18, FP, FP, 1500), (19, FP, FP, 1500), (20, FP, FP, 1500), (21, FP, FP, 1500), (22, FP, FP, 1500), (23, FP, FP, 300), (25, ['f32'], FP, 600))]
                    + [dict(src='c17.cpp', types=FP, cases=3000, cfgs_quick=['sse2-san'])] + [dict(src=x, types=FP, cases=1000, cfgs_quick=['avx2-ubsan'], cfgs_thorough=['avx2-ubsan']) for x in ('c14.cpp', 'c17.cpp')]
                    + [dict(src=x, types=t, cases=400, cfgs_quick=['avx2O3'], cfgs_thorough=['avx2O3']) for x, t in (('c04.cpp', ['f32', 'i16']), ('c08.cpp', ['i32', 'u8']), ('c12.cpp', ['f64', 'i8']), ('c17.cpp', FP))],
                cfgs_quick=['avx2-san', 'sse2-san'], cfgs_thorough=['sse2-san', 'sse42-san', 'avx2-san'], rule='as in C01 to C23 and C25', technique='property-based testing of instrumented builds (address and undefined-behaviour sanitizers, libstdc++ assertions) and of fully optimised ones: the generators and oracles of C01 to C23 and C25, any report is a failure',
                note='Every operation of the interface on generated operands and histories; the sanitizers see accesses made by compiled code, not by masked-move instructions, whose reach C06 and C07 check with guard pages.' + TRUST),
    'C32': dict(units=[dict(src=x, types=t, types_thorough=tt, cases=c, pch=False, defs=['-DR_MODES', '-frounding-math'], cfgs_quick=['sse2', 'avx2']) for x, t, tt, c in (
                    ('c01.cpp', ['i8', 'u32', 'i64', 'f32', 'f64'], ALL, 800), ('c03.cpp', ['u64'] + FP, ALL, 1000), ('c09.cpp', ['u8', 'u32', 'i64', 'u64'] + FP, ALL, 300), ('c13.cpp', ['u8', 'i64'] + FP, ALL, 1000), ('c14.cpp', FP, FP, 1500), ('c17.cpp', FP, FP, 3000), ('c18.cpp', FP, FP, 3000), ('c24.cpp', FP, FP, 800), ('c07.cpp', ['u64', 'f64'], ALL, 300), ('c12.cpp', ['i64', 'u8'], INT, 1000), ('c23.cpp', FP, FP, 1000))],
                rule='as in C01, C03, C07, C09, C12 (integers), C13, C14, C17, C18, C23 and C24, each case under one of the four rounding modes', technique='property-based testing: differential against scalar operators and functions under random rounding modes, metamorphic lane relations, invariant on the control state',
                note='The generators and oracles of C01, C03, C07, C09, C12 (integers), C13, C14, C17, C18, C23 and C24 under every rounding mode; SSE and x87 control state compared around every case.' + TRUST),
}
