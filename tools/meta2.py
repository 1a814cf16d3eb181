p("S03", "Every call returns: no panic, overflow, or endless loop for any argument",
  "Every public function, in every format, returns for every combination of arguments, including NaNs, infinities, subnormals and extreme integer arguments. Nothing panics or loops forever, also when built with debug assertions and integer overflow checks, and no slice or table is indexed out of bounds.",
  ["inputs", "configurations"], "every tuple of bit patterns and every i32; release builds and builds with debug assertions and overflow checks (Bessel orders beyond some ten thousand only where the function does not loop once per order)",
  "Tests run the functions at sampled points; an arithmetic overflow, an index one past a table or a loop without progress needs one particular exponent or integer (i32::MIN, a shift count equal to the width).",
  ["mod.rs", "generic/fmod.rs", "generic/sqrt.rs", "fma.rs", "rem_pio2_large.rs", "jn.rs", "jnf.rs", "generic/scalbn.rs", "support/int_traits.rs"],
  [("unchecked table access macros and wrapping arithmetic", M + "mod.rs"), ("loops whose trip count depends on the argument", M + "generic/fmod.rs, jn.rs, rem_pio2_large.rs")], ["a call that panics or does not come back"])
p("S02", "Odd, even and exchange symmetries hold bit for bit",
  "Functions that are odd or even in an argument (trunc, round, roundeven, rint, cbrt, asin, asinh, atan, erf, sin, sinh, tan, tanh; fabs, cos, cosh; fmod, remainder, remquo, scalbn, frexp, modf, nextafter, atan2, fma, integral powers) satisfy the symmetry with identical bits. hypot, fma and the minimum/maximum functions do not depend on the order of their operands, ceil mirrors floor, and each minimum mirrors its maximum (a sign of zero that C leaves open excepted).",
  ["inputs"], "every pair of calls related by a symmetry, over all formats",
  "A relation between two calls; the tests look at single calls and compare with a tolerance, so two results that are each within tolerance but differ from each other pass.",
  ["mod.rs", "atan2.rs", "sin.rs", "tan.rs", "asinh.rs", "tanh.rs", "hypot.rs", "generic/fmod.rs", "fma.rs", "jn.rs", "jnf.rs"], [("sign extraction, absolute value, sign reapplied at the end", M + "tanh.rs, asinh.rs, generic/round.rs")], ["return values of two calls"])
p("S04", "Functions are pure: no history, thread or process changes a result",
  "Every function returns the same result for the same arguments at every time: regardless of which calls came before, of calls running at the same time in other threads, of the process, and of how often it is called. NaN results count as equal whatever their payload.",
  ["schedules", "histories", "inputs"], "every interleaving of calls from several threads, every sequence of earlier calls, every argument",
  "Tests are single-threaded, each test calls one function, and no test calls the same function on the same argument twice; hidden state (a cache, a lazily filled table, a leaked rounding mode) is invisible to them.",
  ["mod.rs", "rem_pio2_large.rs", "tgamma.rs", "exp2.rs", "support/env.rs"], [("no mutable statics; tables are constants", M + "mod.rs")], ["return values over a multi-threaded session"])

p("S05", "Every build configuration computes the same function",
  "The results do not depend on how the crate is built: with or without the arch and unstable-intrinsics features, with force-soft-floats, optimised for speed, for size or not at all, with or without debug assertions, with the default features on the current stable compiler (f32 and f64 only), every function returns the same bits for the same arguments (NaN payloads aside).",
  ["configurations", "inputs"], "every argument, over every pair of eight builds",
  "Tests run one configuration at a time and compare within a tolerance against an oracle, never two builds with each other.",
  ["mod.rs", "libm/src/math/arch/mod.rs", "libm/src/math/arch/i686.rs", "support/macros.rs", "libm/configure.rs", "sqrt.rs", "generic/sqrt.rs"], [("select_implementation!", M + "support/macros.rs"), ("feature-controlled constants and intrinsics", M + "mod.rs")], ["return values in two builds"])
p("S06", "All entry points to an operation agree across methods, aliases and formats",
  "Each method of the Libm<f32> and Libm<f64> facade (and the f16/f128 ones) is the function its name promises. Functions defined through one another agree: rint with roundeven, ldexp with scalbn, sincos with sin and cos, remquo with remainder, modf with trunc, frexp with ilogb, lgamma with lgamma_r, jn/yn of order 0 and 1 with j0, j1, y0, y1. Exact operations give the same value in every format that holds the operands.",
  ["inputs"], "every method and every pair of such functions, over every argument",
  "Tests exercise the free functions only; the facade's one-line forwarders, duplicated f32/f64 code and shared definitions are never compared with each other.",
  ["libm/src/libm_helper.rs", "libm/src/lib.rs", "rint.rs", "roundeven.rs", "ldexp.rs", "scalbn.rs", "sincos.rs", "sincosf.rs", "lgamma.rs", "lgammaf.rs", "jn.rs", "jnf.rs"], [("forwarding macro table", "libm/src/libm_helper.rs"), ("duplicate definitions", M + "sincos.rs")], ["return values of two entry points"])
p("S10", "The exported C symbols compute the library function of the same name",
  "Every function of the C interface that crates/compiler-builtins-smoke-test builds around the library's sources (128 symbols: f16, f32, f64 and f128, one to three operands, integer operands, results returned through pointers) exists under its C name and passes its operands and results in C's order: for all arguments the returned value and whatever is stored through each pointer are those of the library function of the same name, and pointers are written before the call returns.",
  ["inputs", "configurations"], "every argument of every exported symbol",
  "Nothing in the repository calls these symbols: the crate is only type-checked, and swapped operands or outputs of the same type pass the type checker.",
  ["crates/compiler-builtins-smoke-test/src/math.rs", "crates/compiler-builtins-smoke-test/src/lib.rs", "libm/src/math/mod.rs"], [("no_mangle! wrappers", "crates/compiler-builtins-smoke-test/src/math.rs"), ("sincos, sincosf written by hand", "crates/compiler-builtins-smoke-test/src/math.rs")], ["return values and stored results of C calls"])
p("S01", "Special operands give the results C Annex F prescribes",
  "For every function and format, operands that are zeros, infinities, NaNs or lie outside the domain give the prescribed result: a NaN operand gives NaN except where the function is defined to ignore it (hypot of infinity, pow with exponent 0 or base 1, maximum/minimum functions), an argument outside the domain gives NaN, a pole gives the infinity of the right sign. Signs of zero results are those prescribed.",
  ["inputs"], "every combination of operand classes (signed zero, subnormal, one, odd and even integer, half-integer, huge, infinity, quiet and signalling NaN) of every function",
  SAMPLE + "Combinations of special operands of two- and three-argument functions number tens of thousands; the tests list some hundred.",
  ["pow.rs", "powf.rs", "atan2.rs", "atan2f.rs", "hypot.rs", "fma.rs", "remquo.rs", "generic/scalbn.rs", "nextafter.rs", "jn.rs", "lgamma_r.rs", "tgamma.rs", "frexp.rs", "ilogb.rs", "modf.rs"], [("early returns for special operands", M + "pow.rs, atan2.rs")], ["return values"])
S = "libm/src/math/support/"
p("I01", "Hexadecimal float text is read and written exactly, rounded as requested",
  "Reading a hexadecimal floating-point text of any length and exponent into any supported format delivers the number it denotes rounded once in the requested direction, together with exactly the inexact, underflow and overflow flags that apply; malformed text is refused. The exact readers refuse what they cannot represent, and writing a number produces text that denotes exactly that number.",
  ["inputs", "configurations"], "every text, every target width and significand size, all four rounding directions; every bit pattern for writing",
  "Tests cover a list of literals and small formats exhaustively; digits beyond the 128-bit accumulator, far-away sticky digits, subnormal ties at each format's edge and huge exponents are unbounded families.",
  [S + "hex_float.rs", S + "env.rs", S + "macros.rs"], [("digit accumulation with a sticky bit, rounding to odd then to the target", S + "hex_float.rs parse_any"), ("formatting from fields", S + "hex_float.rs Hexf")], ["parsed bits and status", "refusal", "formatted text"])
p("I02", "Wide and narrow integer building blocks compute exactly",
  "Widening, widening multiplication, splitting and joining of every integer type, and addition, shifting, comparison and bit operations on 256-bit integers, deliver the mathematically defined result in two's complement. The other shared integer operations (differences, wrapping, checked and overflowing arithmetic, shifts, rotations, casts, constants) do as well, for every width and both signednesses.",
  ["inputs"], "every pair of operands of every width from 8 to 256 bits and every shift count below the width",
  "Carry chains between 64- and 128-bit limbs need operands at the limb boundaries; the tests multiply some thousand random pairs.",
  [S + "big.rs", S + "int_traits.rs"], [("schoolbook multiplication of 64-bit halves", S + "big.rs zero_widen_mul"), ("two-limb shift and carry", S + "big.rs")], ["results of the trait methods"])
p("I03", "A float's fields, predicates, constants and conversions describe its bits",
  "For f16, f32, f64 and f128 and every bit pattern, the sign, exponent and fraction accessors, classification, construction from parts, normalization of subnormals, bitwise comparison, sign operations, the fused operation and conversion between neighbouring formats agree with IEEE 754. The constants of each format (limits, masks, biases, pi) are the correctly rounded or exactly defined values.",
  ["inputs"], "every bit pattern of every format, every sign, exponent and fraction passed to the constructor",
  "Tests check a handful of values per format; every generic algorithm relies on these for all inputs.",
  [S + "float_traits.rs"], [("masks and shifts derived from two numbers per format", S + "float_traits.rs")], ["results of the trait methods and constants"])
p("S07", "Computations composed of exactly defined functions stay exact step by step",
  "A computation in which results feed later calls goes exactly as IEEE 754 and C prescribe at every step, whatever chain of the exactly defined functions (rounding, sqrt, cbrt, fma, fmod, remainder, remquo, scalbn, frexp, ilogb, modf, minimum/maximum, sign, nextafter, fdim) it applies, in every format. Consequences hold along the way: frexp then ldexp restores a number, modf parts add up, remquo's remainder rebuilds its dividend, rounding is idempotent, nextafter there and back returns.",
  ["histories", "inputs"], "every finite program over the functions of one format, every initial register contents",
  "Tests call one function on chosen arguments; arguments that only arise as another function's result (exact ties, remainders next to zero, freshly rounded subnormals) are not sampled.",
  ["mod.rs", "frexp.rs", "modf.rs", "remquo.rs", "nextafter.rs", "fma.rs", "cbrt.rs", "generic/scalbn.rs", "generic/fmod.rs", "generic/sqrt.rs"], [("each function is a pure map on bit patterns; a program is their composition", M + "mod.rs")], ["register contents after each instruction"])
p("S08", "Exactly representable results are returned exactly",
  "Where the true result of an elementary function is itself a number of the format at a recognisable place, that number is returned: exp2 and log2 of integers and powers of two, exp10 and log10 at powers of ten (exp10 of small negative integers being the nearest number), tgamma at integers, lgamma, log, acosh and acos at their zeros, pow with an integral or dyadic exponent whose result is representable (subnormal results included), and hypot of Pythagorean pairs. This holds for f32 and f64.",
  ["inputs"], "every argument with such a result",
  "The tests allow an error of one unit or more at these points, and their random arguments almost never have an exact result.",
  ["pow.rs", "powf.rs", "hypot.rs", "hypotf.rs", "exp2.rs", "exp2f.rs", "exp10.rs", "exp10f.rs", "log2.rs", "log2f.rs", "log10.rs", "log10f.rs", "tgamma.rs", "lgamma_r.rs", "lgammaf_r.rs"], [("extra-precision logarithm and exponential", M + "pow.rs"), ("table of factorials", M + "tgamma.rs"), ("table of powers of ten", M + "exp10.rs")], ["return value"])
p("S09", "Results stay within each function's range and elementary bounds",
  "Results never leave the function's range or cross an elementary bound: |sin| and |cos| are at most 1 and |sin x| at most |x|, tanh and erf stay within [-1, 1], cosh at least 1, atan and asin within pi/2, acos within [0, pi], exp and its relatives at least 0 and on the right side of 1, exp x at least 1+x, log x at most x-1, log1p x at most x, erfc within [0, 2], hypot no smaller than either argument and no larger than their sum, pow on the right side of 1. Odd functions keep the argument's sign. This holds for f32 and f64.",
  ["inputs"], "every argument or pair of arguments",
  "A result one unit outside the range is within every tolerance the tests use; callers that feed asin(sin x) or sqrt(1 - c*c) rely on the range itself.",
  ["sin.rs", "cos.rs", "k_sin.rs", "k_cos.rs", "k_tan.rs", "tanh.rs", "erf.rs", "cosh.rs", "atan.rs", "asin.rs", "acos.rs", "exp.rs", "expm1.rs", "log.rs", "log1p.rs", "hypot.rs", "pow.rs"], [("final rounding and clamping of the kernels", M + "k_sin.rs, k_cos.rs, erf.rs")], ["return value"])
K = "crates/libm-test/src/"
p("T01", "The test kit's steps along the floats visit each value once, in order",
  "In libm-test, next_up and next_down move to the adjacent number of f8, f16, f32, f64 and f128 (both zeros count as one point, infinities are walls, NaNs stay), n_up and n_down make n such steps at once, the list of NaNs of a format is the eight stated bit patterns, and the f8 type orders, negates and enumerates its 256 values as an IEEE format with 3 fraction bits.",
  ["inputs"], "every bit pattern of the five formats and every step count",
  "Every generated test argument is reached by these steps; a step that sticks or skips removes arguments from all tests silently. Its own tests walk f8 only.",
  [K + "num.rs", K + "f8_impl.rs"], [("FloatExt::n_up, n_down, next_up, next_down, consts", K + "num.rs"), ("ordering and negation of f8", K + "f8_impl.rs")], ["bit patterns returned"])
p("T02", "The test kit's evenly spaced sequences have the promised length and items",
  "For any bounds and step count (at least 2), logspace of floats and linear_ints of integers start at the lower bound, proceed with the equal stride (range over steps less one, at least 1), and deliver as many items as they announced, never passing the upper bound; the distance between two floats is the number of steps between them.",
  ["inputs"], "every pair of ordered bounds of every format and every step count from 2",
  "A spacing that rounds the stride wrongly or stops early leaves part of a domain untested without any test failing.",
  [K + "num.rs"], [("logspace, linear_ints, ulp_between", K + "num.rs")], ["items and announced length"])
p("T03", "The test kit lets a result pass exactly when it is close enough to the reference",
  "Validation in libm-test accepts a result exactly when it is NaN with the reference (the very NaN for explicit lists and absolute values), or has the reference's sign, is infinite only with it, and lies within the tolerance; integers and second results are compared as well. Exactly defined functions have tolerance 0 against MPFR and others at most the documented one. The exceptions of precision.rs apply to the functions, arguments, references and results they name and to nothing else.",
  ["inputs"], "every function, arguments, result, reference value, tolerance, reference kind and generator kind",
  "The comparison is what makes every other test mean something; if it wrongly accepts, all tests still pass. No test feeds it wrong results.",
  [K + "test_traits.rs", K + "precision.rs", K + "run_cfg.rs"], [("validate_float, validate_int, tuples", K + "test_traits.rs"), ("default_ulp and the exceptions", K + "precision.rs")], ["pass or fail of a comparison"])
p("T04", "The test kit's generators deliver the arguments they promise",
  "For every function, the edge-case, spaced and random generators of libm-test deliver as many items as announced, being the complete product of the argument lists; edge cases contain the neighbourhoods of zero, one, the smallest normal, infinities, the domain's ends, all listed NaNs and integer limits, strictly ordered; spaced arguments cover the function's domain from end to end at equal strides; random ones repeat for a seed.",
  ["inputs", "configurations"], "every function of the table, every iteration count and argument position",
  "A generator that drops arguments makes tests weaker, never red.",
  [K + "generate/edge_cases.rs", K + "generate/spaced.rs", K + "generate/random.rs", K + "domain.rs", K + "run_cfg.rs"], [("edge lists, deduplicated and sorted", K + "generate/edge_cases.rs"), ("domains per function", K + "domain.rs"), ("iterations per argument", K + "run_cfg.rs")], ["generated arguments, counts"])
p("T05", "The operation table names, calls and lists each function as what it is",
  "libm-test's operation table has exactly one entry for each public function, with its name, base name, float type and signature in Rust and in C; the name leads back to the entry, calling it through the table is calling that function with the arguments in order, and every listed case with a stated outcome states one that the function's definition allows.",
  ["inputs"], "every entry, every argument, every listed case",
  "If the table routed a name to another function, or dropped one, the tests would compare the wrong pair or nothing.",
  [K + "op.rs", K + "generate/case_list.rs", "crates/libm-macros/src/shared.rs", "crates/libm-macros/src/enums.rs"], [("for_each_function! table", "crates/libm-macros/src/shared.rs"), ("listed cases", K + "generate/case_list.rs")], ["names, arities, results through the table"])
p("T06", "The multiple-precision oracle returns the correctly rounded result",
  "For every function libm-test has a multiple-precision implementation of (all but nextafter), in every format, the oracle's result is the number nearest to the true value, ties to even: subnormal results are rounded once, results beyond the range are the infinities, special operands give what the function is defined to give, second results (sign of gamma, quotient bits, exponent, integral part) are right. It holds however the oracle was called before: its operand stores are reused between calls. (MPFR's NaN has no sign or payload, and lgamma has no value where the gamma function is negative; orders of jn and yn up to 64.)",
  ["inputs", "histories"], "every argument, every sequence of calls through one set of operand stores",
  "Every accuracy test trusts the oracle; where it is off by less than the tolerance, or in the same way as the library, nothing notices.",
  [K + "mpfloat.rs", K + "op.rs"], [("subnormal rounding with the ternary value", K + "mpfloat.rs prep_retval"), ("operand stores and their precision", K + "mpfloat.rs new_mpfloat")], ["results of MpOp::run"])
p("T07", "The test kit tries as many arguments as it promises and runs the tests asked for",
  "The number of argument tuples libm-test announces for a function is at least the planned one: 4 million evenly spaced or 40 thousand random ones, four times as many for f64 and f128, doubled per further argument, half as many again for fma, one fiftieth of the spaced ones for fmodf128, never under ten thousand, each argument getting its equal share and no more values than its domain has; extensive tests get the number set in the environment, or 2^32, and all values of a format when that suffices. An extensive test is selected exactly when the list in the environment has its name, all, or the name of its float type.",
  ["inputs", "configurations"], "every function of the table, every generator kind, every list of names and count in the environment (64-bit x86 Linux, optimised)",
  "Fewer arguments, or an extensive test silently skipped, leave every test green.",
  [K + "run_cfg.rs", K + "generate/spaced.rs", K + "generate/random.rs"], [("iteration_count, EXTENSIVE, skip_extensive_test", K + "run_cfg.rs"), ("exhaustive and spaced sequences", K + "generate/spaced.rs")], ["announced totals, selection"])
p("I04", "Status flags of rounding, square root and fma tell what was lost",
  "The status-reporting forms behind the public functions deliver the right value and the right flags. ceil, floor and trunc raise inexact exactly when the result differs from the argument, and nothing else. sqrt raises invalid for every negative nonzero argument, and nothing otherwise. fma raises underflow only when the exact result is nonzero, below the smallest normal number and not representable; fma in f16, f32, f64 and f128 rounds the exact sum of product and addend once. (Flags of NaN arguments are left open.)",
  ["inputs"], "every argument of every format",
  "The public functions discard the flags and the tests look at them for a handful of arguments.",
  ["generic/ceil.rs", "generic/floor.rs", "generic/trunc.rs", "generic/sqrt.rs", "fma.rs", "fma_wide.rs", S + "env.rs"], [("fraction masks and the inexact flag", M + "generic/ceil.rs, floor.rs, trunc.rs"), ("underflow on inexact subnormal results", M + "fma.rs")], ["value and Status of the *_status and *_round functions (with unstable-public-internals)"])
p("U01", "The command-line tool evaluates the number the text denotes, exactly as asked",
  "`util eval libm|mpfr OP ARG...` reads each argument as the number its text denotes - decimal rounded once to the nearest number of the type, ties to even, hexadecimal floats exactly or not at all, 0x and 0b bit patterns, 32-bit integers - applies the named function of the library or of the multiple-precision oracle to them in order, and prints the result twice, in decimal (bit patterns for f16 and f128) and hexadecimal, both denoting the very result. Text that denotes nothing, a number that does not fit, a wrong number of arguments, an unknown operation or a basis that is not built in makes it fail without printing a result; nothing else does.",
  ["inputs"], "every operation, both bases, every text (MPFR's Bessel functions of order n: arguments below 512)",
  "The tool has no tests at all; what it prints is what bug reports and reference values are copied from.",
  ["crates/util/src/main.rs", S + "hex_float.rs", "crates/libm-macros/src/shared.rs", K + "mpfloat.rs"], [("parse, parse_rug, from_str_radix", "crates/util/src/main.rs"), ("dispatch by name", "crates/util/src/main.rs do_eval")], ["exit status and standard output of runs of the program"])
p("M01", "for_each_function! calls back once per selected function with its own data",
  "An invocation of for_each_function! expands to exactly one callback for each function of the library that the only list names, or that the skip list does not, and no other. Each callback gets the function's name; the requested types in the requested order, in Rust and C form; the attributes listed for that function in order, plus the configuration gate of f16 and f128; extra and, from its own arm or else the default arm, fn_extra, with MACRO_FN_NAME and MACRO_FN_NAME_NORMALIZED replaced everywhere by its name and base name. Unknown functions, types, fields and MACRO_ names, skip together with only, all together with other types, repeated or missing fields and arms, guards and attributes on arms are compile errors; nothing else is.",
  ["inputs"], "every invocation of the documented grammar",
  "Every test, benchmark and fuzz target is generated by this macro: a function it leaves out is a test that silently does not exist.",
  ["crates/libm-macros/src/lib.rs", "crates/libm-macros/src/parse.rs", "crates/libm-macros/src/shared.rs"], [("validate, expand, MacroReplace", "crates/libm-macros/src/lib.rs"), ("StructuredInput, AttributeMap, fn_extra arms", "crates/libm-macros/src/parse.rs")], ["what the callbacks of compiled invocations receive; compile errors"])
