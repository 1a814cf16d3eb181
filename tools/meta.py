#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (python3 tools/meta.py writes both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "libm/src/math/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [M + f if not f.startswith(("libm/", "crates/")) else f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}}
    if state: d["anchors"]["state"] = state
    P.append(d)
SAMPLE = "The tests sample: musl/MPFR comparison at random and evenly spaced points plus hand-picked edge cases; exhaustive runs exist only for f16 and (off by default) one-argument f32. "
ALLF = ["inputs"]
p("R01", "Rounding to an integral value is exact in every format",
  "ceil, floor, trunc, round, roundeven and rint return, for f16, f32, f64 and f128 and every argument, exactly the integral value their rounding direction selects (ties away from zero for round, to even for roundeven and rint). The sign of a zero result is that of the argument, integral and infinite arguments come back unchanged, and a NaN gives a NaN.",
  ALLF, "every bit pattern of every format", SAMPLE + "A wrong bit mask or tie rule at one exponent, or in one 128-bit limb, is missed.",
  ["generic/ceil.rs", "generic/floor.rs", "generic/trunc.rs", "generic/round.rs", "generic/rint.rs", "roundeven.rs", "rint.rs", "ceil.rs", "floor.rs", "trunc.rs", "round.rs"],
  [("masking of the fraction bits / add-and-subtract 2^p", M + "generic/ceil.rs, generic/rint.rs")], ["return value of the public functions"])
p("R02", "sqrt is correctly rounded in every format and build",
  "sqrt returns, for f16, f32, f64 and f128, the representable number nearest the real square root, ties to even, with and without the hardware instruction. sqrt of a zero is that zero, of +infinity is +infinity, and of a NaN or any number below zero a NaN.",
  ["inputs", "configurations"], "every bit pattern of every format; builds with and without hardware support", SAMPLE + "Goldschmidt iteration errors show only for mantissas next to a rounding boundary.",
  ["generic/sqrt.rs", "sqrt.rs", "sqrtf.rs", "sqrtf16.rs", "sqrtf128.rs", "arch/i686.rs"], [("reciprocal table, Goldschmidt iterations, final correction", M + "generic/sqrt.rs")], ["return value"])
p("R03", "fma rounds the exact product-sum once",
  "fma(x, y, z) for f32, f64 and f128 is the exact x*y+z rounded once to nearest-even, including subnormal results, massive cancellation, intermediate overflow and underflow. Exact zero results, infinities, invalid products and NaNs follow IEEE 754.",
  ALLF, "every triple of bit patterns of every format", "Double rounding and sticky-bit errors need a product within 2^-50 of a tie or a subnormal boundary: one in 2^30 or rarer for random triples; the tests run some hundred thousand of them.",
  ["fma.rs", "fma_wide.rs", "support/env.rs"], [("wide product, alignment with sticky bit, single rounding", M + "fma.rs"), ("f32 through f64 with tie repair", M + "fma_wide.rs")], ["return value"])
p("R04", "fmod, remainder and remquo are exact",
  "fmod returns the exact remainder of truncating division with the sign of the dividend, for f16, f32, f64 and f128; remainder and remquo return the exact IEEE remainder (quotient rounded to nearest, ties to even) for f32 and f64. remquo also returns the sign and at least the low three bits of the magnitude of that quotient; zero remainders carry the sign of the dividend, and invalid operands give NaN.",
  ALLF, "every pair of bit patterns, including exponents at opposite ends of the range and subnormal operands", SAMPLE + "The digit loop runs up to thousands of rounds; ties and the last round decide the result and are rarely hit.",
  ["generic/fmod.rs", "remainder.rs", "remainderf.rs", "remquo.rs", "remquof.rs", "fmod.rs", "fmodf16.rs", "fmodf128.rs"], [("bitwise long division", M + "generic/fmod.rs, remquo.rs")], ["return value", "quotient bits"])
p("R05", "scalbn and ldexp scale by powers of two with one rounding",
  "scalbn and ldexp return x*2^n rounded once to nearest-even for every x of f16, f32, f64 and f128 and every 32-bit n. Overflow gives the signed infinity, underflow the correctly rounded subnormal or signed zero, and zeros, infinities and NaNs are preserved.",
  ALLF, "every bit pattern and every i32 exponent", SAMPLE + "Scaling in several steps may round twice only for particular subnormal results.",
  ["generic/scalbn.rs", "scalbn.rs", "ldexp.rs"], [("stepwise scaling that keeps clear of double rounding", M + "generic/scalbn.rs")], ["return value"])
p("R06", "frexp, ilogb and modf decompose numbers exactly",
  "frexp returns a fraction in [1/2, 1) and an exponent whose product is exactly the argument, ilogb the exact exponent, modf the integral part and the exact remainder both with the sign of the argument, for f32 and f64. Subnormals are decomposed like other numbers; zeros, infinities and NaNs give the values C fixes for them.",
  ALLF, "every bit pattern", SAMPLE, ["frexp.rs", "frexpf.rs", "ilogb.rs", "ilogbf.rs", "modf.rs", "modff.rs"], [("exponent field arithmetic, subnormal rescaling", M + "frexp.rs")], ["both results"])
p("R07", "Minimum and maximum functions order numbers and treat NaN as specified",
  "fmin/fmax return the smaller/larger argument and the number when the other is a quiet NaN; fminimum/fmaximum order -0 below +0 and give NaN if either argument is NaN; fminimum_num/fmaximum_num order -0 below +0 and give the number when exactly one argument is NaN. This holds for f16, f32, f64 and f128, and two NaNs give a NaN.",
  ALLF, "every pair of bit patterns", SAMPLE + "Sign-of-zero and NaN payload/sign combinations are pairs the random generators rarely form.",
  ["generic/fmax.rs", "generic/fmin.rs", "generic/fmaximum.rs", "generic/fminimum.rs", "generic/fmaximum_num.rs", "generic/fminimum_num.rs", "fmin_fmax.rs", "fminimum_fmaximum.rs", "fminimum_fmaximum_num.rs"], [("comparison chain", M + "generic/fmaximum_num.rs")], ["return value"])
p("R08", "fabs, copysign and fdim are exact",
  "fabs clears and copysign replaces only the sign bit, for every bit pattern of f16, f32, f64 and f128 including NaN. fdim returns x-y rounded once when x>y, +0 when x<=y and NaN when either is NaN.",
  ALLF, "every (pair of) bit pattern(s)", SAMPLE, ["generic/fabs.rs", "generic/copysign.rs", "generic/fdim.rs"], [("bit masks", M + "generic/copysign.rs")], ["return value"])
p("R09", "nextafter steps to the adjacent representable number",
  "nextafter(x, y) for f32 and f64 is the representable number adjacent to x in the direction of y, y itself when they compare equal, and NaN when either is NaN. From a zero it reaches the smallest subnormal with the sign of y, and from the largest finite number infinity.",
  ALLF, "every pair of bit patterns", SAMPLE, ["nextafter.rs", "nextafterf.rs"], [("bit pattern increment", M + "nextafter.rs")], ["return value"])
p("R10", "cbrt is correctly rounded",
  "cbrt returns, for f32 and f64 and every argument, the representable number nearest the real cube root, with the sign of the argument. Zeros and infinities are preserved, and NaN gives NaN.",
  ALLF, "every bit pattern", SAMPLE + "Correct rounding fails only for arguments whose root lies within 2^-60 of a tie.", ["cbrt.rs", "cbrtf.rs"], [("polynomial start, Newton step, explicit rounding test", M + "cbrt.rs")], ["return value"])
PROF = " Nor is the library less accurate in any part of a function's domain (a quarter octave of the argument, or an octave of the ratio of two) than it is measured to be there, by more than a quarter of that and a quarter of a unit in the last place: %s."
ACC = "Errors beyond the bound typically live in a narrow band of arguments (one reduction branch, one table entry, one threshold), which sampling passes over. "
p("A01", "hypot is within one unit of the exact value, without spurious overflow",
  "hypot(x, y) for f32 and f64 is at most one representable number away from the correctly rounded square root of x*x+y*y, for every pair including those whose squares overflow or underflow. An infinite argument gives +infinity even if the other is NaN." + PROF % "for hypot never above 1.5 units in the last place of the true value, which is 0.5 for a correctly rounded result",
  ALLF, "every pair of bit patterns", SAMPLE + ACC, ["hypot.rs", "hypotf.rs"], [("scaling and Dekker squares", M + "hypot.rs")], ["return value"])
p("A02", "exp, exp2, exp10 and expm1 are accurate on the whole range",
  "exp, exp2 and expm1 for f32 and f64 are at most 1 representable number, and exp10 at most 6, away from the correctly rounded value for every argument, through gradual underflow and up to the overflow threshold. Results overflow to infinity, and those of exp, exp2 and exp10 underflow to zero, exactly where the rounded value does, and expm1 keeps relative accuracy near zero." + PROF % "never above 1.4 units in the last place of the true value for exp, exp2 and expm1 and 5.3 for exp10, and close to the ideal 0.5 to 1 in most parts",
  ALLF, "every bit pattern", SAMPLE + ACC, ["exp.rs", "expf.rs", "exp2.rs", "exp2f.rs", "exp10.rs", "exp10f.rs", "expm1.rs", "expm1f.rs"], [("reduction by ln2, tables, polynomials, over/underflow thresholds", M + "exp.rs, exp2.rs, expm1.rs")], ["return value"])
p("A03", "log, log2, log10 and log1p are accurate on the whole range",
  "log, log2, log10 and log1p for f32 and f64 are at most 1 representable number away from the correctly rounded value for every positive argument (log1p: above -1), subnormals and neighbours of 1 included. Poles give -infinity and arguments below the domain NaN." + PROF % "never above 1.25 units in the last place of the true value, and close to the ideal 0.5 to 1 in most parts",
  ALLF, "every bit pattern", SAMPLE + ACC, ["log.rs", "logf.rs", "log2.rs", "log2f.rs", "log10.rs", "log10f.rs", "log1p.rs", "log1pf.rs"], [("exponent extraction, subnormal scaling, polynomial, hi/lo sums", M + "log10.rs, log1p.rs")], ["return value"])
p("A04", "sin, cos, tan and sincos are accurate for every argument magnitude",
  "sin, cos, tan and both results of sincos for f32 and f64 are at most 1 representable number away from the correctly rounded value for every finite argument, including arguments of any size and those closest to multiples of pi/2. Infinities give NaN." + PROF % "never above 1.15 units in the last place of the true value for sin and cos and 1.4 for tan",
  ALLF, "every bit pattern; in particular the worst cases of the reduction modulo pi/2", SAMPLE + "Reduction errors show only next to multiples of pi/2 at particular exponents (Payne-Hanek recomputation, medium-size cancellation).",
  ["rem_pio2.rs", "rem_pio2f.rs", "rem_pio2_large.rs", "k_sin.rs", "k_cos.rs", "k_tan.rs", "k_sinf.rs", "k_cosf.rs", "k_tanf.rs", "sin.rs", "cos.rs", "tan.rs", "sincos.rs", "sinf.rs", "cosf.rs", "tanf.rs", "sincosf.rs"],
  [("three-step Cody-Waite reduction", M + "rem_pio2.rs"), ("Payne-Hanek reduction with recomputation", M + "rem_pio2_large.rs")], ["return values"])
p("A05", "asin, acos, atan and atan2 are accurate and land in the right quadrant",
  "asin, acos and atan for f32 and f64 are at most 1, atan2 at most 2 representable numbers away from the correctly rounded value for every argument or pair. atan2 gives the angle of the right quadrant including signed zeros and infinities, and asin and acos give NaN outside [-1, 1]." + PROF % "never above 1.25 units in the last place of the true value for asin, acos and atan and 2.1 for atan2",
  ALLF, "every bit pattern or pair", SAMPLE + ACC, ["asin.rs", "acos.rs", "atan.rs", "atan2.rs", "asinf.rs", "acosf.rs", "atanf.rs", "atan2f.rs"], [("range splitting, rational approximation", M + "asin.rs, atan.rs")], ["return value"])
p("A06", "sinh, cosh and tanh are accurate up to the overflow threshold",
  "cosh for f32 and f64 is at most 1, sinh and tanh at most 2 representable numbers away from the correctly rounded value for every argument. sinh and cosh overflow exactly where the rounded value does." + PROF % "never above 1.9 units in the last place of the true value for cosh, 2.5 for sinh and 2.9 for tanh, and below 1 in many parts",
  ALLF, "every bit pattern", SAMPLE + ACC, ["sinh.rs", "cosh.rs", "tanh.rs", "sinhf.rs", "coshf.rs", "tanhf.rs", "expo2.rs", "k_expo2.rs", "k_expo2f.rs"], [("expm1/exp composition, scaled exponential near overflow", M + "k_expo2.rs")], ["return value"])
p("A07", "asinh, acosh and atanh are accurate on their domains",
  "asinh and atanh for f32 and f64 are at most 2, acosh at most 4 representable numbers away from the correctly rounded value. acosh gives NaN below 1, atanh infinities at -1 and 1 and NaN beyond." + PROF % "never above 2.9 units in the last place of the true value for acosh, 2.5 for asinh and 2.4 for atanh, and below 1.3 where they are a logarithm plus a constant",
  ALLF, "every bit pattern", SAMPLE + ACC, ["asinh.rs", "acosh.rs", "atanh.rs", "asinhf.rs", "acoshf.rs", "atanhf.rs"], [("log1p composition by range", M + "asinh.rs")], ["return value"])
p("A08", "pow is within one unit of the exact value for every pair",
  "pow for f32 and f64 is at most 1 representable number away from the correctly rounded value for every pair with a real result, right up to overflow, gradual underflow and exponents far beyond 2^31. Signs for negative bases with integral exponents and all special cases follow C Annex F." + PROF % "for pow, by exponent of the second argument, never above 1.4 units in the last place of the true value",
  ALLF, "every pair of bit patterns", SAMPLE + "The two-dimensional domain has its hard points along curves (over/underflow boundary, x near 1 with huge y).", ["pow.rs", "powf.rs"], [("log2 in double-double, exponent split, thresholds", M + "pow.rs")], ["return value"])
p("A09", "tgamma and lgamma are accurate and report the right sign",
  "tgamma is at most 20 (f64) or 1 (f32) representable numbers away from the correctly rounded gamma function; lgamma and lgamma_r are at most 16 away from the logarithm of its absolute value, or within 64 units of the last place of 1 for negative arguments. lgamma_r reports the sign of the gamma function; poles give infinity (tgamma of a negative integer NaN)." + PROF % "for tgammaf never above 0.75 units in the last place, for tgamma 18 in the worst part and 1 to 10 in others (with half the measured error in reserve)",
  ALLF, "every bit pattern", SAMPLE + ACC + "The default tests skip or relax gamma accuracy on large parts of the domain.", ["tgamma.rs", "tgammaf.rs", "lgamma.rs", "lgamma_r.rs", "lgammaf.rs", "lgammaf_r.rs"], [("Lanczos sum, reflection, polynomials by interval", M + "tgamma.rs, lgamma_r.rs")], ["return values"])
p("A10", "erf and erfc are accurate, erfc also in its tail",
  "erf for f32 and f64 is at most 1 and erfc at most 4 representable numbers away from the correctly rounded value for every argument, including the tail where erfc runs through the subnormal numbers." + PROF % "never above 1.5 units in the last place of the true value for erf and 4.1 for erfc, and close to 1 outside erfc's tail",
  ALLF, "every bit pattern", SAMPLE + ACC, ["erf.rs", "erff.rs"], [("piecewise rational approximations, split exponential", M + "erf.rs")], ["return value"])
p("A11", "Bessel functions track the true function through zeros and large orders",
  "j0, j1, y0 and y1 for f32 and f64 are within 8 representable numbers of the correctly rounded value or, from argument 1 on, within 16 units of the last place of their local amplitude; jn and yn of order n within 64+4|n| by the same measure, wherever the argument is below 512 (jn) or 128 (yn). Signs for negative orders and arguments, zeros, infinities and NaN follow from the functions' definition." + PROF % "for j0, j1, y0 and y1 never above 6 units in the last place of the true value or, near zeros, of the local amplitude",
  ALLF, "every bit pattern and order (|n| up to 1200 for jn, 400 for yn)", SAMPLE + "Tests cap the order, allow large errors and skip neighbourhoods of zeros.", ["j0.rs", "j1.rs", "jn.rs", "j0f.rs", "j1f.rs", "jnf.rs"], [("rational approximations, asymptotic phase, forward/backward recurrence", M + "jn.rs")], ["return value"])
if os.path.exists(os.path.join(V, "tools", "meta2.py")): exec(open(os.path.join(V, "tools", "meta2.py")).read())
TECH = {k: "Quint specification of relations between calls (histories); recorded histories checked against it" for k in ("S02", "S04", "S05", "S06", "S10")}
TECH["S07"] = "Quint specification of a register machine; its random behaviours (quint run, ITF traces) replayed in the real code and compared state by state"
for k in ("T01", "T02", "T03", "T04", "T05", "T07"): TECH[k] = "Quint specification of the test kit (floats as a line of integers, sequences, the comparison); observations recorded from the real kit checked against it"
TECH["T06"] = "Quint specification of correct rounding; calls of the real oracle checked against it"
TECH["U01"] = "Quint specification of a run of the tool (texts denote numbers, contract of the function, texts denote results); recorded runs of the real program checked against it"
TECH["M01"] = "Quint specification of the macro as a function of its invocation; random invocations expanded by the real macro in the real compiler, what the callbacks got checked against it"
NA = []
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "hooks": {"guard": "feature unstable-public-internals", "enable": "--features unstable-public-internals (existing cargo feature of libm; the hook re-exports ceil_status, floor_status, trunc_status, sqrt_round, fma_round and fma_wide_round under it)", "source_commits": ["267a1b07c1d8742c6e2686db4d9348a337885fd7"]},
           "checks": [], "not_applicable": NA,
           "notes": "Every check builds recorders from /repo's working tree, records calls of the real code and lets the Quint specification in spec/ accept or reject each of them; see DESIGN.md."}
    for d in P:
        man["checks"].append({"property": d["id"], "quick_cmd": "python3 /verif/check.py %s quick" % d["id"], "thorough_cmd": "python3 /verif/check.py %s thorough" % d["id"], "evidence_file": "evidence/%s.json" % d["id"],
            "technique": TECH.get(d["id"], "Quint specification; traces recorded from the real code checked against it (trace validation)"), "level": "model_checking",
            "level_note": "Every recorded call handed to the specification is decided by it exactly (integer/ball arithmetic); which of the recorded calls are handed over is chosen by an untrusted screen plus sampling. Assumes the Quint interpreter and the recorder's transcription of arguments and results."})
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
