// -*- mode: bluespec -*-
// The library as ONE mathematical function: which observations of different calls speak about the same
// value.  Every call yields facts (key, value); two calls may give the same key although they enter through
// different functions (rint/roundeven, sincos/sin, lgamma/lgamma_r, modf/trunc ...), different formats (exact
// operations, operands widened), arguments of opposite sign or swapped order (odd and even functions, the
// ceiling as the mirrored floor, the minimum as the mirrored maximum), different entry points, builds,
// threads or moments.  The law is that equal keys have equal values.
module laws {
  import ieee.* from "./ieee"

  type Key = { fam: int, w: int, a: int, b: int, c: int }
  type Fact = { k: Key, v: int }
  pure val NAN_V = -1

  // families as numbered by tools/trace.py
  pure val ODD = Set(3, 4, 5, 9, 42, 43, 44, 45, 48, 58, 59, 60, 61)     // trunc round roundeven cbrt asin asinh atan atanh erf sin sinh tan tanh
  pure val EVEN = Set(7, 46, 47)                                         // fabs cos cosh
  pure val SORTED = Set(12, 14, 16)                                          // fmax fmaximum fmaximum_num

  // the class of a result: all NaNs are one value
  pure def cls(f: Fmt, r: int): int = if (isNan(f, r)) NAN_V else r
  // the same, with the sign of a zero left open
  pure def zcls(f: Fmt, r: int): int = if (isNan(f, r)) NAN_V else if (isZero(f, r)) 0 else r
  pure def flip(f: Fmt, yes: bool, b: int): int = if (yes) neg(f, b) else b
  pure def mk(fam: int, w: int, a: int, b: int, c: int, v: int): Fact = { k: { fam: fam, w: w, a: a, b: b, c: c }, v: v }

  // exact change of format to a wider one
  pure def widen(f: Fmt, g: Fmt, b: int): int =
    if (f.w == g.w) b
    else if (isNan(f, b)) withSign(g, sgnBit(f, b), g.qnan)
    else if (isInf(f, b)) withSign(g, sgnBit(f, b), g.inf)
    else { val v = decode(f, b)
           roundInt(g, v.s, v.m, v.e, RNE) }

  // two's complement
  pure def s32(n: int): int = if (n >= 2147483648) n - 4294967296 else n
  pure def u32(n: int): int = if (n < 0) n + 4294967296 else n

  // the format in which an exact operation's facts are stated
  pure def wide(fam: int, f: Fmt): Fmt =
    if (fam <= 7 or fam == 10 or (fam >= 12 and fam <= 18)) F128
    else if (fam == 19 or fam == 23 or fam == 25) F64 else f

  // a fact about an operation on one argument, sign taken out as the operation's symmetry allows
  pure def unary(fam: int, f: Fmt, a: int, r: int): Fact = {
    val g = wide(fam, f)
    val aw = widen(f, g, a)
    val rw = widen(f, g, r)
    val s = sgnBit(f, a) == 1
    if (ODD.contains(fam)) mk(fam, g.w, magOf(g, aw), 0, 0, cls(g, flip(g, s, rw)))
    else if (fam == 69) mk(fam, f.w, magOf(f, a), 0, 0, zcls(f, r))
    else if (fam == 71) mk(fam, f.w, a, 0, 0, zcls(f, r))
    else if (fam == 70) mk(fam, f.w, magOf(f, a), 0, 0, zcls(f, flip(f, s, r)))
    else if (fam == 72) mk(fam, f.w, a, 0, 0, zcls(f, r))
    else if (EVEN.contains(fam)) mk(fam, g.w, magOf(g, aw), 0, 0, cls(g, rw))
    else if (fam == 1) mk(2, g.w, neg(g, aw), 0, 0, cls(g, neg(g, rw)))               // ceil(x) = -floor(-x)
    else mk(fam, g.w, aw, 0, 0, cls(g, rw))
  }
  // operations whose result only depends on the set of the two operands
  pure def extremum(fam: int, f: Fmt, a: int, b: int, r: int): Fact = {
    val g = F128
    val lower = fam == 13 or fam == 15 or fam == 17
    val k = if (lower) fam - 1 else fam
    val x = flip(g, lower, widen(f, g, a))
    val y = flip(g, lower, widen(f, g, b))
    val z = flip(g, lower, widen(f, g, r))
    mk(k, g.w, imin(x, y), imax(x, y), 0, if (k == 12) zcls(g, z) else cls(g, z))
  }
  pure def quotientLike(fam: int, f: Fmt, a: int, b: int, r: int): Fact = {
    val g = wide(fam, f)
    mk(fam, g.w, magOf(g, widen(f, g, a)), magOf(g, widen(f, g, b)), 0, cls(g, flip(g, sgnBit(f, a) == 1, widen(f, g, r))))
  }
  pure def fdimFact(f: Fmt, a: int, b: int, r: int): Fact = {
    val x = neg(f, b)
    val y = neg(f, a)
    if (a < x or (a == x and b <= y)) mk(11, f.w, a, b, 0, cls(f, r)) else mk(11, f.w, x, y, 0, cls(f, r))
  }
  pure def fmaFact(f: Fmt, a: int, b: int, c: int, r: int): Fact = {
    val p = sgnBit(f, a) != sgnBit(f, b)
    val x = magOf(f, a)
    val y = magOf(f, b)
    mk(21, f.w, imin(x, y), imax(x, y), flip(f, p, c), zcls(f, flip(f, p, r)))
  }
  pure def powFact(f: Fmt, a: int, b: int, r: int): Fact = {
    val y = decode(f, b)
    if (isInt(y)) mk(67, f.w, magOf(f, a), b, 0, cls(f, flip(f, sgnBit(f, a) == 1 and isOdd(y), r)))
    else mk(67, f.w, a, b, 0, cls(f, r))
  }
  // Bessel functions of integer order: J(-n, x) = J(n, -x) = (-1)^n J(n, x), Y(-n, x) = (-1)^n Y(n, x)
  pure def besselFacts(fam: int, f: Fmt, n: int, x: int, r: int): List[Fact] = {
    val k = s32(n)
    val m = iabs(k)
    val odd = m % 2 == 1
    val sx = sgnBit(f, x) == 1
    // zeros at infinity and underflowed zeros have no meaningful sign
    val v = if (fam == 73) zcls(f, flip(f, odd and (sx != (k < 0)), r)) else zcls(f, flip(f, odd and k < 0, r))
    val u = if (fam == 73) magOf(f, x) else x
    val own = mk(fam, f.w, m, u, 0, v)
    if (m == 0) [own, mk(if (fam == 73) 69 else 71, f.w, u, 0, 0, v)]
    else if (m == 1) [own, mk(if (fam == 73) 70 else 72, f.w, u, 0, 0, v)]
    else [own]
  }
  // all facts of one returned call
  pure def facts(fam: int, f: Fmt, a: int, b: int, c: int, r0: int, r1: int): List[Fact] =
    if (fam == 6) [unary(5, f, a, r0)]                                                  // rint = roundeven
    else if (fam == 10) [mk(10, 128, magOf(F128, widen(f, F128, a)), sgnBit(f, b), 0, widen(f, F128, r0))]
    else if (fam == 11) [fdimFact(f, a, b, r0)]
    else if (fam >= 12 and fam <= 17) [extremum(fam, f, a, b, r0)]
    else if (fam == 18 or fam == 19) [quotientLike(fam, f, a, b, r0)]
    else if (fam == 26) {
      val s = sgnBit(f, a) != sgnBit(f, b)
      [quotientLike(19, f, a, b, r0),                                                   // remquo's first result = remainder
       mk(26, f.w, magOf(f, a), magOf(f, b), 1, if (s) -s32(r1) else s32(r1))]
    }
    else if (fam == 20) {
      val s = sgnBit(f, a) == 1
      [mk(20, f.w, magOf(f, a), flip(f, s, b), 0, cls(f, flip(f, s, r0)))]
    }
    else if (fam == 21) [fmaFact(f, a, b, c, r0)]
    else if (fam == 22) [mk(22, f.w, magOf(f, a), b, 0, cls(f, flip(f, sgnBit(f, a) == 1, r0)))]
    else if (fam == 23) [mk(23, 64, magOf(F64, widen(f, F64, a)), 0, 0, s32(r0))]
    else if (fam == 24) {
      val own = mk(24, f.w, magOf(f, a), 0, 0, cls(f, flip(f, sgnBit(f, a) == 1, r0)))
      if (isFin(f, a) and not(isZero(f, a))) [own, mk(23, 64, magOf(F64, widen(f, F64, a)), 0, 0, s32(r1) - 1)]   // frexp and ilogb
      else [own]
    }
    else if (fam == 25) {
      val s = sgnBit(f, a) == 1
      [unary(3, f, a, r1),                                                              // modf's integral part = trunc
       mk(25, 64, magOf(F64, widen(f, F64, a)), 0, 0, cls(F64, flip(F64, s, widen(f, F64, r0))))]
    }
    else if (fam == 63) [mk(64, f.w, a, 0, 0, cls(f, r0))]                              // lgamma = lgamma_r's first result
    else if (fam == 64) [mk(64, f.w, a, 0, 0, cls(f, r0)), mk(64, f.w, a, 0, 1, s32(r1))]
    else if (fam == 65) [mk(65, f.w, magOf(f, a), b, 0, cls(f, flip(f, sgnBit(f, a) == 1, r0)))]
    else if (fam == 66) [mk(66, f.w, imin(magOf(f, a), magOf(f, b)), imax(magOf(f, a), magOf(f, b)), 0, cls(f, r0))]
    else if (fam == 67) [powFact(f, a, b, r0)]
    else if (fam == 68) [unary(58, f, a, r0), unary(46, f, a, r1)]                      // sincos = (sin, cos)
    else if (fam == 73 or fam == 74) besselFacts(fam, f, a, b, r0)
    else [unary(fam, f, a, r0)]
}
