// -*- mode: bluespec -*-
// IEEE 754 binary formats over unbounded integers: the number system libm computes in.
// A datum is its bit pattern (a nonnegative int); formats are parametric, so that the same
// definitions are model checked on tiny formats and used to judge f16, f32, f64 and f128.
module ieee {
  // eb: exponent bits, mb: stored significand bits; the rest is derived once by mkFmt.
  type Fmt = { eb: int, mb: int, w: int, bias: int, qmin: int, one: int, sgn: int, inf: int, qnan: int }
  pure def mkFmt(eb: int, mb: int): Fmt = {
    eb: eb, mb: mb, w: 1 + eb + mb,
    bias: 2^(eb - 1) - 1,
    qmin: 2 - 2^(eb - 1) - mb,          // exponent of the unit in the last place of subnormals
    one: 2^mb,                          // the implicit bit
    sgn: 2^(eb + mb),
    inf: (2^eb - 1) * 2^mb,
    qnan: (2^eb - 1) * 2^mb + 2^(mb - 1)
  }
  pure val F16: Fmt = mkFmt(5, 10)
  pure val F32: Fmt = mkFmt(8, 23)
  pure val F64: Fmt = mkFmt(11, 52)
  pure val F128: Fmt = mkFmt(15, 112)
  pure def fmtOf(w: int): Fmt = if (w == 64) F64 else if (w == 32) F32 else if (w == 16) F16 else F128

  // A decoded datum. c = 0: finite, value (-1)^s * m * 2^e; c = 1: infinity; c = 2: NaN
  type Val = { c: int, s: int, m: int, e: int }

  pure def sgnBit(f: Fmt, b: int): int = if (b >= f.sgn) 1 else 0
  pure def magOf(f: Fmt, b: int): int = if (b >= f.sgn) b - f.sgn else b
  pure def isNan(f: Fmt, b: int): bool = magOf(f, b) > f.inf
  pure def isInf(f: Fmt, b: int): bool = magOf(f, b) == f.inf
  pure def isFin(f: Fmt, b: int): bool = magOf(f, b) < f.inf
  pure def isZero(f: Fmt, b: int): bool = magOf(f, b) == 0
  pure def isSnan(f: Fmt, b: int): bool = magOf(f, b) > f.inf and magOf(f, b) < f.qnan
  pure def neg(f: Fmt, b: int): int = if (b >= f.sgn) b - f.sgn else b + f.sgn
  pure def withSign(f: Fmt, s: int, mag: int): int = mag + s * f.sgn
  pure def maxFin(f: Fmt): int = f.inf - 1

  pure def decode(f: Fmt, b: int): Val = {
    val s = sgnBit(f, b)
    val g = magOf(f, b)
    if (g >= f.inf) { c: if (g == f.inf) 1 else 2, s: s, m: 0, e: 0 }
    else {
      val be = g / f.one
      if (be == 0) { c: 0, s: s, m: g, e: f.qmin }
      else { c: 0, s: s, m: g % f.one + f.one, e: f.qmin + be - 1 }
    }
  }

  // Number of binary digits of n >= 0
  pure val SH_S = [512, 256, 128, 64, 32, 16, 8, 4, 2, 1]
  pure val SH_L = [65536, 32768, 16384, 8192, 4096, 2048, 1024]
  pure def bitlen(n: int): int =
    if (n <= 0) 0 else {
      val top = if (n < 2^1024) (n, 1)
                else SH_L.foldl((n, 1), (a, k) => if (a._1 >= 2^k) (a._1 / 2^k, a._2 + k) else a)
      SH_S.foldl(top, (a, k) => if (a._1 >= 2^k) (a._1 / 2^k, a._2 + k) else a)._2
    }

  // floor and ceiling division, any sign of a, b > 0
  pure def fdiv(a: int, b: int): int = if (a >= 0) a / b else -((b - 1 - a) / b)
  pure def cdiv(a: int, b: int): int = -fdiv(-a, b)
  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  // a * 2^k, k of any sign (floor)
  pure def shl(a: int, k: int): int = if (k >= 0) a * 2^k else fdiv(a, 2^(-k))

  // Rounding directions
  pure val RNE = 0   // to nearest, ties to even
  pure val RDN = 1   // toward negative
  pure val RUP = 2   // toward positive
  pure val RTZ = 3   // toward zero
  pure val RNA = 4   // to nearest, ties away

  // round n / d (n >= 0, d > 0, value has sign s) to an integer in direction mode
  pure def roundDiv(s: int, n: int, d: int, mode: int): int = {
    val q = n / d
    val r = n - q * d
    if (r == 0) q
    else {
      val up =
        if (mode == RNE) 2 * r > d or (2 * r == d and q % 2 == 1)
        else if (mode == RNA) 2 * r >= d
        else if (mode == RTZ) false
        else if (mode == RDN) s == 1
        else s == 0
      if (up) q + 1 else q
    }
  }

  // The datum nearest (-1)^s * (n/d) * 2^e in direction mode, with overflow as IEEE 754 7.4 demands
  pure def roundRat(f: Fmt, s: int, n: int, d: int, e: int, mode: int): int =
    if (n == 0) withSign(f, s, 0)
    else {
      val l = bitlen(n) - bitlen(d)
      // 2^l0 <= n/d < 2^(l0+1)
      val l0 = if (l >= 0) (if (n >= d * 2^l) l else l - 1) else (if (n * 2^(-l) >= d) l else l - 1)
      val k = l0 + e
      if (k > f.bias + 1) {
        if (mode == RTZ or (mode == RDN and s == 0) or (mode == RUP and s == 1)) withSign(f, s, maxFin(f)) else withSign(f, s, f.inf)
      } else if (k < f.qmin - 2) {
        if ((mode == RUP and s == 0) or (mode == RDN and s == 1)) withSign(f, s, 1) else withSign(f, s, 0)
      } else {
        val t = imax(k - f.mb, f.qmin)         // exponent of the last place
        val sh = e - t
        val q = if (sh >= 0) roundDiv(s, n * 2^sh, d, mode) else roundDiv(s, n, d * 2^(-sh), mode)
        val g = (t - f.qmin) * f.one + q
        if (g < f.inf) withSign(f, s, g)
        else if (mode == RTZ or (mode == RDN and s == 0) or (mode == RUP and s == 1)) withSign(f, s, maxFin(f))
        else withSign(f, s, f.inf)
      }
    }
  pure def roundInt(f: Fmt, s: int, n: int, e: int, mode: int): int = roundRat(f, s, n, 1, e, mode)
  // signed numerator
  pure def roundSigned(f: Fmt, n: int, e: int, mode: int): int =
    if (n < 0) roundRat(f, 1, -n, 1, e, mode) else roundRat(f, 0, n, 1, e, mode)

  // Position on the line of data: consecutive data of one sign differ by 1, both zeros at 0,
  // infinity one step beyond the largest finite number.
  pure def ord(f: Fmt, b: int): int = if (b >= f.sgn) f.sgn - b else b

  // exact comparison of finite a, b : sign of a - b
  pure def cmpVal(a: Val, b: Val): int = {
    val e = imin(a.e, b.e)
    val x = (if (a.s == 1) -a.m else a.m) * 2^(a.e - e)
    val y = (if (b.s == 1) -b.m else b.m) * 2^(b.e - e)
    if (x < y) -1 else if (x > y) 1 else 0
  }
  // order of two non-NaN data (zeros equal)
  pure def cmpBits(f: Fmt, a: int, b: int): int = {
    val x = ord(f, a)
    val y = ord(f, b)
    if (x < y) -1 else if (x > y) 1 else 0
  }
  // a non-NaN datum equal to an integer / odd integer
  pure def isInt(v: Val): bool = v.c == 0 and (v.m == 0 or v.e >= 0 or (v.e > -20000 and v.m % 2^(-v.e) == 0))
  pure def isOdd(v: Val): bool = v.c == 0 and v.m > 0 and (
    if (v.e > 0) false else if (v.e == 0) v.m % 2 == 1 else v.m % 2^(-v.e) == 0 and (v.m / 2^(-v.e)) % 2 == 1)
}
